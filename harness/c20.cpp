#include "h.hpp"
bool gen(long idx, Rng& r, Case& c) {
    static const long ts[] = {1,2,3,4,5,7,8,13,16};
    c.op = idx % 2 ? "write" : "read";
    long k = idx/2;
    long n; long t;
    if (k < 9*40) { n = k/9; t = ts[k%9]; } else { n = r.chance(80) ? r.in(0, 300) : r.in(0, 200000); t = r.chance(90) ? pick_threads(r) : r.in(1, 40); }
    c.p = {t, r.chance(10) ? r.in(1, 1<<30) : 0, n, r.in(0, 1<<30), r.in(0, 2)};
    return true;
}
void exec(const Case& c) {
    size_t n = c.a(2); Rng r(c.a(3));
    std::string src(n, 0); for (auto& x : src) x = (char)r.u();
    const size_t G = 64;
    if (c.a(4) == 2 && n > 0) {   // through a File
        std::string fn = fpath("b.bin");
        if (c.op == "write") {
            { pigo::WFile f {fn, n+4}; f.write((uint16_t)0x1122); std::string s = src; f.parallel_write(&s[0], n);
              CHECK(f.left() == 2, "parallel_write left the position %zu before the end", f.left()); f.write((uint16_t)0x3344); CHECK(s == src, "the source changed"); }
            CHECK(get(fn) == std::string("\x22\x11", 2) + src + std::string("\x44\x33", 2), "the file does not hold the block");
        } else {
            put(fn, "ab" + src + "cd");
            pigo::ROFile f {fn}; f.read<uint16_t>(); std::string d(n, 0x11); f.parallel_read(&d[0], n);
            CHECK(d == src, "the block read differs from the file"); CHECK(f.left() == 2, "wrong position after the read");
        }
        return;
    }
    char* a = (char*)malloc(n + 2*G); memset(a, 0x5a, n+2*G);
    char* s = (char*)malloc(n ? n : 1); memcpy(s, src.data(), n);
    if (c.op == "write") {
        pigo::FilePos fp = a+G; pigo::parallel_write(fp, s, n);
        CHECK(fp == a+G+n, "parallel_write of %zu bytes advanced by %zd", n, (ssize_t)(fp-a-G));
    } else {
        pigo::FilePos fp = s; pigo::parallel_read(fp, a+G, n);
        CHECK(fp == s+n, "parallel_read of %zu bytes advanced by %zd", n, (ssize_t)(fp-s));
    }
    CHECK(memcmp(a+G, src.data(), n) == 0, "%zu bytes with %lld threads: the copy differs", n, c.a(0));
    CHECK(memcmp(s, src.data(), n) == 0, "the source changed");
    for (size_t i = 0; i < G; ++i) CHECK(a[i] == 0x5a && a[G+n+i] == 0x5a, "bytes outside the block changed");
    free(a); free(s);
}
