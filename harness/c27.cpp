#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5;
    c.op = k % 3 == 2 ? "max" : "write"; k /= 3;
    c.p = {k < 40 ? k%8+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, k < 40 ? k/4 : r.chance(97) ? r.in(1, 40) : r.in(100, 4000), r.in(0, 1<<30), r.in(1, 5)};
    return true;
}
template<class T> static std::string tos(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
template<class W, bool f> struct F { static std::string s(W v) { return tos(v); } };
template<class W> struct F<W, true> { static std::string s(W v) { char b[2000]; FilePos p = b; write_ascii(p, v); return std::string(b, p-b); } };
template<class L, class O, class S, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3), od = c.a(5);
    typedef Tensor<L,O,S,W,WS,wgt> T;
    T x((O)od, (O)m); std::string e; std::vector<L> mx(od);
    int sh = r.in(0, 63);
    for (size_t i = 0; i < m; ++i) {
        for (size_t j = 0; j < od; ++j) { L v = (L)(r.u() >> r.in(std::max(0, sh-5), 63)); detail::set_value_(x.c(), i*od+j, v); mx[j] = std::max(mx[j], v); e += (j ? " " : "") + tos(v); }
        W w = rw<W>(r); Wt<wgt,W,WS>::set(x.w(), i, w); if (wgt) e += " " + F<W, std::is_floating_point<W>::value>::s(w);
        e += "\n";
    }
    if (c.op == "max") {
        auto g = x.max_labels();
        CHECK(g.size() == od, "%zu maxima for order %zu", g.size(), od);
        for (size_t j = 0; j < od; ++j) CHECK(g[j] == mx[j], "the largest label of dimension %zu is reported as %llu, it is %llu", j, (unsigned long long)g[j], (unsigned long long)mx[j]);
    } else {
        std::string fn = fpath("t.txt"); x.write(fn); std::string g = get(fn);
        CHECK(g.size() == e.size(), "the file has %zu bytes, expected %zu", g.size(), e.size());
        for (size_t i = 0; i < e.size(); ++i) CHECK(g[i] == e[i], "byte %zu of %zu is \\x%02x, expected \\x%02x", i, e.size(), (unsigned char)g[i], (unsigned char)e[i]);
    }
    x.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,true,float,float*>(c); break;
        case 1: t<u,u,u*,false,float,float*>(c); break;
        case 2: t<U,U,std::vector<U>,true,int,std::vector<int>>(c); break;
        case 3: t<u,U,std::shared_ptr<u>,true,int8_t,int8_t*>(c); break;
        case 4: t<uint8_t,u,uint8_t*,false,float,float*>(c); break;
    }
}
