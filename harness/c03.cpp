#include "h.hpp"
static const char* TY[] = {"u8","i8","u16","i16","u32","i32","u64","i64","char","long","ulong"};
template<class T> static void one(long long bits) {
    T v = (T)bits;
    std::string exp = std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
    size_t sz = pigo::write_size(v);
    CHECK(sz == exp.size(), "write_size(%s) is %zu", exp.c_str(), sz);
    char* b = (char*)malloc(exp.size() + 64);
    memset(b, 0x5a, exp.size()+64);
    pigo::FilePos fp = b + 32;
    pigo::write_ascii(fp, v);
    for (size_t i = 0; i < 32; ++i) CHECK(b[i] == 0x5a && b[32+exp.size()+i] == 0x5a, "write_ascii(%s) writes outside its %zu bytes", exp.c_str(), exp.size());
    CHECK(std::string(b+32, exp.size()) == exp, "write_ascii(%s) wrote '%s'", exp.c_str(), std::string(b+32, exp.size()).c_str());
    CHECK(fp == b+32+exp.size(), "write_ascii(%s) advanced by %zd", exp.c_str(), (ssize_t)(fp-b-32));
    free(b);
    Buf t(exp);
    pigo::FileReader r {t.p, t.p+t.n};
    T back = v;
    if (r.read_sign<int>() < 0) back = (T)(0ULL - (unsigned long long)r.read_int<T>());
    else back = r.read_int<T>();
    CHECK(back == v && !r.good(), "reading '%s' back gives another value", exp.c_str());
    // exact room only
    char* e = (char*)malloc(sz); pigo::FilePos f2 = e; pigo::write_ascii(f2, v); free(e);
}
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 11; c.op = TY[ty]; long k = idx / 11;
    long long v;
    if (k < 512) v = k - 256;
    else if (k < 512+4*64) { int s = (k-512)/4; v = (long long)((1ULL<<s) + (unsigned long long)((k-512)%4) - 2); }
    else if (k < 512+256+20*6) { int e = (k-768)/6; unsigned long long p = 1; for (int i = 0; i < e; ++i) p *= 10; int o = (k-768)%6; v = o < 3 ? (long long)(p+o-1) : (long long)(0ULL-(p+o-4)); }
    else v = (long long)(r.u() >> r.in(0, 63));
    c.p = {1, 0, v};
    return true;
}
void exec(const Case& c) {
    long long v = c.a(2);
    if (c.op == "u8") one<uint8_t>(v); else if (c.op == "i8") one<int8_t>(v);
    else if (c.op == "u16") one<uint16_t>(v); else if (c.op == "i16") one<int16_t>(v);
    else if (c.op == "u32") one<uint32_t>(v); else if (c.op == "i32") one<int32_t>(v);
    else if (c.op == "u64") one<uint64_t>(v); else if (c.op == "i64") one<int64_t>(v);
    else if (c.op == "char") one<char>(v); else if (c.op == "long") one<long long>(v); else one<unsigned long long>(v);
}
