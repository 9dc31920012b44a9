#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 6; long k = idx/6;
    long m = k < 20 ? k : r.chance(97) ? r.in(1, 40) : r.in(100, 5000);
    c.op = "write"; c.p = {k < 20 ? k%8+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, m, r.in(0, 1<<30)};
    return true;
}
template<class T> static std::string tos(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
template<class W, bool f> struct F { static std::string s(W v) { return tos(v); } };
template<class W> struct F<W, true> { static std::string s(W v) { char b[2000]; FilePos p = b; write_ascii(p, v); return std::string(b, p-b); } };
template<class L, class O, class S, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3);
    Mem<L,O,S,false,false,false,wgt,W,WS> M(r, 100, m, 100, 100, r.chance(50));
    std::string e;
    for (size_t i = 0; i < m; ++i) { e += tos(M.x[i]) + " " + tos(M.y[i]); if (wgt) e += " " + F<W, std::is_floating_point<W>::value>::s(M.w[i]); e += "\n"; }
    std::string fn = fpath("w.txt"); M.c.write(fn);
    std::string g = get(fn);
    CHECK(g.size() == e.size(), "the file has %zu bytes, expected %zu", g.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) CHECK(g[i] == e[i], "byte %zu of %zu is \\x%02x, expected \\x%02x", i, e.size(), (unsigned char)g[i], (unsigned char)e[i]);
    for (size_t i = 0; i < m; ++i) { L gx = detail::get_value_<S,L>(M.c.x(), i); CHECK(gx == M.x[i], "the COO changed"); }
    M.c.free();
}
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<uint32_t,uint32_t,uint32_t*,false,float,float*>(c); break;
        case 1: t<uint64_t,uint64_t,std::vector<uint64_t>,true,int64_t,std::vector<int64_t>>(c); break;
        case 2: t<int,int,int*,true,int8_t,int8_t*>(c); break;
        case 3: t<uint8_t,uint32_t,std::shared_ptr<uint8_t>,true,unsigned,std::shared_ptr<unsigned>>(c); break;
        case 4: t<uint32_t,uint32_t,uint32_t*,true,float,float*>(c); break;
        case 5: t<uint16_t,uint64_t,uint16_t*,true,double,double*>(c); break;
    }
}
