#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = k % 2 ? "refuse" : "round";
    c.p = {pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty, k < 20 ? k/2 : r.chance(97) ? r.in(0, 50) : r.in(0, 5000), r.in(0, 1<<30), r.in(0, 9), r.in(0, 1<<20)};
    return true;
}
template<class L, class O, class S, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3);
    typedef Mem<L,O,S,false,false,false,wgt,W,WS> MM;
    MM M(r, r.in(0, 200), m, r.in(0, 200), r.in(0, 200), true);
    size_t exp = 11+2+3*sizeof(L)+sizeof(O)+m*(2*sizeof(L)+(wgt ? sizeof(W) : 0));
    std::string fn = fpath("b.bin"); M.c.save(fn);
    std::string g = get(fn);
    CHECK(g.size() == exp, "the file has %zu bytes, expected %zu", g.size(), exp);
    CHECK(g.compare(0, 11, "PIGO-COO-v1") == 0 && (size_t)g[11] == sizeof(L) && (size_t)g[12] == sizeof(O), "the header is wrong");
    auto cmp = [&](typename MM::C& l) {
        CHECK(l.n() == M.c.n() && l.nrows() == M.c.nrows() && l.ncols() == M.c.ncols() && l.m() == M.c.m(), "the dimensions differ after a round trip");
        for (size_t i = 0; i < m; ++i) {
            L x = detail::get_value_<S,L>(l.x(), i), y = detail::get_value_<S,L>(l.y(), i);
            CHECK(x == M.x[i] && y == M.y[i], "entry %zu differs after a round trip", i);
            bool wok = !wgt || same(Wt<wgt,W,WS>::get(l.w(), i), M.w[i]); CHECK(wok, "weight %zu differs after a round trip", i);
        }
    };
    if (c.op == "round") {
        { typename MM::C l {fn}; cmp(l); l.free(); }
        { ROFile f {fn}; typename MM::C l {f, PIGO_COO_BIN}; cmp(l); CHECK(f.left() == 0, "%zu bytes are left after loading", f.left()); l.free(); }
        M.c.free(); return;
    }
    // damaged files
    std::string d = g; size_t hs = 13+3*sizeof(L)+sizeof(O); bool must = true;
    switch (c.a(5)) {
        case 0: d.resize(d.size() - 1 - c.a(6)%std::min<size_t>(d.size()-1, 8)); break;
        case 1: d.resize(c.a(6) % d.size()); break;
        case 2: d[c.a(6)%11] ^= 1; break;
        case 3: d[11] ^= 1 << c.a(6)%8; break;
        case 4: d[12] ^= 1 << c.a(6)%8; break;
        case 5: { O big = (O)(m + 1 + c.a(6)%3); memcpy(&d[hs-sizeof(O)], &big, sizeof(O)); must = big > (O)m; break; }
        case 6: { O big = (O)-1 - (O)(c.a(6)%5); memcpy(&d[hs-sizeof(O)], &big, sizeof(O)); must = (size_t)big > m; break; }
        case 7: { O big = (O)((unsigned long long)1 << (c.a(6)%(8*sizeof(O)))); memcpy(&d[hs-sizeof(O)], &big, sizeof(O)); must = (size_t)big > m; break; }
        case 8: { O big = (O)(0 - (unsigned long long)(1 + c.a(6)%64) * (~0ULL/ (2*sizeof(L)) / 32)); memcpy(&d[hs-sizeof(O)], &big, sizeof(O)); must = (size_t)big > m; break; }
        default: d.resize(std::min<size_t>(d.size()-1, hs + c.a(6) % (d.size() > hs ? d.size()-hs+1 : 1))); break;
    }
    if (d.empty()) d = "P";
    put(fn, d);
    bool refused = throws_error([&]{ typename MM::C l {fn, PIGO_COO_BIN}; l.free(); });
    CHECK(refused || !must, "a damaged file is accepted (kind %lld)", c.a(5));
    M.c.free();
}
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<uint32_t,uint32_t,uint32_t*,false,float,float*>(c); break;
        case 1: t<uint64_t,uint64_t,std::vector<uint64_t>,true,double,std::vector<double>>(c); break;
        case 2: t<uint32_t,uint64_t,uint32_t*,true,int8_t,int8_t*>(c); break;
        case 3: t<uint16_t,uint32_t,std::shared_ptr<uint16_t>,true,float,std::shared_ptr<float>>(c); break;
        case 4: t<uint64_t,uint32_t,uint64_t*,true,uint32_t,uint32_t*>(c); break;
    }
}
