#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = k % 2 ? "refuse" : "round";
    c.p = {pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty, k < 20 ? k/2 : r.chance(97) ? r.in(0, 20) : r.in(0, 1000), r.in(0, 1<<30), r.in(0, 10), r.in(0, 1<<20), r.in(0, 4)};
    return true;
}
template<class L, class O, class LS, class OS, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(4)); size_t n = c.a(3);
    typedef MemC<L,O,LS,OS,wgt,W,WS> MM;
    MM M(r, n, c.a(7), 1+r.in(0, 300));
    size_t m = M.m;
    size_t exp = 11+2+3*sizeof(L)+sizeof(O)+(n+1)*sizeof(O)+m*(sizeof(L)+(wgt ? sizeof(W) : 0));
    CHECK(M.c.save_size() == exp, "save_size is %zu, expected %zu", M.c.save_size(), exp);
    std::string fn = fpath("b.bin"); M.c.save(fn);
    std::string g = get(fn);
    CHECK(g.size() == exp, "the file has %zu bytes, expected %zu", g.size(), exp);
    CHECK(g.compare(0, 11, "PIGO-CSR-v2") == 0 && (size_t)g[11] == sizeof(L) && (size_t)g[12] == sizeof(O), "the header is wrong");
    auto cmp = [&](typename MM::C& l) {
        CHECK(l.n() == M.c.n() && l.nrows() == M.c.nrows() && l.ncols() == M.c.ncols() && l.m() == M.c.m(), "the dimensions differ after a round trip");
        size_t p = 0;
        for (size_t i = 0; i < n; ++i) {
            O o = detail::get_value_<OS,O>(l.offsets(), i); CHECK((size_t)o == p, "offset %zu differs after a round trip", i);
            for (auto& e : M.rows[i]) {
                L y = detail::get_value_<LS,L>(l.endpoints(), p); CHECK(y == e.first, "endpoint %zu differs after a round trip", p);
                bool wok = !wgt || same(Wt<wgt,W,WS>::get(l.weights(), p), e.second); CHECK(wok, "weight %zu differs after a round trip", p);
                ++p;
            }
        }
        O o = detail::get_value_<OS,O>(l.offsets(), n); CHECK((size_t)o == m, "the last offset differs after a round trip");
    };
    if (c.op == "round") {
        { typename MM::C l {fn}; cmp(l); l.free(); }
        {   // within a larger file
            { WFile w {fn, exp+5}; w.write(std::string("ab")); size_t before = w.left(); M.c.save(w); CHECK(before-w.left() == exp, "saving advanced by %zu, not by %zu", before-w.left(), exp); w.write(std::string("xyz")); }
            ROFile f {fn}; f.read("ab"); typename MM::C l {f, PIGO_CSR_BIN}; cmp(l); CHECK(f.left() == 3, "%zu bytes are left after loading", f.left()); f.read("xyz"); l.free();
        }
        M.c.free(); return;
    }
    std::string d = g; size_t nb = 13, mb = 13+sizeof(L); bool must = true;
    auto setO = [&](unsigned long long v) { O b = (O)v; memcpy(&d[mb], &b, sizeof(O)); must = (size_t)b > m; };
    auto setL = [&](unsigned long long v) { L b = (L)v; memcpy(&d[nb], &b, sizeof(L)); must = (size_t)b > n; };
    switch (c.a(5)) {
        case 0: d.resize(d.size() - 1 - c.a(6)%8); break;
        case 1: d.resize(c.a(6) % d.size()); break;
        case 2: d[c.a(6)%11] ^= 1; break;
        case 3: d[11] ^= 1 << c.a(6)%8; break;
        case 4: d[12] ^= 1 << c.a(6)%8; break;
        case 5: setO(m + 1 + c.a(6)%3); break;
        case 6: setO(0ULL - 1 - c.a(6)%5); break;
        case 7: setO(1ULL << (c.a(6)%(8*sizeof(O)))); break;
        case 8: setL(n + 1 + c.a(6)%3); break;
        case 9: setL(0ULL - 1 - c.a(6)%5); break;
        default: setL(1ULL << (c.a(6)%(8*sizeof(L)))); break;
    }
    if (d.empty()) d = "P";
    put(fn, d);
    bool refused = throws_error([&]{ typename MM::C l {fn, PIGO_CSR_BIN}; l.free(); });
    CHECK(refused || !must, "a damaged file is accepted (kind %lld)", c.a(5));
    M.c.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,u*,false,float,float*>(c); break;
        case 1: t<U,U,std::vector<U>,std::vector<U>,true,double,std::vector<double>>(c); break;
        case 2: t<u,U,u*,U*,true,int8_t,int8_t*>(c); break;
        case 3: t<uint16_t,u,std::shared_ptr<uint16_t>,std::shared_ptr<u>,true,float,std::shared_ptr<float>>(c); break;
        case 4: t<U,u,U*,u*,true,u,u*>(c); break;
    }
}
