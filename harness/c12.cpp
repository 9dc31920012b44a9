#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = k % 2 ? "refuse" : "round";
    c.p = {pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty, k < 20 ? k/2 : r.chance(97) ? r.in(0, 20) : r.in(0, 1000), r.in(0, 1<<30), r.in(0, 10), r.in(0, 1<<20), r.in(1, 5)};
    return true;
}
template<class L, class O, class S, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3), od = c.a(7);
    typedef Tensor<L,O,S,W,WS,wgt> T;
    T t((O)od, (O)m);
    std::vector<L> co(m*od); std::vector<W> w(m);
    for (size_t i = 0; i < m*od; ++i) { co[i] = (L)r.u(); detail::set_value_(t.c(), i, co[i]); }
    for (size_t i = 0; i < m; ++i) { w[i] = rw<W>(r); Wt<wgt,W,WS>::set(t.w(), i, w[i]); }
    size_t hs = 13+2+(wgt ? 1 : 0), exp = hs+2*sizeof(O)+m*od*sizeof(L)+(wgt ? m*sizeof(W) : 0);
    std::string fn = fpath("b.bin"); t.save(fn);
    std::string g = get(fn);
    CHECK(g.size() == exp, "the file has %zu bytes, expected %zu", g.size(), exp);
    CHECK(g.compare(0, 13, "PIGO-Tensor-2") == 0 && (size_t)g[13] == sizeof(L) && (size_t)g[14] == sizeof(O) && (!wgt || (size_t)g[15] == sizeof(W)), "the header is wrong");
    auto cmp = [&](T& l) {
        CHECK((size_t)l.order() == od && (size_t)l.m() == m, "the dimensions differ after a round trip");
        for (size_t i = 0; i < m*od; ++i) { L x = detail::get_value_<S,L>(l.c(), i); CHECK(x == co[i], "coordinate %zu differs after a round trip", i); }
        for (size_t i = 0; i < m; ++i) { bool wok = !wgt || same(Wt<wgt,W,WS>::get(l.w(), i), w[i]); CHECK(wok, "weight %zu differs after a round trip", i); }
    };
    if (c.op == "round") {
        { T l {fn}; cmp(l); l.free(); }
        { ROFile f {fn}; T l {f, PIGO_TENSOR_BIN}; cmp(l); CHECK(f.left() == 0, "%zu bytes are left after loading", f.left()); l.free(); }
        t.free(); return;
    }
    std::string d = g; size_t ob = hs, mb = hs+sizeof(O); bool must = true;
    auto put_ = [&](size_t at, unsigned long long v, size_t old) { O b = (O)v; memcpy(&d[at], &b, sizeof(O)); must = (size_t)b > old && m > 0; };
    switch (c.a(5)) {
        case 0: d.resize(d.size() - 1 - c.a(6)%8); break;
        case 1: d.resize(c.a(6) % d.size()); break;
        case 2: d[c.a(6)%13] ^= 1; break;
        case 3: d[13] ^= 1 << c.a(6)%8; break;
        case 4: d[14] ^= 1 << c.a(6)%8; break;
        case 5: put_(mb, m + 1 + c.a(6)%3, m); break;
        case 6: put_(mb, 0ULL - 1 - c.a(6)%5, m); break;
        case 7: put_(mb, 1ULL << (c.a(6)%(8*sizeof(O))), m); break;
        case 8: put_(ob, 1ULL << (c.a(6)%(8*sizeof(O))), od); break;
        case 9: put_(ob, 0ULL - 1 - c.a(6)%5, od); break;
        default: if (wgt) d[15] ^= 1 << c.a(6)%8; else put_(ob, od+1, od); break;
    }
    if (d.empty()) d = "P";
    put(fn, d);
    bool refused = throws_error([&]{ T l {fn, PIGO_TENSOR_BIN}; l.free(); });
    CHECK(refused || !must, "a damaged file is accepted (kind %lld)", c.a(5));
    t.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,true,float,float*>(c); break;
        case 1: t<U,U,std::vector<U>,true,double,std::vector<double>>(c); break;
        case 2: t<u,U,u*,false,float,float*>(c); break;
        case 3: t<uint16_t,u,std::shared_ptr<uint16_t>,true,int8_t,std::shared_ptr<int8_t>>(c); break;
        case 4: t<U,u,U*,true,u,u*>(c); break;
    }
}
