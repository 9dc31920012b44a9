#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    if (idx % 64 == 40) { c.op = "tensor"; c.p = {pick_threads(r), 0, 8, r.in(16000, 60000), r.in(0, 1<<30), r.in(0, 3), r.in(1, 3)}; return true; }
    int ty = idx % 8; long k = idx/8; c.op = ty < 5 ? "coo" : "tensor";
    c.p = {k < 20 ? k%8+1 : pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty, k < 20 ? k/2 : r.chance(97) ? r.in(0, 40) : r.in(100, 5000), r.in(0, 1<<30), r.in(0, 4), r.in(0, 30)};
    return true;
}
template<class L, class O, class S, bool wgt, class W, class WS> void tc(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3);
    typedef Mem<L,O,S,false,false,false,wgt,W,WS> MM; typedef typename MM::C C;
    MM M(r, 7, m, 5, 6, true);
    auto eq = [&](C& l, const char* w) {
        CHECK((size_t)l.m() == m && l.n() == (L)7 && l.nrows() == (L)5 && l.ncols() == (L)6, "the dimensions of %s differ", w);
        for (size_t i = 0; i < m; ++i) {
            L x = detail::get_value_<S,L>(l.x(), i), y = detail::get_value_<S,L>(l.y(), i);
            CHECK(x == M.x[i] && y == M.y[i], "entry %zu of %s differs", i, w);
            bool wok = !wgt || same(Wt<wgt,W,WS>::get(l.w(), i), M.w[i]); CHECK(wok, "weight %zu of %s differs", i, w);
        }
    };
    auto spoil = [&](C& l) { for (size_t i = 0; i < m; ++i) { detail::set_value_(l.x(), i, (L)(M.x[i]+1)); detail::set_value_(l.y(), i, (L)(M.y[i]+1)); Wt<wgt,W,WS>::set(l.w(), i, (W)(M.w[i]+1)); } };
    if (c.a(5) < 2) {
        C cp(M.c); eq(cp, "the copy"); eq(M.c, "the source"); spoil(cp); eq(M.c, "the source after its copy changed");
        C c2(M.c); spoil(M.c); eq(c2, "the copy after its source changed"); cp.free(); c2.free();
    } else if (c.a(5) < 4) {
        MM T(r, 3, c.a(6), 2, 2); C& t = T.c;
        t = M.c; eq(t, "the assigned copy"); eq(M.c, "the source"); spoil(t); eq(M.c, "the source after its copy changed");
        t = M.c; eq(t, "the copy assigned again"); spoil(M.c); eq(t, "the copy after its source changed"); t.free();
    } else { C& self = M.c; M.c = self; eq(M.c, "the self-assigned one"); }
    M.c.free();
}
template<class L, class O, class S, bool wgt, class W, class WS> void tt(const Case& c) {
    Rng r(c.a(4)); size_t m = c.a(3), od = 1 + c.a(6) % 4;
    typedef Tensor<L,O,S,W,WS,wgt> T;
    T s((O)od, (O)m); std::vector<L> co(m*od); std::vector<W> w(m);
    for (size_t i = 0; i < m*od; ++i) { co[i] = (L)r.u(); detail::set_value_(s.c(), i, co[i]); }
    for (size_t i = 0; i < m; ++i) { w[i] = rw<W>(r); Wt<wgt,W,WS>::set(s.w(), i, w[i]); }
    auto eq = [&](T& l, const char* n) {
        CHECK((size_t)l.m() == m && (size_t)l.order() == od, "the dimensions of %s differ", n);
        for (size_t i = 0; i < m*od; ++i) { L x = detail::get_value_<S,L>(l.c(), i); CHECK(x == co[i], "coordinate %zu of %s differs", i, n); }
        for (size_t i = 0; i < m; ++i) { bool wok = !wgt || same(Wt<wgt,W,WS>::get(l.w(), i), w[i]); CHECK(wok, "weight %zu of %s differs", i, n); }
    };
    auto spoil = [&](T& l) { for (size_t i = 0; i < m*od; ++i) detail::set_value_(l.c(), i, (L)(co[i]+1)); for (size_t i = 0; i < m; ++i) Wt<wgt,W,WS>::set(l.w(), i, (W)(w[i]+1)); };
    if (c.a(5) < 2) {
        T cp(s); eq(cp, "the copy"); eq(s, "the source"); spoil(cp); eq(s, "the source after its copy changed");
        T c2(s); spoil(s); eq(c2, "the copy after its source changed"); cp.free(); c2.free();
    } else if (c.a(5) < 4) {
        T t((O)2, (O)c.a(6));
        t = s; eq(t, "the assigned copy"); eq(s, "the source"); spoil(t); eq(s, "the source after its copy changed");
        t = s; eq(t, "the copy assigned again"); spoil(s); eq(t, "the copy after its source changed"); t.free();
    } else { T& self = s; s = self; eq(s, "the self-assigned one"); }
    s.free();
}
typedef uint32_t u; typedef uint64_t U;
static void go(const Case& c) {
    switch (c.a(2)) {
        case 0: tc<u,u,u*,false,float,float*>(c); break;
        case 1: tc<u,u,u*,true,float,float*>(c); break;
        case 2: tc<U,U,std::vector<U>,true,double,std::vector<double>>(c); break;
        case 3: tc<u,U,std::shared_ptr<u>,true,int8_t,std::shared_ptr<int8_t>>(c); break;
        case 4: tc<U,u,U*,true,float,std::vector<float>>(c); break;
        case 5: tt<u,u,u*,true,float,float*>(c); break;
        case 6: tt<U,U,std::vector<U>,false,float,std::vector<float>>(c); break;
        case 8: tt<u,uint16_t,u*,false,float,float*>(c); break;      // more coordinates than the ordinal type can count
        case 7: tt<u,U,std::shared_ptr<u>,true,double,double*>(c); break;
    }
}
void exec(const Case& c) {
    // the storage that was held must be released: growth has to persist
    size_t grown = 0;
    for (int k = 0; k < 4; ++k) {
        size_t before = __sanitizer_get_current_allocated_bytes(); go(c); size_t after = __sanitizer_get_current_allocated_bytes();
        if (after <= before) { grown = 0; break; }
        grown = after-before;
    }
    // an empty raw allocation is a block of no bytes
    CHECK(grown == 0 || c.a(3) == 0 || c.a(6) == 0, "%zu bytes are not released", grown);
}
