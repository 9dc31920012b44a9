#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = "sort";
    bool big = r.chance(4);
    c.p = {k < 30 ? k%10+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, k < 30 ? k/6 : big ? r.in(10000, 40000) : r.in(0, 30), big ? r.in(0, 4) : r.in(0, 40), r.in(0, 1<<30), r.chance(50) ? r.in(1, 6) : r.in(1, 4000000000LL)};
    if (ty == 3) { c.p[6] = std::min<long long>(c.p[6], 250); c.p[3] = c.p[3] % 251; }
    return true;
}
template<class L, class O, class LS, class OS, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3);
    MemC<L,O,LS,OS,wgt,W,WS> M(r, n, c.a(4), c.a(6));
    M.c.sort();
    CHECK((size_t)M.c.n() == n && (size_t)M.c.m() == M.m && (size_t)M.c.nrows() == n && M.c.ncols() == (L)c.a(6), "the dimensions changed");
    size_t p = 0;
    for (size_t v = 0; v < n; ++v) {
        O a = detail::get_value_<OS,O>(M.c.offsets(), v); CHECK((size_t)a == p, "offset %zu changed", v);
        std::vector<std::pair<L,W>> got;
        for (size_t i = 0; i < M.rows[v].size(); ++i, ++p) {
            L l = detail::get_value_<LS,L>(M.c.endpoints(), p);
            if (i) CHECK(got.back().first <= l, "row %zu is not sorted", v);
            got.push_back({l, wgt ? Wt<wgt,W,WS>::get(M.c.weights(), p) : W()});
        }
        auto e = M.rows[v]; if (!wgt) for (auto& q : e) q.second = W();
        CHECK(srt(got) == srt(e), "row %zu does not hold the entries it held", v);
    }
    O a = detail::get_value_<OS,O>(M.c.offsets(), n); CHECK((size_t)a == M.m, "the last offset changed");
    M.c.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,u*,false,float,float*>(c); break;
        case 1: t<u,u,u*,u*,true,float,float*>(c); break;
        case 2: t<U,U,std::vector<U>,std::vector<U>,true,int,std::vector<int>>(c); break;
        case 3: t<uint8_t,u,uint8_t*,u*,false,float,float*>(c); break;
        case 4: t<u,U,std::shared_ptr<u>,std::shared_ptr<U>,true,int8_t,std::shared_ptr<int8_t>>(c); break;
    }
}
