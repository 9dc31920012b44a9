#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = "csr";
    bool big = r.chance(3);
    c.p = {k < 30 ? k%10+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, k < 30 ? k/6 : big ? r.in(1, 3000) : r.in(0, 30), k < 30 ? k%6 : big ? r.in(1000, 60000) : r.in(0, 60), r.in(0, 1<<30), r.in(0, 3)};
    if (c.p[3] == 0) c.p[4] = 0;
    return true;
}
template<class L, class O, class S, bool wgt, class W, class WS, class CL, class CO, class CLS, class COS, class CW, class CWS> void t(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3), m = c.a(4);
    // labels can be as large as the label count allows
    Mem<L,O,S,false,false,false,wgt,W,WS> M(r, n, m, n, n);
    if (c.a(6) == 1 && n && m) { for (size_t i = 0; i < m; ++i) { M.x[i] = (L)(n-1); detail::set_value_(M.c.x(), i, M.x[i]); } }
    typedef CSR<CL,CO,CLS,COS,wgt,CW,CWS> C;
    if (n) { M.c.set_nrows((L)(n - (c.a(6) == 2))); M.c.set_ncols((L)n); }
    C s {M.c};
    CHECK((size_t)s.n() == n && (size_t)s.m() == m && (size_t)s.nrows() == (size_t)M.c.nrows() && (size_t)s.ncols() == (size_t)M.c.ncols(), "the dimensions differ");
    std::vector<std::vector<std::pair<CL,CW>>> rows(n);
    for (size_t i = 0; i < m; ++i) rows[M.x[i]].push_back({(CL)M.y[i], wgt ? (CW)M.w[i] : CW()});
    size_t p = 0;
    for (size_t v = 0; v < n; ++v) {
        CO a = detail::get_value_<COS,CO>(s.offsets(), v), b = detail::get_value_<COS,CO>(s.offsets(), v+1);
        CHECK((size_t)a == p, "offset %zu is %zu, expected %zu", v, (size_t)a, p);
        CHECK(b >= a && (size_t)(b-a) == rows[v].size(), "row %zu has degree %zd, expected %zu", v, (ssize_t)b-(ssize_t)a, rows[v].size());
        std::vector<std::pair<CL,CW>> got;
        for (size_t i = a; i < (size_t)b; ++i) got.push_back({detail::get_value_<CLS,CL>(s.endpoints(), i), wgt ? Wt<wgt,CW,CWS>::get(s.weights(), i) : CW()});
        CHECK(srt(got) == srt(rows[v]), "row %zu does not hold its entries", v);
        p += rows[v].size();
    }
    CO last = detail::get_value_<COS,CO>(s.offsets(), n); CHECK((size_t)last == m, "the last offset is %zu", (size_t)last);
    for (size_t i = 0; i < m; ++i) { L x = detail::get_value_<S,L>(M.c.x(), i), y = detail::get_value_<S,L>(M.c.y(), i); CHECK(x == M.x[i] && y == M.y[i], "the COO changed"); }
    s.free(); M.c.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,false,float,float*,u,u,u*,u*,float,float*>(c); break;
        case 1: t<u,u,u*,true,float,float*,u,u,u*,u*,float,float*>(c); break;
        case 2: t<U,U,std::vector<U>,true,int,std::vector<int>,U,U,std::vector<U>,std::vector<U>,int,std::vector<int>>(c); break;
        case 3: t<u,u,u*,true,int,int*,U,U,U*,std::shared_ptr<U>,double,double*>(c); break;
        case 4: t<uint16_t,u,std::shared_ptr<uint16_t>,false,float,float*,u,U,std::shared_ptr<u>,U*,float,float*>(c); break;
    }
}
