#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; long k = idx/5; c.op = "dedupe";
    bool big = r.chance(4);
    c.p = {k < 30 ? k%10+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, k < 30 ? k/6 : big ? r.in(10000, 40000) : r.in(0, 30), big ? r.in(0, 4) : r.in(0, 40), r.in(0, 1<<30), r.chance(70) ? r.in(1, 6) : r.in(1, 200)};
    return true;
}
template<class L, class O, class LS, class OS, bool wgt, class W, class WS, class NL, class NO, class NLS, class NOS, bool nw, class NW, class NWS> void t(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3);
    MemC<L,O,LS,OS,wgt,W,WS> M(r, n, c.a(4), c.a(6));
    auto d = M.c.template new_csr_without_dups<NL,NO,NLS,NOS,nw,NW,NWS>();
    CHECK((size_t)d.n() == n && (size_t)d.nrows() == n && (size_t)d.ncols() == (size_t)c.a(6), "the counts changed");
    size_t p = 0;
    for (size_t v = 0; v < n; ++v) {
        auto e = srt(M.rows[v]);
        std::vector<std::pair<L,W>> u;
        for (auto& q : e) if (u.empty() || u.back().first != q.first) u.push_back(q);
        NO a = detail::get_value_<NOS,NO>(d.offsets(), v); CHECK((size_t)a == p, "offset %zu is %zu, expected %zu", v, (size_t)a, p);
        NO b = detail::get_value_<NOS,NO>(d.offsets(), v+1); CHECK((size_t)b == p+u.size(), "row %zu has another number of endpoints", v);
        for (auto& q : u) {
            NL l = detail::get_value_<NLS,NL>(d.endpoints(), p); CHECK(l == (NL)q.first, "endpoint %zu of row %zu is %llu, expected %llu", p, v, (unsigned long long)l, (unsigned long long)q.first);
            bool wok = !nw || Wt<nw,NW,NWS>::get(d.weights(), p) == (NW)q.second; CHECK(wok, "the weight of endpoint %zu differs", p);
            ++p;
        }
    }
    CHECK((size_t)d.m() == p, "m is %zu, expected %zu", (size_t)d.m(), p);
    NO a = detail::get_value_<NOS,NO>(d.offsets(), n); CHECK((size_t)a == p, "the last offset is %zu, expected %zu", (size_t)a, p);
    M.c.free(); d.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,u*,false,float,float*, u,u,u*,u*,false,float,float*>(c); break;
        case 1: t<u,u,u*,u*,true,int,int*, u,u,u*,u*,true,int,int*>(c); break;
        case 2: t<U,U,std::vector<U>,std::vector<U>,true,int,std::vector<int>, U,U,std::vector<U>,std::vector<U>,true,int,std::vector<int>>(c); break;
        case 3: t<u,u,u*,u*,true,int,int*, U,U,U*,std::shared_ptr<U>,true,double,double*>(c); break;
        case 4: t<U,U,U*,U*,false,float,float*, uint16_t,u,std::shared_ptr<uint16_t>,u*,false,float,float*>(c); break;
    }
}
