#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 8; long k = idx/8; c.op = "coo";
    bool big = r.chance(3);
    c.p = {k < 30 ? k%10+1 : pick_threads(r), r.chance(20) ? r.in(1, 1<<30) : 0, ty, k < 30 ? k/6 : big ? r.in(1000, 30000) : r.in(0, 30), r.in(0, 5), r.in(0, 1<<30), r.in(1, 40)};
    return true;
}
template<class CL, class CO, class CLS, class COS, class CW, class CWS, class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS> void t(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3);
    MemC<CL,CO,CLS,COS,wgt,CW,CWS> M(r, n, c.a(4), c.a(6));
    size_t labs = c.a(6);
    typedef COO<L,O,S,sym,ut,sl,wgt,W,WS> C;
    bool unsupported = (ut && !sym) || sl;
    bool refused = false;
    size_t before = 0; (void)before;
    try {
        C o {M.c};
        CHECK(!unsupported, "an unsupported combination is accepted");
        size_t em = M.m * (sym && !ut ? 2 : 1);
        CHECK((size_t)o.m() == em, "%zu entries, expected %zu", (size_t)o.m(), em);
        CHECK((size_t)o.n() == n, "n is %zu, expected %zu", (size_t)o.n(), n);
        size_t er = sym ? std::max(n, labs) : n, ec = sym ? std::max(n, labs) : labs;
        CHECK((size_t)o.nrows() == er && (size_t)o.ncols() == ec, "the row and column counts are (%zu, %zu), expected (%zu, %zu)", (size_t)o.nrows(), (size_t)o.ncols(), er, ec);
        size_t p = 0;
        auto at = [&](size_t i, L& x, L& y, W& w) { x = detail::get_value_<S,L>(o.x(), i); y = detail::get_value_<S,L>(o.y(), i); w = wgt ? Wt<wgt,W,WS>::get(o.w(), i) : W(); };
        for (size_t v = 0; v < n; ++v) for (auto& e : M.rows[v]) {
            L x, y; W w; at(p, x, y, w);
            L ex = (L)v, ey = (L)e.first; W ew = wgt ? (W)e.second : W();
            if (sym && ut) { if (ex > ey) std::swap(ex, ey); }
            if (sym && !ut) {
                L x2, y2; W w2; at(p+1, x2, y2, w2);
                CHECK(((x == ex && y == ey && x2 == ey && y2 == ex) || (x == ey && y == ex && x2 == ex && y2 == ey)), "entry (%llu, %llu) and its mirror are not at %zu", (unsigned long long)ex, (unsigned long long)ey, p);
                CHECK(w == ew && w2 == ew, "the weight of entry %zu or its mirror differs", p);
                p += 2;
            } else {
                CHECK(x == ex && y == ey, "entry %zu is (%llu, %llu), expected (%llu, %llu)", p, (unsigned long long)x, (unsigned long long)y, (unsigned long long)ex, (unsigned long long)ey);
                CHECK(w == ew, "weight %zu differs", p);
                ++p;
            }
        }
        o.free();
    } catch (const pigo::Error&) { refused = true; }
    CHECK(refused == unsupported, "a supported combination is refused");
    M.c.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: t<u,u,u*,u*,float,float*, u,u,u*,false,false,false,false,float,float*>(c); break;
        case 1: t<u,u,u*,u*,float,float*, u,u,u*,false,false,false,true,float,float*>(c); break;
        case 2: t<u,u,u*,u*,float,float*, u,u,u*,true,false,false,true,float,float*>(c); break;
        case 3: t<U,U,std::vector<U>,std::vector<U>,int,std::vector<int>, U,U,std::vector<U>,true,true,false,true,int,std::vector<int>>(c); break;
        case 4: t<u,u,u*,u*,float,float*, u,u,u*,true,false,false,false,float,float*>(c); break;
        case 5: t<u,u,u*,u*,float,float*, u,u,u*,false,true,false,false,float,float*>(c); break;
        case 6: t<u,u,u*,u*,float,float*, u,u,u*,false,false,true,false,float,float*>(c); break;
        case 7: t<uint16_t,u,std::shared_ptr<uint16_t>,std::shared_ptr<u>,int,int*, U,U,std::shared_ptr<U>,true,false,false,true,int,int*>(c); break;
    }
}
