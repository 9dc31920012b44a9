#include "mem.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 6; long k = idx/6; c.op = "di";
    c.p = {k < 20 ? k%8+1 : pick_threads(r), r.chance(15) ? r.in(1, 1<<30) : 0, ty, k < 40 ? 1 + k%4 : r.chance(30) ? r.in(1, 4) : r.in(1, 30), k < 40 ? k/4 : r.chance(30) ? r.in(0, 4) : r.chance(97) ? r.in(0, 80) : r.in(1000, 20000), r.in(0, 1<<30), r.in(0, 2)};
    return true;
}
template<class M, class G, class L, class O, class LS, class OS, bool wgt, class W, class WS>
static void side(G& g, size_t n, size_t m, const std::vector<std::vector<std::pair<L,W>>>& rows, const char* what) {
    CHECK((size_t)g.n() == n && (size_t)g.m() == m, "the %s side has n=%zu m=%zu, expected %zu, %zu", what, (size_t)g.n(), (size_t)g.m(), n, m);
    size_t p = 0;
    for (size_t v = 0; v < n; ++v) {
        O a = detail::get_value_<OS,O>(g.offsets(), v), b = detail::get_value_<OS,O>(g.offsets(), v+1);
        CHECK((size_t)a == p && (size_t)b == p + rows[v].size(), "row %zu of the %s side is [%zu, %zu), expected [%zu, %zu)", v, what, (size_t)a, (size_t)b, p, p+rows[v].size());
        std::vector<std::pair<L,W>> got;
        for (size_t i = a; i < (size_t)b; ++i) got.push_back({detail::get_value_<LS,L>(g.endpoints(), i), wgt ? Wt<wgt,W,WS>::get(g.weights(), i) : W()});
        CHECK(srt(got) == srt(rows[v]), "row %zu of the %s side does not hold its entries", v, what);
        p += rows[v].size();
    }
}
template<class L, class O, class LS, class OS, bool wgt, class W, class WS> void di(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3), m = c.a(4);
    typedef Mem<L,O,LS,false,false,false,wgt,W,WS> MM;
    MM M(r, n, m, n, n);
    std::vector<std::vector<std::pair<L,W>>> out(n), in(n);
    for (size_t i = 0; i < m; ++i) { W w = wgt ? M.w[i] : W(); out[M.x[i]].push_back({M.y[i], w}); in[M.y[i]].push_back({M.x[i], w}); }
    typedef DiGraph<L,O,LS,OS,wgt,W,WS> D; typedef BaseGraph<L,O,LS,OS,wgt,W,WS> B;
    auto chk = [&](D& d) {
        side<D,B,L,O,LS,OS,wgt,W,WS>(d.out(), n, m, out, "out"); side<D,B,L,O,LS,OS,wgt,W,WS>(d.in(), n, m, in, "in");
        CHECK((size_t)d.n() == n && (size_t)d.m() == m, "n or m of the digraph");
        for (int s = 0; s < 2; ++s) {
            B& b = s ? d.out() : d.in(); auto& rows = s ? out : in; size_t p = 0;
            for (size_t v = 0; v < n; ++v) {
                CHECK((size_t)b.neighbor_start(v) == p && (size_t)b.neighbor_end(v) == p+rows[v].size() && (size_t)b.degree(v) == rows[v].size(), "the neighbour range of vertex %zu is wrong", v);
                p += rows[v].size();
            }
        }
    };
    D d {M.c}; chk(d);
    for (size_t i = 0; i < m; ++i) { L x = detail::get_value_<LS,L>(M.c.x(), i), y = detail::get_value_<LS,L>(M.c.y(), i); CHECK(x == M.x[i] && y == M.y[i], "the source COO changed at entry %zu", i); }
    CHECK((size_t)M.c.m() == m && (size_t)M.c.n() == n, "the source COO changed");
    if (c.a(6)) {
        std::string fn = fpath("d.bin"); d.save(fn);
        D l {fn}; chk(l);
        for (int s = 0; s < 2; ++s) { B& a = s ? d.out() : d.in(); B& b = s ? l.out() : l.in(); for (size_t i = 0; i < m; ++i) { L p = detail::get_value_<LS,L>(a.endpoints(), i), q = detail::get_value_<LS,L>(b.endpoints(), i); CHECK(p == q, "endpoint %zu differs after a round trip", i); }
          CHECK(a.nrows() == b.nrows() && a.ncols() == b.ncols(), "counts differ after a round trip"); }
        l.free();
        if (m) { std::string fe = fpath("d.el"); { M.c.write(fe); } if (!wgt || std::is_integral<W>::value) {
            COO<L,O,LS,false,false,false,wgt,W,WS> q {fe}; size_t nn = q.n(); q.free();
            D e {fe}; auto o2 = out, i2 = in; o2.resize(nn); i2.resize(nn);
            side<D,B,L,O,LS,OS,wgt,W,WS>(e.out(), nn, m, o2, "loaded out"); side<D,B,L,O,LS,OS,wgt,W,WS>(e.in(), nn, m, i2, "loaded in"); e.free(); } }
    }
    d.free(); M.c.free();
}
template<class L, class O, class LS, class OS, bool wgt, class W, class WS> void mat(const Case& c) {
    Rng r(c.a(5)); size_t n = c.a(3), m = c.a(4);
    typedef Mem<L,O,LS,false,false,false,wgt,W,WS> MM;
    MM M(r, n, m, n, n);
    std::vector<std::vector<std::pair<L,W>>> out(n), in(n);
    for (size_t i = 0; i < m; ++i) { W w = wgt ? M.w[i] : W(); out[M.x[i]].push_back({M.y[i], w}); in[M.y[i]].push_back({M.x[i], w}); }
    typedef Matrix<L,O,LS,OS,wgt,W,WS> D;
    D d {M.c};
    side<D,CSR<L,O,LS,OS,wgt,W,WS>,L,O,LS,OS,wgt,W,WS>(d.csr(), n, m, out, "row"); side<D,CSC<L,O,LS,OS,wgt,W,WS>,L,O,LS,OS,wgt,W,WS>(d.csc(), n, m, in, "column");
    CHECK((size_t)d.nrows() == n && (size_t)d.ncols() == n, "the matrix counts differ");
    for (size_t i = 0; i < m; ++i) { L x = detail::get_value_<LS,L>(M.c.x(), i), y = detail::get_value_<LS,L>(M.c.y(), i); CHECK(x == M.x[i] && y == M.y[i], "the source COO changed at entry %zu", i); }
    if (m && c.a(6)) { std::string fe = fpath("d.el"); M.c.write(fe); if (!wgt || std::is_integral<W>::value) {
        COO<L,O,LS,false,false,false,wgt,W,WS> q {fe}; size_t nn = q.n(); q.free();
        D e {fe}; out.resize(nn); in.resize(nn); side<D,CSR<L,O,LS,OS,wgt,W,WS>,L,O,LS,OS,wgt,W,WS>(e.csr(), nn, m, out, "loaded row"); side<D,CSC<L,O,LS,OS,wgt,W,WS>,L,O,LS,OS,wgt,W,WS>(e.csc(), nn, m, in, "loaded column"); e.free(); } }
    d.free(); M.c.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    switch (c.a(2)) {
        case 0: di<u,u,u*,u*,false,float,float*>(c); break;
        case 1: di<u,u,u*,u*,true,float,float*>(c); break;
        case 2: di<U,U,std::vector<U>,std::vector<U>,true,int,std::vector<int>>(c); break;
        case 3: mat<u,u,u*,u*,true,int,int*>(c); break;
        case 4: mat<U,U,U*,U*,false,float,float*>(c); break;
        case 5: di<u,U,std::shared_ptr<u>,std::shared_ptr<U>,true,int,std::shared_ptr<int>>(c); break;
    }
}
