// COOs, CSRs and tensors built in memory from a case's seed
#include "h.hpp"
using namespace pigo;
template<class W> static W rw(Rng& r) { return std::is_floating_point<W>::value ? (W)(r.in(-400, 400)/(W)4) : (W)r.u(); }
template<bool w, class W, class WS> struct Wt {
    static void set(WS& s, size_t i, W v) { detail::set_value_(s, i, v); }
    static W get(WS& s, size_t i) { return detail::get_value_<WS, W>(s, i); }
};
template<class W, class WS> struct Wt<false, W, WS> { static void set(WS&, size_t, W) {} static W get(WS&, size_t) { return W(); } };
template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
struct Mem {
    typedef COO<L,O,S,sym,ut,sl,wgt,W,WS> C;
    C c; std::vector<L> x, y; std::vector<W> w;
    Mem(Rng& r, size_t n, size_t m, size_t nr, size_t nc, bool wide=false) : c((L)n, (L)nr, (L)nc, (O)m), x(m), y(m), w(m) {
        size_t band = n ? r.in(1, n) : 1;
        for (size_t i = 0; i < m; ++i) {
            x[i] = wide ? (L)(r.u() >> r.in(0, 63)) : (L)(nr ? r.in(0, nr-1) % band : 0);
            y[i] = wide ? (L)(r.u() >> r.in(0, 63)) : (L)(nc ? r.in(0, nc-1) : 0);
            w[i] = rw<W>(r);
            detail::set_value_(c.x(), i, x[i]); detail::set_value_(c.y(), i, y[i]);
            Wt<wgt,W,WS>::set(c.w(), i, w[i]);
        }
    }
};
template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
struct MemC {
    typedef CSR<L,O,LS,OS,wgt,W,WS> C;
    C c; std::vector<std::vector<std::pair<L,W>>> rows; size_t m;
    static std::vector<std::vector<std::pair<L,W>>> mk(Rng& r, size_t n, size_t maxdeg, size_t labs, size_t& m) {
        std::vector<std::vector<std::pair<L,W>>> v(n); m = 0;
        int empties = r.in(0, 80);
        for (size_t i = 0; i < n; ++i) {
            size_t d = r.chance(empties) ? 0 : r.in(0, maxdeg);
            for (size_t k = 0; k < d; ++k) v[i].push_back({(L)r.in(0, labs-1), rw<W>(r)});
            m += d;
        }
        return v;
    }
    MemC(Rng& r, size_t n, size_t maxdeg, size_t labs) : rows(mk(r, n, maxdeg, labs, m)) { fill(n, labs); }
    void fill(size_t n, size_t labs) {
        c = C((L)n, (O)m, (L)n, (L)labs);
        size_t p = 0;
        for (size_t i = 0; i < n; ++i) {
            detail::set_value_(c.offsets(), i, (O)p);
            for (auto& e : rows[i]) { detail::set_value_(c.endpoints(), p, e.first); Wt<wgt,W,WS>::set(c.weights(), p, e.second); ++p; }
        }
        detail::set_value_(c.offsets(), n, (O)p);
    }
};
template<class W> static bool same(W a, W b) { return memcmp(&a, &b, sizeof(W)) == 0; }
template<class A, class B> static std::vector<std::pair<A,B>> srt(std::vector<std::pair<A,B>> v) { std::sort(v.begin(), v.end()); return v; }
