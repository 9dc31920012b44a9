#include "el.hpp"
// well-formed: every data line has the same number of coordinates and, if weighted, a number at its end
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 6; long k = idx/6; 
    static const int WKI[] = {3, 0, 3, 1, 2, 0};
    int wk = WKI[ty];
    bool wild = k >= 40 && r.chance(25), big = r.chance(1);
    long lines = k < 40 ? 1 + k%6 : big ? r.in(1000, 8000) : r.in(1, 20); int od = k < 40 ? 1 + k/6%4 : r.in(1, 6), style = big ? 0 : r.in(0, 4);
    std::string nl = r.chance(20) ? "\r\n" : "\n", t;
    for (long i = 0; i < lines; ++i) {
        if (style >= 1) { int q = r.in(0, 30); if (q < 3) t += rcomment(r) + "\n"; else if (q < 5) t += std::string(r.in(0, 2), ' ') + nl; }
        if (style >= 2 && r.chance(10)) t += " ";
        for (int j = 0; j < od; ++j) t += (j ? (style >= 3 && r.chance(20) ? "  " : style >= 3 && r.chance(10) ? "\t" : " ") : "") + std::to_string(r.chance(80) ? r.in(0, 20) : r.in(0, ty == 5 ? 60000 : 4000000000LL));
        static const std::vector<std::string> fx = {"0","1","-1","0.5","-2.25","1e2","-1.5e-2","1E1","12.75","100","-0.125","2e0","1e-3","7.0","2.5e+1"};
        if (wk == 3) t += " " + r.pick(fx); else if (wk == 1) t += " " + std::to_string(r.in(-90, 90)); else if (wk == 2) t += " " + std::to_string(r.in(0, 999));
        if (style >= 3 && r.chance(10)) t += " ";
        if (style >= 4 && r.chance(10)) t += " " + rcomment(r);
        t += nl;
    }
    if (wk == 1 && t.find(" -") < t.find('\n')) { } 
    if (style >= 1 && r.chance(20)) t += rcomment(r) + "\n";
    if (r.chance(35)) while (t.size() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    if (wild) {
        static const std::string B = " \t\r\n\n\n%#+-.eE,x0123456789";
        int q = r.in(1, 4);
        for (int i = 0; i < q && t.size(); ++i) { size_t at = r.in(0, t.size()-1); if (r.chance(50)) t.erase(at, r.in(1, 4)); else t[at] = r.chance(10) ? (char)r.u() : B[r.in(0, B.size()-1)]; }
        if (r.chance(20)) { t.clear(); long n = r.in(1, 40); for (long i = 0; i < n; ++i) t += B[r.in(0, B.size()-1)]; }
    }
    if (t.empty()) t = "1";
    c.op = wild ? "wild" : "load"; c.data = t;
    c.p = {k < 40 ? k%8+1 : pick_threads(r), r.chance(15) ? r.in(1, 1<<30) : 0, ty, od};
    return true;
}
template<class T, class W, class WS, bool wgt> struct WG { static bool ok(T& t, size_t i, const Ent& e) { return weq<W>(detail::get_value_<WS, W>(t.w(), i), e); } };
template<class T, class W, class WS> struct WG<T, W, WS, false> { static bool ok(T&, size_t, const Ent&) { return true; } };
template<class L, class O, class S, bool wgt, class W, class WS> void t(const Case& c, const std::string& fn) {
    typedef Tensor<L,O,S,W,WS,wgt> T;
    T x {fn, EDGE_LIST};
    if (c.op == "wild") {
        if (std::is_pointer<S>::value && sizeof(L) == 4 && c.data.find("2880154539") == std::string::npos) {
            for (size_t i = 0; i < (size_t)x.m()*(size_t)x.order(); ++i) { L v = detail::get_value_<S,L>(x.c(), i); CHECK((uint32_t)v != 0xababababu, "coordinate %zu was allocated but never written", i); }
        }
        x.free(); return;
    }
    size_t od = c.a(3), p = 0, n = 0; const std::string& s = c.data;
    // parse
    std::vector<std::vector<unsigned long long>> co; std::vector<Ent> ws;
    while (p < s.size()) {
        size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size();
        std::string l = s.substr(p, q-p); p = q+1; size_t cp = l.find_first_of("%#"); if (cp != std::string::npos) l = l.substr(0, cp);
        std::istringstream is(l); std::vector<unsigned long long> v; unsigned long long u; 
        for (size_t i = 0; i < od && (is >> u); ++i) v.push_back(u);
        if (v.empty()) continue;
        if (v.size() != od) fail("harness: malformed");
        Ent e; e.hasw = (bool)(is >> e.w); co.push_back(v); ws.push_back(e); ++n;
    }
    CHECK((size_t)x.m() == n, "%zu entries are stored, %zu are expected", (size_t)x.m(), n);
    if (n) CHECK((size_t)x.order() == od, "the order is %zu, expected %zu", (size_t)x.order(), od);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < od; ++j) { L v = detail::get_value_<S,L>(x.c(), i*od+j); CHECK(v == (L)co[i][j], "coordinate %zu of entry %zu is %llu, expected %llu", j, i, (unsigned long long)v, co[i][j]); }
        bool wok = WG<T,W,WS,wgt>::ok(x, i, ws[i]); CHECK(wok, "the weight of entry %zu is not its line's '%s'", i, ws[i].w.c_str());
    }
    x.free();
}
typedef uint32_t u; typedef uint64_t U;
void exec(const Case& c) {
    std::string fn = fpath("t.tns"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: t<u,u,u*,true,float,float*>(c, fn); break;
        case 1: t<u,u,u*,false,float,float*>(c, fn); break;
        case 2: t<U,U,std::vector<U>,true,double,std::vector<double>>(c, fn); break;
        case 3: t<u,u,u*,true,int,int*>(c, fn); break;
        case 4: t<u,U,std::shared_ptr<u>,true,unsigned,std::shared_ptr<unsigned>>(c, fn); break;
        case 5: t<uint16_t,U,uint16_t*,false,float,float*>(c, fn); break;
    }
}
