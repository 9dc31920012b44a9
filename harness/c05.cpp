#include "el.hpp"
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fx = {"1", "1\n", "1 2", "%", "1 %", "1 2 3", "1\n2\n3\n", "5\n6 7\n", "1 2\n3", "1 2\n3\n", "x", "\n", "1 2\n3 ", "1 %\n2", "1%2\n3 4\n", "1 2 -", "1 2 e", "1 2 1e", "1 2 .", "1 2 -\n3 4 +", "-1 -2\n", "1 2 %\n", "\xff\xff 1 2", "1 2\n%3 4", "1 2\n#", "9\n9\n9\n9", "1 1 1 1\n1 1 1 1", "1 2 --5", "1 2 1e9e9e9", "1 4294967297\n3 4", "4294967297 1 5\n2 4294967298 6\n", "65537 1\n1 65537\n", "257 1\n1 257"};
    static const std::string A = "0123456789", B = " \t\r\n\n\n  %#+-.eE,x";
    int ty = idx % 11; long k = idx / 11; c.op = "load";
    if (k < (long)fx.size()*6) { c.data = fx[k/6]; c.p = {k%6+1, 0, ty}; return true; }
    if (k == (long)fx.size()*6) { c.data = "1 2 1" + std::string(200000, 'e') + "\n3 4 5"; c.p = {2, 0, ty}; return true; }   // a long run of exponents
    long n = r.chance(90) ? r.in(1, 50) : r.in(1, 400); int bias = r.in(0, 3), digits = r.in(2, 10);
    if (r.chance(ty > 8 ? 60 : 30)) { El e = mk_el(r, r.chance(ty > 8 ? 20 : 50) ? 60000 : 0xfffffffffffffffeULL, r.in(0, 3), r.in(1, 6)); c.data = e.text.empty() ? "1" : e.text; int q = r.chance(50) ? 0 : r.in(0, 3); for (int i = 0; i < q; ++i) { size_t at = r.in(0, c.data.size()-1); if (r.chance(50) && c.data.size() > 1) c.data.erase(at, r.in(1, 3)); else c.data[at] = B[r.in(0, B.size()-1)]; if (c.data.empty()) c.data = "1"; } }
    else for (long i = 0; i < n; ++i) { if (bias == 3) c.data += (char)r.in(0, 255); else if (r.chance(30+15*bias)) c.data += B[r.in(0, B.size()-1)]; else c.data += A[r.in(0, digits-1)]; }
    c.p = {pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty};
    return true;
}
typedef uint32_t u;
template<class C, bool wgt> struct CW { static void op(C&, const std::string&) {} };
template<class C> struct CW<C, true> { static void op(C& c, const std::string& d) {
    for (size_t i = 0; i < (size_t)c.m(); ++i) { unsigned w; memcpy(&w, &c.w()[i], 4); CHECK(w != 0xababababu, "the weight of entry %zu was never written", i); } (void)d; } };
template<bool sym, bool ut, bool sl, bool wgt, class W, class L=u> void t(const std::string& fn, const std::string& d) {
    typedef COO<L,u,L*,sym,ut,sl,wgt,W,W*> C; const L none = (L)0xababababababababULL;
    C c {fn, EDGE_LIST};
    if (d.find("2880154539") == std::string::npos && d.find("12370169555311111083") == std::string::npos)
        for (size_t i = 0; i < (size_t)c.m(); ++i) CHECK(c.x()[i] != none && c.y()[i] != none, "entry %zu of %zu was allocated but never written", i, (size_t)c.m());
    CW<C, wgt>::op(c, d);
    c.free();
}
void exec(const Case& c) {
    std::string fn = fpath("g.el"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: t<false,false,false,false,float>(fn, c.data); break;
        case 1: t<true,false,false,false,float>(fn, c.data); break;
        case 2: t<false,true,false,true,float>(fn, c.data); break;
        case 3: t<false,false,true,true,int>(fn, c.data); break;
        case 4: t<false,false,false,true,float>(fn, c.data); break;
        case 5: t<true,true,false,true,unsigned>(fn, c.data); break;
        case 6: t<true,false,true,true,int>(fn, c.data); break;
        case 7: t<false,true,true,true,int>(fn, c.data); break;
        case 9: t<true,false,false,false,float,uint64_t>(fn, c.data); break;
        case 10: t<true,false,true,true,int,uint64_t>(fn, c.data); break;
        case 8: t<false,false,false,true,unsigned>(fn, c.data); break;
    }
}
