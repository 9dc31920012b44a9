#include "el.hpp"
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 5; c.op = "mm";
    long k = idx/5; (void)k;
    El e = mk_el(r, r.chance(80) ? 9 : 60000, ty == 3 ? 3 : ty == 4 ? 1 : 0, r.in(1, 20));
    auto ents = parse_el(e.text, 0);
    bool sym = ty == 1 || ty == 2 || ty == 4;
    unsigned long long mr = 0, mc = 0; for (auto& x : ents) { mr = std::max(mr, x.x); mc = std::max(mc, x.y); }
    if (ty == 2) { mr = mc = 0; for (auto& x : ents) { mr = std::max(mr, std::min(x.x, x.y)); mc = std::max(mc, std::max(x.x, x.y)); } }
    (void)sym;
    long long hr = mr + (r.chance(60) ? r.in(0, 3) : r.in(-2, 2)), hc = mc + (r.chance(60) ? r.in(0, 3) : r.in(-2, 2)), hn = (long long)ents.size() + (r.chance(80) ? 0 : r.in(-2, 2));
    if (hr < 0) hr = 0; if (hc < 0) hc = 0; if (hn < 0) hn = 0;
    std::string b = "%%MatrixMarket matrix coordinate real general\n"; 
    int bad = r.in(0, 14);
    if (bad == 0) b = "%%MatrixMarket matrix array real general\n"; else if (bad == 1) b = ""; else if (bad == 2) b = "%%MatrixMarket matrix coordinat\n"; else if (bad == 3) b = "%MatrixMarket matrix coordinate\n"; else if (bad == 4) b = "%%MatrixMarket matrix coordinate\n";
    if (r.chance(30)) b += rcomment(r) + "\n";
    if (r.chance(15)) b += "\n";
    c.data = b + std::to_string(hr) + " " + std::to_string(hc) + " " + std::to_string(hn) + (r.chance(10) ? "  \r\n" : "\n") + e.text;
    c.p = {pick_threads(r), r.chance(10) ? r.in(1, 1<<30) : 0, ty, hr, hc, hn, (long long)e.text.size()};
    return true;
}
template<class L, class S, bool sym, bool ut, bool wgt, class W> void t(const Case& c, const std::string& fn) {
    typedef COO<L,L,S,sym,ut,false,wgt,W,W*> C;
    std::string body = c.data.substr(c.data.size()-c.a(6));
    auto ents = parse_el(body, wgt ? WK<W>::v : 0);
    auto exp = transform(ents, sym, ut, false);
    unsigned long long mr = 0, mc = 0, hr = c.a(3), hc = c.a(4), hn = c.a(5);
    for (auto& s : exp) { if (sym && !ut) { mr = std::max(mr, s.e->x); mc = std::max(mc, s.e->y); } else { mr = std::max(mr, s.x); mc = std::max(mc, s.y); } }
    bool banner = c.data.compare(0, 32, "%%MatrixMarket matrix coordinate") == 0;
    bool refuse = !banner || hr < mr || hc < mc || (!sym && hn != exp.size());
    bool may = sym && hn > 2*exp.size();
    size_t before = __sanitizer_get_current_allocated_bytes();
    bool refused = false;
    try {
        C x {fn, MATRIX_MARKET};
        CHECK(!refuse, "a file that contradicts its header (or has no banner) is accepted");
        CHECK((size_t)x.m() == exp.size(), "%zu entries, expected %zu", (size_t)x.m(), exp.size());
        for (size_t i = 0; i < exp.size(); ++i) {
            unsigned long long gx = detail::get_value_<S,L>(x.x(), i), gy = detail::get_value_<S,L>(x.y(), i);
            CHECK(gx == exp[i].x && gy == exp[i].y, "entry %zu differs", i);
            bool wok = GW<C,L,S,W,W*,wgt>::ok(x, i, *exp[i].e); CHECK(wok, "weight of entry %zu differs", i);
        }
        CHECK((unsigned long long)x.nrows() == hr+1 && (unsigned long long)x.ncols() == hc+1, "counts (%llu, %llu) are not the header's", (unsigned long long)x.nrows(), (unsigned long long)x.ncols());
        CHECK((unsigned long long)x.n() == std::max(hr, hc)+1, "n is %llu", (unsigned long long)x.n());
        x.free();
    } catch (const pigo::Error&) { refused = true; }
    CHECK(refuse || may || !refused, "a file that agrees with its header is refused");
    size_t after = __sanitizer_get_current_allocated_bytes();
    CHECK(after <= before, "%zd bytes are not released", (ssize_t)(after-before));
}
static void go(const Case& c, const std::string& fn) {
    switch (c.a(2)) {
        case 0: t<uint32_t,uint32_t*,false,false,false,float>(c, fn); break;
        case 1: t<uint32_t,uint32_t*,true,false,false,float>(c, fn); break;
        case 2: t<uint64_t,std::vector<uint64_t>,true,true,false,float>(c, fn); break;
        case 3: t<uint32_t,uint32_t*,false,false,true,double>(c, fn); break;
        case 4: t<uint64_t,uint64_t*,true,false,true,int>(c, fn); break;
    }
}
void exec(const Case& c) {
    std::string fn = fpath("g.mtx"); put(fn, c.data);
    static bool warm[64][8];
    if (!warm[c.a(0) & 63][c.a(2) & 7]) { try { go(c, fn); } catch (const std::string&) {} warm[c.a(0) & 63][c.a(2) & 7] = true; 
        #pragma omp parallel
        { volatile int x = 0; (void)x; } }
    // thread pools may be resized once
    try { go(c, fn); } catch (const std::string& m) { if (m.find("released") == std::string::npos) throw; try { go(c, fn); } catch (const std::string& m2) { if (m2.find("released") == std::string::npos) throw; go(c, fn); } }
}
