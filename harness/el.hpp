// Edge lists: generator of well-formed files with the expected entries
#include "h.hpp"
using namespace pigo;
struct Ent { unsigned long long x, y; std::string w; bool hasw; };
struct El { std::string text; std::vector<Ent> e; };
static std::string rcomment(Rng& r) {
    static const std::vector<std::string> cs = {"%", "#", "% 1 2 3", "# 9 9\t9", "%%", "#%", "% 12 7 %x", "#-5 1.5e3", "%abc"};
    return r.pick(cs);
}
// wkind: 0 unweighted, 1 signed int, 2 unsigned int, 3 floating point
inline El mk_el(Rng& r, unsigned long long maxlab, int wkind, long lines, bool big=false) {
    El o;
    static const std::vector<std::string> seps = {" ", " ", " ", "\t", "  ", ",", " , ", ";", " \t "};
    std::string nl = r.chance(20) ? "\r\n" : "\n";
    int style = r.in(0, 4);   // how dirty
    unsigned long long rng = r.chance(maxlab > 0xffffffffULL ? 50 : 70) ? std::min<unsigned long long>(maxlab, r.in(0, 12)) : maxlab;
    auto lab = [&]() -> std::string {
        unsigned long long v = rng == ~0ULL ? r.u() : r.u() % (rng+1);
        if (rng == maxlab && r.chance(50)) v >>= r.in(0, 63);
        if (rng == maxlab && r.chance(30)) {   // around the sizes of the machine types
            static const int bs[] = {7, 8, 15, 16, 31, 31, 31, 32, 63};
            unsigned long long w = (1ULL << bs[r.in(0, 8)]) + r.in(-1, 2); if (w <= maxlab) v = w;
        }
        std::string s = std::to_string(v);
        if (style >= 3 && r.chance(10)) s = "0" + s;
        return s;
    };
    for (long i = 0; i < lines; ++i) {
        if (!big && style >= 1) {
            int k = r.in(0, 40);
            if (k < 4) { o.text += rcomment(r) + nl; --i; continue; }
            if (k < 7) { o.text += std::string(r.in(0, 2), ' ') + nl; --i; continue; }
            if (k < 8) { o.text += "\n" + rcomment(r) + "\n\n" ; --i; continue; }
        }
        Ent e; std::string line;
        if (style >= 2 && r.chance(10)) line += std::string(r.in(1, 3), ' ');
        std::string sx = lab(), sy = r.chance(15) ? sx : lab();
        if (rng == maxlab && maxlab > 0xffffffffULL && r.chance(25)) {   // equal in the low half
            unsigned long long v = strtoull(sx.c_str(), 0, 10) ^ (1ULL << r.in(32, 62)); if (v <= maxlab) sy = std::to_string(v);
        }
        e.x = strtoull(sx.c_str(), 0, 10); e.y = strtoull(sy.c_str(), 0, 10);
        line += sx + (style >= 2 ? r.pick(seps) : " ") + sy;
        e.hasw = false;
        if (wkind) {
            if (r.chance(style >= 2 ? 90 : 100)) {
                e.hasw = true;
                if (wkind == 2) e.w = std::to_string(r.in(0, 200));
                else if (wkind == 1) e.w = (r.chance(40) ? "-" : (style >= 3 && r.chance(10) ? "+" : "")) + std::to_string(r.in(0, 127));
                else {
                    static const std::vector<std::string> fx = {"0","1","-1","0.5","-2.25","1e2","-1.5e-2","3.","1E1",".5","-.25","12.75","100","-0.125","2e0","1e-3","7.0"};
                    e.w = r.pick(fx);
                    if (style >= 3 && r.chance(10) && e.w[0] != '-') e.w = "+" + e.w;
                }
                line += " " + e.w;
            }
            if (style >= 2 && e.hasw && r.chance(15)) line += " " + std::to_string(r.in(0, 99));
        } else if (style >= 2 && r.chance(25)) line += " " + std::to_string(r.in(0, 99)) + (r.chance(30) ? " 1.5 x" : "");
        if (style >= 3 && r.chance(10)) line += " ";
        if (style >= 4 && (!wkind || e.hasw) && r.chance(15)) line += " " + rcomment(r);
        o.text += line + nl; o.e.push_back(e);
    }
    if (style >= 1 && r.chance(20)) o.text += rcomment(r) + nl;
    if (o.text.size() && r.chance(35)) { // no newline at the end of the file
        while (o.text.size() && (o.text.back()=='\n' || o.text.back()=='\r')) o.text.pop_back();
    }
    return o;
}
// the cases carry the text only; the oracle parses lines on its own
inline std::vector<Ent> parse_el(const std::string& s, int wkind) {
    std::vector<Ent> out; size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size();
        std::string l = s.substr(p, q-p); p = q+1;
        size_t c = l.find_first_of("%#"); bool comm = c != std::string::npos;
        std::string b = comm ? l.substr(0, c) : l;
        size_t i = 0; Ent e; e.hasw = false;
        auto num = [&](unsigned long long& v) -> bool {
            while (i < b.size() && !isdigit((unsigned char)b[i])) ++i;
            if (i >= b.size()) return false;
            v = 0; while (i < b.size() && isdigit((unsigned char)b[i])) v = v*10 + (b[i++]-'0');
            return true;
        };
        if (!num(e.x)) continue;
        if (!num(e.y)) fail("harness: malformed line");
        if (wkind) {
            size_t j = i;
            auto ok = [&](char ch) { return isdigit((unsigned char)ch) || (wkind != 2 && (ch=='-'||ch=='+')) || (wkind == 3 && (ch=='.'||ch=='e'||ch=='E')); };
            while (j < b.size() && !ok(b[j])) ++j;
            size_t k = j; while (k < b.size() && ok(b[k]) ) { ++k; }
            if (k > j) { e.hasw = true; e.w = b.substr(j, k-j); }
        }
        out.push_back(e);
    }
    return out;
}
template<class W> static bool weq(W got, const Ent& e) {
    if (!e.hasw) return got == (W)0;
    if (std::is_integral<W>::value) { long long v = strtoll(e.w.c_str(), 0, 10); return got == (W)v; }
    double v = strtod(e.w.c_str(), 0), g = (double)got;
    return g == v || (std::abs(g-v) <= 1e-5*std::abs(v) + 1e-30);
}
template<class W> struct WK { static const int v = std::is_floating_point<W>::value ? 3 : std::is_signed<W>::value ? 1 : 2; };

struct Stored { unsigned long long x, y; const Ent* e; };
inline std::vector<Stored> transform(const std::vector<Ent>& in, bool sym, bool ut, bool sl) {
    std::vector<Stored> o;
    for (auto& e : in) {
        if (sl && e.x == e.y) continue;
        if (ut && !sym && e.x > e.y) continue;
        if (ut && sym) { o.push_back({std::min(e.x, e.y), std::max(e.x, e.y), &e}); continue; }
        o.push_back({e.x, e.y, &e});
        if (sym && e.x != e.y) o.push_back({e.y, e.x, &e});
    }
    return o;
}
template<class C, class L, class S, class W, class WS, bool wgt> struct GW { static bool ok(C& c, size_t i, const Ent& e) { return weq<W>(detail::get_value_<WS, W>(c.w(), i), e); } };
template<class C, class L, class S, class W, class WS> struct GW<C,L,S,W,WS,false> { static bool ok(C&, size_t, const Ent&) { return true; } };

template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt=false, class W=float, class WS=W*>
void check_el(const std::string& fn, const std::string& text, FileType ft=EDGE_LIST) {
    typedef COO<L,O,S,sym,ut,sl,wgt,W,WS> C;
    auto ents = parse_el(text, wgt ? WK<W>::v : 0);
    auto exp = transform(ents, sym, ut, sl);
    C c {fn, ft};
    CHECK((size_t)c.m() == exp.size(), "%zu entries are stored, %zu are expected", (size_t)c.m(), exp.size());
    unsigned long long mr = 0, mc = 0, ml = 0;
    for (size_t i = 0; i < exp.size(); ++i) {
        L x = detail::get_value_<S, L>(c.x(), i), y = detail::get_value_<S, L>(c.y(), i);
        CHECK(x == (L)exp[i].x && y == (L)exp[i].y, "entry %zu is (%lld, %lld), expected (%llu, %llu)", i, (long long)x, (long long)y, exp[i].x, exp[i].y);
        bool wok = GW<C,L,S,W,WS,wgt>::ok(c, i, *exp[i].e);
        CHECK(wok, "entry %zu has another weight than its line's '%s'", i, exp[i].e->w.c_str());
        ml = std::max(ml, std::max(exp[i].x, exp[i].y));
    }
    for (auto& s : exp) {   // row and column counts: of the entries as read
        if (sym && !ut) { mr = std::max(mr, s.e->x); mc = std::max(mc, s.e->y); }
        else { mr = std::max(mr, s.x); mc = std::max(mc, s.y); }
    }
    if (exp.size()) {
        CHECK(c.nrows() == (L)(mr+1), "nrows is %llu, the largest row label is %llu", (unsigned long long)c.nrows(), mr);
        CHECK(c.ncols() == (L)(mc+1), "ncols is %llu, the largest column label is %llu", (unsigned long long)c.ncols(), mc);
        CHECK(c.n() == (L)(ml+1), "n is %llu, the largest label is %llu", (unsigned long long)c.n(), ml);
    }
    c.free();
    if (!std::is_pointer<S>::value || !exp.size()) return;
}
