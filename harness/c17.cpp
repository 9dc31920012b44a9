#include "h.hpp"
using namespace pigo;
static std::string cmt(Rng& r) { static const std::vector<std::string> cs = {"%", "#", "% 1 2 3", "# 0 9", "%% 5", "#x%"}; return r.pick(cs); }
bool gen(long idx, Rng& r, Case& c) {
    int ty = idx % 3; long k = idx/3; c.op = "graph";
    bool zero = r.chance(50), big = r.chance(1);
    size_t n = k < 20 ? 1 + k%5 : big ? r.in(100, 3000) : r.in(1, 15); size_t m = 0;
    int dirty = r.in(0, 3); std::string nl = r.chance(15) ? "\r\n" : "\n";
    std::vector<std::vector<unsigned>> rows(n); bool has0 = false;
    int empt = r.in(0, 60);
    for (auto& v : rows) { size_t d = r.chance(empt) ? 0 : r.in(1, r.chance(80) ? 4 : 20); for (size_t i = 0; i < d; ++i) { v.push_back((unsigned)r.in(zero ? 0 : 1, zero ? n-1 : n)); has0 |= v.back() == 0; ++m; } }
    if (zero && !has0) { if (rows[0].empty()) { rows[0].push_back(0); ++m; } else rows[0][0] = 0; }
    std::string body;
    for (size_t i = 0; i < n; ++i) {
        if (dirty >= 1 && r.chance(10)) body += cmt(r) + "\n";
        if (dirty >= 2 && r.chance(10)) body += std::string(r.in(1, 3), ' ');
        for (size_t j = 0; j < rows[i].size(); ++j) body += (j ? (dirty >= 2 && r.chance(20) ? "  " : dirty >= 2 && r.chance(10) ? "\t" : " ") : "") + std::to_string(rows[i][j]);
        if (dirty >= 2 && r.chance(10)) body += " ";
        if (dirty >= 3 && r.chance(10)) body += " " + cmt(r);
        body += nl;
    }
    bool lastfull = !rows.back().empty();
    if (dirty >= 1 && r.chance(10)) body += cmt(r) + "\n";
    else if (r.chance(10)) { body += "\n"; if (r.chance(50)) body += "\n"; }
    else if (lastfull && r.chance(30)) while (body.size() && (body.back() == '\n' || body.back() == '\r')) body.pop_back();
    long long hn = n, hm = r.chance(50) && m % 2 == 0 ? m/2 : m; int bad = r.chance(85) ? 0 : (int)r.in(1, 3);
    if (bad == 1) hm += r.in(1, 3); else if (bad == 2 && hm > 0) { hm -= 1; } else if (bad == 3) hn += r.in(3, 5); else bad = 0;
    if ((long long)m == hm || (long long)m == 2*hm) { if (bad == 2 || bad == 1) bad = 0; }
    std::string head;
    if (dirty >= 1 && r.chance(20)) head += cmt(r) + "\n";
    head += std::to_string(hn) + " " + std::to_string(hm) + (r.chance(10) ? " 0" : "") + nl;
    c.data = head + body;
    c.p = {k < 20 ? k%10+1 : pick_threads(r), r.chance(15) ? r.in(1, 1<<30) : 0, ty, bad != 0, hn};
    return true;
}
// rows of the file: the lines after the header that are not comment lines
template<class L, class O, class LS, class OS> void t(const Case& c, const std::string& fn) {
    std::vector<std::vector<unsigned long long>> rows; bool header = false, has0 = false; size_t m = 0; unsigned long long mx = 0;
    const std::string& s = c.data; size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size();
        std::string l = s.substr(p, q-p); p = q+1;
        if (l.size() && (l[0] == '%' || l[0] == '#')) continue;
        size_t cp = l.find_first_of("%#"); if (cp != std::string::npos) l = l.substr(0, cp);
        if (!header) { header = true; continue; }
        std::vector<unsigned long long> v; std::istringstream is(l); unsigned long long x;
        while (is >> x) { v.push_back(x); has0 |= x == 0; mx = std::max(mx, x); ++m; }
        rows.push_back(v);
    }
    typedef CSR<L,O,LS,OS> C;
    bool refused = false;
    try {
        C g {fn, GRAPH};
        CHECK(!c.a(3), "a header that contradicts the file is accepted");
        size_t n = c.a(4), sh = has0 ? 0 : 1;
        CHECK((size_t)g.nrows() == n+sh, "nrows is %zu, expected %zu", (size_t)g.nrows(), n+sh);
        CHECK((size_t)g.m() == m, "m is %zu, expected %zu", (size_t)g.m(), m);
        if (m) CHECK((size_t)g.ncols() == mx+1, "ncols is %zu, the largest label is %llu", (size_t)g.ncols(), mx);
        size_t q = 0;
        for (size_t v = 0; v < n+sh; ++v) {
            O a = detail::get_value_<OS,O>(g.offsets(), v), b = detail::get_value_<OS,O>(g.offsets(), v+1);
            std::vector<unsigned long long> e; if (v >= sh && v-sh < rows.size()) e = rows[v-sh];
            CHECK((size_t)a == q, "offset %zu is %zu, expected %zu", v, (size_t)a, q);
            CHECK((size_t)b == q+e.size(), "row %zu ends at %zu, expected %zu", v, (size_t)b, q+e.size());
            for (auto x : e) { L l = detail::get_value_<LS,L>(g.endpoints(), q); CHECK(l == (L)x, "neighbour %zu of row %zu is %llu, expected %llu", q, v, (unsigned long long)l, x); ++q; }
        }
        g.free();
    } catch (const pigo::Error&) { refused = true; }
    CHECK(!refused || c.a(3), "a file that agrees with its header is refused");
}
void exec(const Case& c) {
    std::string fn = fpath("g.graph"); put(fn, c.data);
    switch (c.a(2)) {
        case 0: t<uint32_t,uint32_t,uint32_t*,uint32_t*>(c, fn); break;
        case 1: t<uint64_t,uint64_t,std::vector<uint64_t>,std::vector<uint64_t>>(c, fn); break;
        case 2: t<uint32_t,uint64_t,std::shared_ptr<uint32_t>,uint64_t*>(c, fn); break;
    }
}
