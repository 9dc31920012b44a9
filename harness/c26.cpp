#include "h.hpp"
using namespace pigo;
static const std::vector<std::string> HD = {"PIGO-COO-v1","PIGO-CSR-v2","PIGO-DiGraph-v1","PIGO-Tensor-2"};
static const std::vector<std::string> NM = {"a.mtx","a.graph","a.el","a","amtx",".mtx",".graph","mtx","graph","a.mtx.el","a.graph.txt","a.mtxx","a.MTX","a.bin","m.tx","x.mtx.graph","g.graph.mtx","raph","b.graphx"};
bool gen(long idx, Rng& r, Case& c) {
    c.op = "guess";
    std::string name = NM[idx % NM.size()]; long k = idx / NM.size();
    std::string s;
    if (k < 4) s = HD[k]; else if (k < 8) s = HD[k-4] + "tail"; else if (k < 12) { s = HD[k-8]; s.back() ^= 1; } else if (k < 16) { s = HD[k-12]; s.pop_back(); }
    else if (k < 20) s = " " + HD[k-16];
    else if (k < 40) { static const char* fx[] = {"PIGO","PIG","PIGO-","PIGO-X","pigo","P","PIGO\n","1 2\n","%%MatrixMarket matrix coordinate\n1 1 0\n","PIGO-COO-v2","PIGO-CSR-v1","PIGO-Tensor-v1","PIGO-Tensor-1","PIGO-COO","PIGO-CSR-v","PIGO-DiGraph","PIGP","PIGO-CSR-v22","xPIGO","PIGO-COO-v1PIGO-CSR-v2"}; s = fx[k-20]; }
    else { s = r.chance(70) ? HD[r.in(0,3)] : "PIGO-Xyz"; int n = r.in(0, 2); for (int i = 0; i < n && s.size(); ++i) { int q = r.in(0, 2); size_t at = r.in(0, s.size()-1); if (q == 0) s[at] = (char)r.in(32, 126); else if (q == 1) s.erase(at, 1); else s.resize(at+1); } if (s.empty()) s = "1"; }
    c.data = s; c.p = {1, 0, (long long)(idx % NM.size()), r.chance(20) ? r.in(0, s.size()-1) : 0};
    return true;
}
static bool has(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size()-p.size(), p.size(), p) == 0; }
void exec(const Case& c) {
    std::string n = NM[c.a(2)], fn = fpath(n.c_str());
    put(fn, c.data);
    std::string s = c.data.substr(c.a(3));
    ROFile f {fn};
    f.seek(c.a(3));
    FilePos before = f.fp();
    int exp;
    if (has(s, HD[0])) exp = PIGO_COO_BIN; else if (has(s, HD[1])) exp = PIGO_CSR_BIN; else if (has(s, HD[2])) exp = PIGO_DIGRAPH_BIN;
    else if (has(s, HD[3])) exp = PIGO_TENSOR_BIN; else if (has(s, "PIGO")) exp = -1;
    else if (ends(fn, ".mtx")) exp = MATRIX_MARKET; else if (ends(fn, ".graph")) exp = GRAPH; else exp = EDGE_LIST;
    int got = -1;
    try { got = f.guess_file_type(); } catch (const pigo::Error&) { got = -1; }
    CHECK(got == exp, "detected type %d, expected %d, for name %s", got, exp, n.c_str());
    CHECK(f.fp() == before && f.left() == s.size(), "detection moved the position");
    unlink(fn.c_str());
}
