// instantiates directed graphs and matrices built from COOs and files, their saving and loading, and the neighbour accessors
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef LT
#define LT uint32_t
#endif
#ifndef OT
#define OT uint64_t
#endif
#ifndef WT
#define WT float
#endif
#ifndef WG
#define WG false
#endif
#ifndef CLT
#define CLT LT
#endif
#ifndef COT
#define COT OT
#endif
typedef COO<CLT, COT, CLT*, false, false, false, WG, WT, WT*> C;
typedef DiGraph<LT, OT, LT*, OT*, WG, WT, WT*> D;
typedef Matrix<LT, OT, LT*, OT*, WG, WT, WT*> M;
typedef BaseGraph<LT, OT, LT*, OT*, WG, WT, WT*> G;
KEEP size_t coo_sz() { return sizeof(C); }
KEEP CLT coo_get_n(C& c) { return c.n(); }
KEEP CLT coo_get_nrows(C& c) { return c.nrows(); }
KEEP CLT coo_get_ncols(C& c) { return c.ncols(); }
KEEP COT coo_get_m(C& c) { return c.m(); }
KEEP void* coo_sto_x(C& c) { return &c.x(); }
KEEP void* coo_sto_y(C& c) { return &c.y(); }
KEEP void* coo_sto_w(C& c) { return &c.w(); }
KEEP void dg_of_coo(D* p, C& o) { new (p) D(o); }
KEEP void mx_of_coo(M* p, C& o) { new (p) M(o); }
KEEP void dg_of_file(D* p, std::string s, FileType t) { new (p) D(s, t); }
KEEP void dg_of_name(D* p, std::string s) { new (p) D(s); }
KEEP void mx_of_file(M* p, std::string s) { new (p) M(s); }
KEEP void dg_load(D* p, File& f) { new (p) D(f, AUTO); }
KEEP void dg_save(D& d, std::string s) { d.save(s); }
KEEP size_t dg_sz() { return sizeof(D); }
KEEP size_t mx_sz() { return sizeof(M); }
KEEP size_t f_sz() { return sizeof(File); }
KEEP void f_ropen(File* f, std::string fn) { new (f) File(fn, READ); }
KEEP size_t f_left(File& f) { return f.left(); }
#define SIDE(P, T, S, ACC) \
KEEP LT P##_##S##_get_n(T& d) { return d.ACC.n(); } \
KEEP LT P##_##S##_get_nrows(T& d) { return d.ACC.nrows(); } \
KEEP LT P##_##S##_get_ncols(T& d) { return d.ACC.ncols(); } \
KEEP OT P##_##S##_get_m(T& d) { return d.ACC.m(); } \
KEEP void* P##_##S##_sto_off(T& d) { return &d.ACC.offsets(); } \
KEEP void* P##_##S##_sto_end(T& d) { return &d.ACC.endpoints(); } \
KEEP void* P##_##S##_sto_w(T& d) { return &d.ACC.weights(); }
SIDE(dg, D, out, out())
SIDE(dg, D, in, in())
SIDE(mx, M, out, csr())
SIDE(mx, M, in, csc())
KEEP OT dg_whole_m(D& d) { return d.m(); }
KEEP OT dg_whole_n(D& d) { return d.n(); }
KEEP OT dg_whole_nrows(D& d) { return d.nrows(); }
KEEP OT dg_whole_ncols(D& d) { return d.ncols(); }
KEEP OT mx_whole_nrows(M& d) { return d.nrows(); }
KEEP OT mx_whole_ncols(M& d) { return d.ncols(); }
KEEP size_t g_sz() { return sizeof(G); }
KEEP LT g_get_n(G& d) { return d.n(); }
KEEP LT g_get_nrows(G& d) { return d.nrows(); }
KEEP LT g_get_ncols(G& d) { return d.ncols(); }
KEEP OT g_get_m(G& d) { return d.m(); }
KEEP void* g_sto_off(G& d) { return &d.offsets(); }
KEEP void* g_sto_end(G& d) { return &d.endpoints(); }
KEEP void* g_sto_w(G& d) { return &d.weights(); }
KEEP OT g_start(G& g, LT v) { return g.neighbor_start(v); }
KEEP OT g_end(G& g, LT v) { return g.neighbor_end(v); }
KEEP OT g_degree(G& g, LT v) { return g.degree(v); }
// the i-th neighbour met by going through the range, and how many there are
KEEP OT g_walk(G& g, LT v, LT* res) { OT k = 0; for (auto u : g.neighbors(v)) res[k++] = u; return k; }
