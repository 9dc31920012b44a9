// instantiates the text loading of COOs, for every combination of the options
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef SYM
#define SYM 0
#endif
#ifndef UT
#define UT 0
#endif
#ifndef SL
#define SL 0
#endif
#ifndef WGT
#define WGT 0
#endif
#ifndef LT
#define LT uint32_t
#endif
#ifndef OT
#define OT uint64_t
#endif
#ifndef WT
#define WT float
#endif
typedef COO<LT, OT, LT*, SYM, UT, SL, WGT, WT, WT*> C;
KEEP void coo_el(C& c, FileReader& r) { c.read_el_(r); }
KEEP void coo_mm(C& c, FileReader& r) { c.read_mm_(r); }
KEEP LT coo_get_n(C& c) { return c.n(); }
KEEP LT coo_get_nrows(C& c) { return c.nrows(); }
KEEP LT coo_get_ncols(C& c) { return c.ncols(); }
KEEP OT coo_get_m(C& c) { return c.m(); }
KEEP LT** coo_sto_x(C& c) { return &c.x(); }
KEEP LT** coo_sto_y(C& c) { return &c.y(); }
KEEP WT** coo_sto_w(C& c) { return &c.w(); }
KEEP size_t coo_sz(C& c) { return sizeof(c); }
KEEP void fr_make(FileReader* r, const char* d, const char* e) { new (r) FileReader(d, e); }
