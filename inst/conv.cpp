// instantiates the conversion of CSRs to COOs
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef LT
#define LT uint32_t
#endif
#ifndef OT
#define OT uint64_t
#endif
#ifndef WT
#define WT float
#endif
#ifndef WG
#define WG false
#endif
#ifndef SYM
#define SYM false
#endif
#ifndef UT
#define UT false
#endif
#ifndef SL
#define SL false
#endif
#ifndef CLT
#define CLT LT
#endif
#ifndef COT
#define COT OT
#endif
typedef COO<LT, OT, LT*, SYM, UT, SL, WG, WT, WT*> C;
typedef CSR<CLT, COT, CLT*, COT*, WG, WT, WT*> R;
KEEP void coo_of_csr(C* p, R& o) { new (p) C(o); }
KEEP size_t coo_sz() { return sizeof(C); }
KEEP LT coo_get_n(C& c) { return c.n(); }
KEEP LT coo_get_nrows(C& c) { return c.nrows(); }
KEEP LT coo_get_ncols(C& c) { return c.ncols(); }
KEEP OT coo_get_m(C& c) { return c.m(); }
KEEP void* coo_sto_x(C& c) { return &c.x(); }
KEEP void* coo_sto_y(C& c) { return &c.y(); }
KEEP void* coo_sto_w(C& c) { return &c.w(); }
KEEP size_t csr_sz() { return sizeof(R); }
KEEP CLT csr_get_n(R& c) { return c.n(); }
KEEP CLT csr_get_nrows(R& c) { return c.nrows(); }
KEEP CLT csr_get_ncols(R& c) { return c.ncols(); }
KEEP COT csr_get_m(R& c) { return c.m(); }
KEEP void* csr_sto_off(R& c) { return &c.offsets(); }
KEEP void* csr_sto_end(R& c) { return &c.endpoints(); }
KEEP void* csr_sto_w(R& c) { return &c.weights(); }
KEEP void csr_sort(R& c) { c.sort(); }
