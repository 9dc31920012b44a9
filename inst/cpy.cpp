// instantiates copying of COOs and tensors, with the accessors used to compare them
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef LT
#define LT uint32_t
#endif
#ifndef OT
#define OT uint64_t
#endif
#ifndef WT
#define WT float
#endif
#ifndef WG
#define WG false
#endif
#if defined(STO_VEC)
#define ST(T) std::vector<T>
#elif defined(STO_SPTR)
#define ST(T) std::shared_ptr<T>
#else
#define ST(T) T*
#endif
#if defined(WSTO_VEC)
#define SW(T) std::vector<T>
#elif defined(WSTO_SPTR)
#define SW(T) std::shared_ptr<T>
#else
#define SW(T) T*
#endif
typedef COO<LT, OT, ST(LT), false, false, false, WG, WT, SW(WT)> C;
typedef Tensor<LT, OT, ST(LT), WT, SW(WT), WG> T;
KEEP void coo_copy(C* p, const C& o) { new (p) C(o); }
KEEP C& coo_assign(C& p, const C& o) { return p = o; }
KEEP size_t coo_sz() { return sizeof(C); }
KEEP LT coo_get_n(C& c) { return c.n(); }
KEEP LT coo_get_nrows(C& c) { return c.nrows(); }
KEEP LT coo_get_ncols(C& c) { return c.ncols(); }
KEEP OT coo_get_m(C& c) { return c.m(); }
KEEP void* coo_sto_x(C& c) { return &c.x(); }
KEEP void* coo_sto_y(C& c) { return &c.y(); }
KEEP void* coo_sto_w(C& c) { return &c.w(); }
KEEP void ten_copy(T* p, const T& o) { new (p) T(o); }
KEEP T& ten_assign(T& p, const T& o) { return p = o; }
KEEP size_t ten_sz() { return sizeof(T); }
KEEP OT ten_get_order(T& c) { return c.order(); }
KEEP OT ten_get_m(T& c) { return c.m(); }
KEEP void* ten_sto_c(T& c) { return &c.c(); }
KEEP void* ten_sto_w(T& c) { return &c.w(); }
