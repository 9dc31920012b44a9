// instantiates writing COOs and tensors as text
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef LT
#define LT uint32_t
#endif
#ifndef OT
#define OT uint64_t
#endif
#ifndef WT
#define WT int
#endif
#ifndef WGT
#define WGT 0
#endif
#ifdef TENSOR
typedef Tensor<LT, OT, LT*, WT, WT*, WGT> C;
KEEP void t_write(C& c, std::string& n) { c.write(n); }
KEEP OT t_get_m(C& c) { return c.m(); }
KEEP OT t_get_order(C& c) { return c.order(); }
KEEP LT** t_sto_c(C& c) { return &c.c(); }
KEEP WT** t_sto_w(C& c) { return &c.w(); }
#else
typedef COO<LT, OT, LT*, false, false, false, WGT, WT, WT*> C;
KEEP void t_write(C& c, std::string& n) { c.write(n); }
KEEP OT t_get_m(C& c) { return c.m(); }
KEEP LT** t_sto_x(C& c) { return &c.x(); }
KEEP LT** t_sto_y(C& c) { return &c.y(); }
KEEP WT** t_sto_w(C& c) { return &c.w(); }
#endif
KEEP size_t t_sz(C& c) { return sizeof(c); }
KEEP size_t f_sz(File& c) { return sizeof(c); }
