// instantiates the search for the offsets of a character
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#ifndef LT
#define LT uint64_t
#endif
#ifndef OT
#define OT uint64_t
#endif
typedef Tensor<LT, OT, LT*, float, float*, false> T;
KEEP void f_find(T* t, FileReader& r, char c) { new (t) T(r.find_offsets<T>(c)); }
KEEP OT t_get_order(T& c) { return c.order(); }
KEEP OT t_get_m(T& c) { return c.m(); }
KEEP void* t_sto_c(T& c) { return &c.c(); }
KEEP size_t t_sz() { return sizeof(T); }
KEEP void fr_make(FileReader* r, const char* d, const char* e) { new (r) FileReader(d, e); }
