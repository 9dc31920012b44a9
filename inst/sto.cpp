// instantiates the storage operations on the three kinds of storage
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#define STO(N, T, ...) \
typedef __VA_ARGS__ S_##N; \
KEEP void N##_alloc(S_##N& s, size_t k) { detail::allocate_mem_<S_##N>(s, k); } \
KEEP void N##_noalloc(S_##N& s, size_t k) { detail::allocate_mem_<S_##N, false>(s, k); } \
KEEP void N##_set(S_##N& s, size_t i, T v) { detail::set_value_(s, i, v); } \
KEEP T N##_get(S_##N& s, size_t i) { return detail::get_value_<S_##N, T>(s, i); } \
KEEP T& N##_ref(S_##N& s, size_t i) { return detail::get_value_<S_##N, T&>(s, i); } \
KEEP char* N##_raw(S_##N& s) { return detail::get_raw_data_<S_##N>(s); } \
KEEP const char* N##_craw(const S_##N& s) { return detail::get_const_data_<S_##N>(s); } \
KEEP void N##_free(S_##N& s) { detail::free_mem_(s); } \
KEEP void N##_nofree(S_##N& s) { detail::free_mem_<S_##N, false>(s); }
#define ALL(N, T) STO(ptr_##N, T, T*) STO(vec_##N, T, std::vector<T>) STO(sptr_##N, T, std::shared_ptr<T>)
ALL(u8, uint8_t) ALL(i8, int8_t) ALL(u16, uint16_t) ALL(i16, int16_t) ALL(u32, uint32_t) ALL(i32, int32_t) ALL(u64, uint64_t) ALL(i64, int64_t) ALL(f, float) ALL(d, double)
