// instantiates the integer writers for the verifier, for every integral type
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#define N(T, n) KEEP size_t ks_##n(T v) { return write_size(v); } KEEP void kw_##n(FilePos& fp, T v) { write_ascii(fp, v); }
N(bool, bool) N(char, c) N(signed char, sc) N(unsigned char, uc) N(short, s) N(unsigned short, us) N(int, i) N(unsigned int, u)
N(long, l) N(unsigned long, ul) N(long long, ll) N(unsigned long long, ull) N(wchar_t, wc) N(char16_t, c16) N(char32_t, c32)
