// instantiates the parallel block operations and the character search for the verifier
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
KEEP void k_pw(FilePos& fp, char* v, size_t n) { parallel_write(fp, v, n); }
KEEP void k_pr(FilePos& fp, char* v, size_t n) { parallel_read(fp, v, n); }
KEEP Tensor<uint32_t, uint64_t, uint64_t*> k_find(char c, char* d, char* e) { FileReader r(d, e); return r.find_offsets<Tensor<uint32_t, uint64_t, uint64_t*>>(c); }
