// instantiates the binary save and load operations, with the accessors used to compare the objects
#include "pigo.hpp"
using namespace pigo;
#define KEEP __attribute__((used))
#define CFG(N, LT, OT, WG, WT) \
typedef COO<LT, OT, LT*, false, false, false, WG, WT, WT*> COO_##N; \
typedef CSR<LT, OT, LT*, OT*, WG, WT, WT*> CSR_##N; \
typedef Tensor<LT, OT, LT*, WT, WT*, WG> TEN_##N; \
KEEP void coo_##N##_save(COO_##N& c, std::string fn) { c.save(fn); } \
KEEP void coo_##N##_load(COO_##N& c, File& f) { c.read_bin_(f); } \
KEEP LT coo_##N##_get_n(COO_##N& c) { return c.n(); } \
KEEP LT coo_##N##_get_nrows(COO_##N& c) { return c.nrows(); } \
KEEP LT coo_##N##_get_ncols(COO_##N& c) { return c.ncols(); } \
KEEP OT coo_##N##_get_m(COO_##N& c) { return c.m(); } \
KEEP LT** coo_##N##_sto_x(COO_##N& c) { return &c.x(); } \
KEEP LT** coo_##N##_sto_y(COO_##N& c) { return &c.y(); } \
KEEP WT** coo_##N##_sto_w(COO_##N& c) { return &c.w(); } \
KEEP size_t coo_##N##_sz(COO_##N& c) { return sizeof(c); } \
KEEP void coo_##N##_free(COO_##N& c) { c.free(); } \
KEEP void csr_##N##_save(CSR_##N& c, std::string fn) { c.save(fn); } \
KEEP void csr_##N##_savef(CSR_##N& c, File& f) { c.save(f); } \
KEEP size_t csr_##N##_size(CSR_##N& c) { return c.save_size(); } \
KEEP void csr_##N##_load(CSR_##N& c, File& f) { c.read_bin_(f); } \
KEEP LT csr_##N##_get_n(CSR_##N& c) { return c.n(); } \
KEEP LT csr_##N##_get_nrows(CSR_##N& c) { return c.nrows(); } \
KEEP LT csr_##N##_get_ncols(CSR_##N& c) { return c.ncols(); } \
KEEP OT csr_##N##_get_m(CSR_##N& c) { return c.m(); } \
KEEP OT** csr_##N##_sto_offsets(CSR_##N& c) { return &c.offsets(); } \
KEEP LT** csr_##N##_sto_endpoints(CSR_##N& c) { return &c.endpoints(); } \
KEEP WT** csr_##N##_sto_w(CSR_##N& c) { return &c.weights(); } \
KEEP size_t csr_##N##_sz(CSR_##N& c) { return sizeof(c); } \
KEEP void csr_##N##_free(CSR_##N& c) { c.free(); } \
KEEP void ten_##N##_save(TEN_##N& c, std::string fn) { c.save(fn); } \
KEEP void ten_##N##_load(TEN_##N& c, File& f) { c.read_bin_(f); } \
KEEP OT ten_##N##_get_order(TEN_##N& c) { return c.order(); } \
KEEP OT ten_##N##_get_m(TEN_##N& c) { return c.m(); } \
KEEP LT** ten_##N##_sto_c(TEN_##N& c) { return &c.c(); } \
KEEP WT** ten_##N##_sto_w(TEN_##N& c) { return &c.w(); } \
KEEP size_t ten_##N##_sz(TEN_##N& c) { return sizeof(c); } \
KEEP void ten_##N##_free(TEN_##N& c) { c.free(); }
CFG(a, uint32_t, uint64_t, false, float)
CFG(b, uint32_t, uint64_t, true, double)
CFG(c, uint64_t, uint64_t, true, float)
CFG(d, uint32_t, uint32_t, true, double)
CFG(e, uint32_t, uint64_t, true, float)
KEEP void f_open(File* f, std::string fn, OpenMode m, size_t sz) { new (f) File(fn, m, sz); }
KEEP void f_ropen(File* f, std::string fn) { new (f) ROFile(fn); }
KEEP void f_wopen(File* f, std::string fn, size_t sz) { new (f) WFile(fn, sz); }
KEEP void f_close(File* f) { f->~File(); }
KEEP void f_move(File* f, File& g) { new (f) File(std::move(g)); }
KEEP void f_assign(File& f, File& g) { f = std::move(g); }
KEEP void f_seek(File& f, size_t p) { f.seek(p); }
KEEP size_t f_size(File& f) { return f.size(); }
KEEP size_t f_left(File& f) { return f.left(); }
KEEP FilePos f_fp(File& f) { return f.fp(); }
KEEP uint8_t f_read8(File& f) { return f.read<uint8_t>(); }
KEEP uint64_t f_read64(File& f) { return f.read<uint64_t>(); }
KEEP void f_reads(File& f, const std::string& s) { f.read(s); }
KEEP void f_write8(File& f, uint8_t v) { f.write(v); }
KEEP void f_write64(File& f, uint64_t v) { f.write(v); }
KEEP void f_writes(File& f, std::string s) { f.write(s); }
KEEP void f_pread(File& f, char* v, size_t n) { f.parallel_read(v, n); }
KEEP void f_pwrite(File& f, char* v, size_t n) { f.parallel_write(v, n); }
KEEP FileType f_guess(File& f) { return f.guess_file_type(); }
KEEP void f_reader(File& f, FileReader* r) { *r = f.reader(); }
KEEP size_t f_sz() { return sizeof(File); }

KEEP void f_open_r(File* f, std::string fn, size_t sz) { new (f) File(fn, READ, sz); }
KEEP void f_open_w(File* f, std::string fn, size_t sz) { new (f) File(fn, WRITE, sz); }
KEEP int ft_mm() { return MATRIX_MARKET; }
KEEP int ft_el() { return EDGE_LIST; }
KEEP int ft_coo() { return PIGO_COO_BIN; }
KEEP int ft_csr() { return PIGO_CSR_BIN; }
KEEP int ft_dig() { return PIGO_DIGRAPH_BIN; }
KEEP int ft_ten() { return PIGO_TENSOR_BIN; }
KEEP int ft_graph() { return GRAPH; }
