// instantiates the scanning operations for the verifier
#include "pigo.hpp"
#include <cstddef>
using namespace pigo;
extern "C" {
extern const size_t off_FileReader_d, off_FileReader_end, size_FileReader;
const size_t off_FileReader_d = offsetof(FileReader, d);
const size_t off_FileReader_end = offsetof(FileReader, end);
const size_t size_FileReader = sizeof(FileReader);
}
#define KEEP __attribute__((used))
KEEP void k_skip_comments(FileReader& r) { r.skip_comments(); }
KEEP void k_move_to_non_int(FileReader& r) { r.move_to_non_int(); }
KEEP void k_move_to_non_fp(FileReader& r) { r.move_to_non_fp(); }
KEEP void k_move_to_fp(FileReader& r) { r.move_to_fp(); }
KEEP void k_move_to_first_int(FileReader& r) { r.move_to_first_int(); }
KEEP void k_move_to_next_int(FileReader& r) { r.move_to_next_int(); }
KEEP void k_move_to_next_signed_int(FileReader& r) { r.move_to_next_signed_int(); }
KEEP void k_move_to_next_int_or_nl(FileReader& r) { r.move_to_next_int_or_nl(); }
KEEP void k_move_to_eol(FileReader& r) { r.move_to_eol(); }
KEEP void k_move_to(FileReader& r, char c) { r.move_to(c); }
KEEP bool k_at_end_of_line(FileReader& r) { return r.at_end_of_line(); }
KEEP size_t k_count_spaces(FileReader& r) { return r.count_spaces_to_eol(); }
KEEP FileReader k_plus(FileReader& r, size_t s) { return r + s; }
KEEP void k_pluseq(FileReader& r, size_t s) { r += s; }
KEEP void k_smaller_end(FileReader& r, FileReader& o) { r.smaller_end(o); }
KEEP bool k_good(FileReader& r) { return r.good(); }
KEEP size_t k_size(FileReader& r) { return r.size(); }
KEEP char k_peek(FileReader& r) { return r.peek(); }
KEEP bool k_at_nl(FileReader& r) { return r.at_nl_or_eol(); }
KEEP bool k_at_zero(FileReader& r) { return r.at_zero(); }
KEEP int k_sign32(FileReader& r) { return r.read_sign<int>(); }
KEEP long k_sign64(FileReader& r) { return r.read_sign<long>(); }
KEEP signed char k_sign8(FileReader& r) { return r.read_sign<signed char>(); }
KEEP short k_sign16(FileReader& r) { return r.read_sign<short>(); }
KEEP uint32_t k_ru32(FileReader& r) { return r.read_int<uint32_t>(); }
KEEP uint64_t k_ru64(FileReader& r) { return r.read_int<uint64_t>(); }
KEEP int32_t k_ri32(FileReader& r) { return r.read_int<int32_t>(); }
KEEP int64_t k_ri64(FileReader& r) { return r.read_int<int64_t>(); }
KEEP uint16_t k_ru16(FileReader& r) { return r.read_int<uint16_t>(); }
KEEP int16_t k_ri16(FileReader& r) { return r.read_int<int16_t>(); }
KEEP uint8_t k_ru8(FileReader& r) { return r.read_int<uint8_t>(); }
KEEP int8_t k_ri8(FileReader& r) { return r.read_int<int8_t>(); }
KEEP float k_rf(FileReader& r) { return r.read_fp<float>(); }
KEEP double k_rd(FileReader& r) { return r.read_fp<double>(); }
KEEP bool k_at_str(FileReader& r, const std::string& s) { return r.at_str(s); }
