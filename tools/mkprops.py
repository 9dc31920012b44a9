#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
I = "include/pigo/impl/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

PI, CO, CS, TE, GR = [I + x + ".impl.hpp" for x in ("pigo", "coo", "csr", "tensor", "graph")]
HP = "include/pigo.hpp"

p("C01", "Text scanning never leaves the buffer and always terminates",
  "Whatever bytes a text buffer holds and wherever the reader stands in it (including exactly at the end), every scanning or reading operation of a file reader terminates, reads only bytes of the buffer (never the byte at or after its end), never writes to it, never moves backwards past where it started, and leaves the position within the buffer or exactly at its end. Advancing a reader by a count never goes past the end, and narrowing the end never widens it.",
  ["inputs"], "all buffer contents, all buffer lengths including 0, all reader positions 0..length, all integer result types",
  "The tests scan a few tidy files that all end in a newline; no test scans an empty range, a range ending inside a token or comment, or checks the byte after the end.",
  [PI, HP], [("FileReader::* scanners", PI), ("FileReader::operator+, operator+=, smaller_end, peek, at_zero, move_to", HP)],
  [("FileReader{d,end}", "half-open range still to be read; the invariant is buffer <= d <= end <= buffer+size", HP)])

p("C02", "Each scanner stops exactly at the documented token boundary",
  "For every buffer content, position and (possibly narrowed) end, each scanning operation stops exactly where it is documented to stop: the next digit outside comments, the first non-digit, the next newline, the next digit/sign outside comments, the next floating-point character, the next instance of a character, or the first position after the comment lines - and at the end if there is none. Integer reading returns the value (modulo the result type) of exactly the maximal digit run it stops after, sign reading reports a minus exactly when the reader is on '-', and the at-end-of-line, at-newline, at-zero, peek and at-string queries answer exactly their documented question without moving.",
  ["inputs"], "all buffer contents and lengths, all positions, all narrowed ends",
  "Tests look at a handful of positions in a few short files; the places where the scanners could go wrong (comment directly after a digit, sign at the end, consecutive comment lines, narrowed end inside a token) are unbounded combinations.",
  [PI, HP], [("move_to_eol, move_to_non_int, move_to_first_int, move_to_next_int, move_to_next_signed_int, skip_comments, move_to_fp, move_to_non_fp, at_end_of_line, read_int", PI), ("move_to, peek, at_nl_or_eol, at_zero, read_sign", HP)])

p("C03", "Integers are written and sized exactly, for every type and every value",
  "For every integral type and every value of it (including zero, the maximum and the signed minimum), writing the value as text produces its canonical decimal form - an optional minus sign, then the digits without leading zeros - and the predicted size equals the number of bytes written, which are the only bytes touched. Reading the digits back yields the value.",
  ["inputs"], "all values of all 8/16/32/64-bit signed and unsigned integer types",
  "A test samples a few values; the space is 2^64 per type, and extreme values (signed minimum, maximum) have their own code paths.",
  [PI], [("write_ascii, write_size, detail::get_positive, detail::neg_size, detail::write_neg_ascii", PI), ("FileReader::read_int, read_sign", PI)])

p("C04", "Loading an edge list yields exactly the file's entries, in order",
  "Loading an unweighted edge list (lines with at least two non-negative decimal integers that fit the label type, blank lines and lines starting with '%' or '#' skipped, with or without a final newline) yields exactly one entry per data line, in file order, holding that line's first two integers. The row and column counts are one more than the largest row and column label and the label count is the larger of the two; none of this depends on the number of threads or on where the file is split between them.",
  ["inputs", "schedules"], "all well-formed edge-list files, all thread counts, all schedules",
  "The tests load a dozen fixed files with one thread count; the split positions relative to tokens, comments and line ends depend on size and thread count in unboundedly many ways.",
  [CO, PI], [("COO::read_el_ two passes", CO), ("read_coord_entry_i_", CO), ("FileReader scanners", PI)],
  [("nl_offsets", "per-thread entry counts, then their prefix sums: where each thread starts writing", CO), ("x_,y_,m_", "the loaded entries", "include/pigo/coo.hpp")])

p("C05", "Edge-list loading is memory-safe and its two passes agree on any bytes",
  "For any file content whatsoever - malformed, truncated, binary, missing the final newline - and any number of threads and any flag combination, loading it as an edge list terminates without reading outside the file or writing outside the allocated entries. Every allocated entry is written by the second pass exactly once, by one thread, so no entry is left uninitialised or overwritten by another thread.",
  ["inputs", "schedules"], "all byte strings, all thread counts, all schedules, all flag combinations (symmetric, triangle, self-loop removal, weighted)",
  "Tests use only well-formed files; the memory errors appear on inputs such as a missing final newline or a trailing filtered entry, at particular chunk boundaries.",
  [CO, PI], [("count pass and fill pass must advance and count identically", CO), ("chunk boundaries re-aligned to line starts", CO)])

p("C06", "Symmetrize, triangle and self-loop options transform the entries as documented",
  "When an edge list is loaded, the stored entries are exactly the documented function of the file's entries, in file order: with symmetric every off-diagonal entry is followed by its mirror image; with triangle-only and not symmetric entries with row > column are dropped; with both, every entry is stored once with its smaller label as row; with self-loop removal, diagonal entries are dropped. The row and column counts are one more than the largest row and column label of the kept entries as read (before mirroring), the label count is one more than the largest label stored, and the result does not depend on the number of threads.",
  ["inputs", "schedules"], "all well-formed edge-list files, all eight flag combinations, all thread counts",
  "Tests try a few flags on a few small graphs; the interaction of dropped entries with chunk boundaries and consecutive dropped entries is not reached.",
  [CO], [("read_coord_entry_i_ filters, counting and setting variants", CO)])

p("C07", "Every stored weight stays attached to its own entry",
  "When a weighted edge list is loaded, the weight stored with an entry is the weight written on that entry's line (integer weights exactly, with their sign), whatever the flags, thread count or position in the file; a line without a weight gives 0, never the weight of another line. Mirrored entries carry the same weight, entries that are filtered out leave no weight behind and never disturb the weight of another entry.",
  ["inputs", "schedules"], "all well-formed weighted edge lists with integer weights, all flag combinations, all thread counts",
  "The tests load two small weighted files with default flags; weights combined with filters and with chunk boundaries are not tested at all.",
  [CO], [("read_wgt_i_", CO), ("read_coord_entry_i_", CO)])

p("C08", "A Matrix Market header that contradicts the file is rejected, a true one is kept",
  "Loading a coordinate Matrix Market file whose banner is missing is refused; one whose header has fewer rows or columns than the largest label of the entries, or (without options) a number of non-zeros different from the number of entries found, is refused with an error after releasing memory. Otherwise the loaded matrix reports the header's row and column counts (plus one, for 1-based labels), the larger as label count, and exactly the listed entries.",
  ["inputs"], "all Matrix Market coordinate files: all header values and all bodies",
  "Three fixed bad files are tested; the comparison boundaries (off by one in rows, columns, non-zeros, each flag) are not.",
  [CO], [("COO::read_mm_", CO)])

p("C09", "Writing a COO as text produces exactly its entries, once each, in order",
  "Writing a COO to a text file produces exactly the concatenation over all entries, in order, of the row, a space, the column (a space and the weight if weighted) and a newline: the file has exactly that size, every byte is written exactly once by one thread and lies inside the file. The result does not depend on the number of threads.",
  ["inputs", "schedules"], "all COOs with integer labels (and integer weights), all thread counts and schedules",
  "Tests write two small matrices with one thread count; a size prediction that disagrees with the bytes written only shows up for particular digit counts and chunk boundaries.",
  [CO, PI], [("COO::write size pass, prefix sum, fill pass", CO), ("write_size / write_ascii", PI)])

p("C10", "Binary COO save and load are exact inverses and mismatches are refused",
  "A COO saved in binary form and loaded into a COO with the same type sizes has the same dimensions, entry count, row, column and weight bytes; the file's size is exactly the predicted size and every byte of it is written. A file with another header, with a different label or ordinal type size, or shorter than its header announces is refused with an error instead of being read beyond its end.",
  ["inputs", "configurations", "schedules"], "all COO contents and sizes, all label/ordinal/weight type sizes, all thread counts, all binary file contents and lengths",
  "Tests round-trip a few small files and never truncate or corrupt one.",
  [CO, PI], [("COO::save, COO::read_bin_", CO), ("File::read/write, parallel_read/parallel_write", PI)])

p("C11", "Binary CSR save and load are exact inverses and mismatches are refused",
  "A CSR saved in binary form and loaded with the same type sizes has the same dimensions, entry count, all n+1 offsets, all endpoints and all weights; the file's size is exactly the announced save size and saving advances the file position by exactly that amount. A file with another header, a different label or ordinal type size, or shorter than its header announces is refused with an error instead of being read beyond its end.",
  ["inputs", "configurations", "schedules"], "all CSR contents and sizes, all type sizes, weighted or not, all thread counts, all binary file contents and lengths",
  "Tests round-trip a few small files and never truncate or corrupt one.",
  [CS, PI], [("CSR::save, CSR::save_size, CSR::read_bin_", CS)])

p("C12", "Binary tensor save and load are exact inverses and mismatches are refused",
  "A tensor saved in binary form and loaded with the same type sizes has the same order, entry count, coordinate and weight bytes; the file's size is exactly the predicted size. A file with another header, a different coordinate or ordinal type size (or, between weighted tensors, a different weight type size), or shorter than its header announces is refused with an error instead of being read beyond its end.",
  ["inputs", "configurations", "schedules"], "all tensor contents, orders and sizes, weighted or not, all thread counts, all binary file contents and lengths",
  "Tests round-trip one small file.", [TE, PI], [("Tensor::save, Tensor::read_bin_", TE)])

p("C13", "COO to CSR conversion keeps every entry in its row, with its weight",
  "For every COO whose labels are below its label count, the CSR built from it has the same dimensions and entry count, offsets that start at 0, never decrease and end at the entry count, each row's degree equal to the number of entries with that row label, and each row's slice holding exactly the columns (with their weights) of the entries of that row, each once. This holds for every thread schedule; nothing outside the allocated arrays is touched.",
  ["inputs", "schedules"], "all COOs, all thread counts, all interleavings of the counting and copying loops",
  "The tests convert small inputs; the atomic counting and the copy positions depend on the schedule and on repeated or missing row labels.",
  [CS], [("CSR::convert_coo_", CS)], [("label_degs", "remaining entries to place per row", CS), ("offsets_", "row starts", CS)])

p("C14", "CSR to COO conversion enumerates every entry once with its row and weight",
  "The COO built from a CSR holds, for every row and every position in its slice, exactly one entry with that row, that column and its weight, in row order; with the symmetric option each is stored together with its mirror image carrying the same weight, and with symmetric and triangle-only each is stored once with its smaller label as row. The entry count and the label, row and column counts are the CSR's (with the symmetric option both the row and the column count are the larger of the CSR's two), and unsupported option combinations are refused with an error.",
  ["inputs", "configurations", "schedules"], "all well-formed CSRs, all flag combinations, all thread counts",
  "Tests convert two small graphs and do not look at dimensions or at flags together with weights.",
  [CO], [("COO::convert_csr_", CO)])

p("C15", "Sorting a CSR orders each row and only permutes entries within it",
  "After sorting, every row's endpoints are in non-decreasing order and each row holds exactly the entries (endpoint with weight) it held before; offsets and dimensions are unchanged and no row reads or writes another row's slice. This holds for every number of rows and every schedule.",
  ["inputs", "schedules"], "all well-formed CSRs, weighted or not, all thread counts",
  "Tests sort one small graph.", [CS], [("CSR::sort", CS)])

p("C16", "Removing duplicates keeps each distinct endpoint of each row exactly once",
  "The CSR produced by duplicate removal has, for every row, exactly the distinct endpoints of that row, once each and in increasing order (with the weight of the first of the equal entries in sorted order), offsets that are the prefix sums of those counts, and an entry count equal to the last offset; row, column and label counts are unchanged. This holds for every thread count and every requested result type that can hold the values.",
  ["inputs", "schedules", "configurations"], "all well-formed CSRs including empty rows and all-duplicate rows, all thread counts",
  "Tests deduplicate two small graphs.", [CS], [("CSR::new_csr_without_dups", CS)])

p("C17", "Reading an adjacency-list graph yields each vertex's neighbours, or an error",
  "Reading an adjacency-list (METIS-like) graph file yields a CSR in which each vertex's row slice (rows 0..nrows()-1) holds exactly the integers on its line, in order, with an empty first row added when the labels are 1-based; comment lines are skipped and a header whose counts contradict the content is refused. The result does not depend on the number of threads or on where the file is split between them.",
  ["inputs", "schedules"], "all adjacency-list files, all thread counts",
  "Tests read a few fixed files with one thread count; splits inside comments, blank lines or trailing data are not reached.",
  [CS, PI], [("CSR::read_graph_", CS), ("FileReader::move_to_next_int_or_nl, at_zero, at_nl_or_eol", PI)])

p("C18", "Copies of COOs and tensors are exact, independent deep copies",
  "A copy-constructed or copy-assigned COO or tensor has the same dimensions, entry count, coordinates and weights as its source, in storage of its own, so later changes to one never show in the other; the source is not modified and self-assignment changes nothing. Assigning releases the storage previously held when the storage kind owns raw memory.",
  ["inputs", "configurations", "schedules"], "all contents and sizes, all storage kinds, all thread counts",
  "Tests copy a few small objects.", ["include/pigo/coo.hpp", "include/pigo/tensor.hpp"], [("copy constructors, operator=, copy_", "include/pigo/coo.hpp, include/pigo/tensor.hpp")])

p("C19", "A digraph's or matrix's in- and out- sides are transposes of each other",
  "A directed graph or matrix built from a COO or file stores in its out (row) side exactly the entries by row and in its in (column) side exactly the same entries by column, with the same weights; the source COO is unchanged by the construction. A directed graph saved in binary form and loaded again has identical in and out sides, and each vertex's neighbour range and degree are those of the stored side.",
  ["inputs", "configurations", "schedules"], "all COOs, weighted or not, all thread counts",
  "Tests build a few small graphs.", ["include/pigo/graph.hpp", "include/pigo/matrix.hpp", GR], [("from_coo_", "include/pigo/graph.hpp, include/pigo/matrix.hpp"), ("DiGraph::save/read_", GR)])

p("C20", "Parallel block reads and writes copy exactly the requested bytes",
  "A parallel block read or write of any size copies every byte of the block exactly once to its own position, touches nothing outside the block, leaves the source unchanged and advances the file position by exactly the block size. This holds for every number of threads, including more threads than bytes, and the threads' parts never overlap.",
  ["inputs", "schedules"], "all block sizes including 0, all thread counts, all contents",
  "Tests use one thread count and a few sizes; remainders and sizes smaller than the thread count are not reached.",
  [PI], [("parallel_read, parallel_write", PI)])

p("C21", "Finding character offsets returns every occurrence, once, in order",
  "Searching a text range for a character returns exactly the offsets, relative to the range's start, of all its occurrences in increasing order, each once. The result does not depend on the number of threads, and the search never reads outside the range or writes outside the result, whatever the content.",
  ["inputs", "schedules"], "all contents and lengths, all characters, all thread counts",
  "The test searches one file; an occurrence at offset 0, at the end or at a chunk boundary is not checked.",
  [PI], [("FileReader::find_offsets, move_to", PI + ", " + HP)])

p("C22", "Loading a text tensor yields exactly the file's entries, in order",
  "Loading a tensor from text determines its order from the first data line and yields one entry per data line, in file order, with exactly that line's coordinates (a missing coordinate reads as 0) and, if weighted, the number that follows them on the same line as weight (0 if there is none). Counting and filling agree on every input, well-formed or not, so nothing is read outside the file or written outside the allocated entries, and the result does not depend on the number of threads.",
  ["inputs", "schedules"], "all files (safety), all well-formed tensor files (exactness), all thread counts",
  "Tests load two small files.", [TE, PI], [("Tensor::read_el_, read_tensor_entry_i_", TE), ("FileReader::count_spaces_to_eol", PI)])

p("C23", "A file object maps exactly its file and has a single owner of the mapping",
  "Opening a file yields a readable range of exactly the file's size positioned at its start; opening for writing creates a file of exactly the requested size, and inconsistent open requests are refused. Seeking at or beyond the end is refused, reading or writing values or blocks never goes past the end (it is refused with an error), and after any sequence of moves each mapping is released exactly once, by its last owner, which keeps the position and name of the moved file.",
  ["inputs", "histories"], "all file sizes, positions, read/write sequences and move sequences",
  "Tests open a few files and never move a file object, seek to a boundary or read past the end.",
  [PI, HP], [("File::File, ~File, operator=, File(File&&), seek, read, write", PI + ", " + HP)])

p("C24", "All storage kinds store and return the same elements",
  "For raw-pointer, vector and shared-pointer storage alike, allocating room for k elements gives room for exactly k elements of the element type, an element that is set is what is read back at that index, other elements are unaffected, and the raw data address is the address of element 0. Storage that is not to be allocated or freed is left untouched.",
  ["inputs", "configurations"], "all three storage kinds, all element types, all counts and indices",
  "Tests instantiate some combinations on small files.",
  [HP], [("detail::allocate_mem_, free_mem_, set_value_, get_value_, get_raw_data_, get_const_data_", HP)])

p("C25", "Floating-point values survive a text round trip",
  "A floating-point weight written as text and read back is the original value up to the documented accuracy of the simple reader (relative error below 1e-6 for values of ordinary magnitude), with its sign and exponent.",
  ["inputs"], "all finite float and double values",
  "A few values are tested.", [PI, I + "stb.impl.hpp"], [("stbsp_to_chars", I + "stb.impl.hpp"), ("FileReader::read_fp", PI)])

p("C26", "File type detection follows the documented precedence",
  "Automatic file-type detection answers with the binary type whose complete header the file starts with, refuses a file that starts with the PIGO prefix but no known header, and otherwise decides by the file name's extension (matrix market, graph), defaulting to an edge list. The answer depends only on the file's first bytes and its name, and detection does not move the file position.",
  ["inputs"], "all file contents and names",
  "Tests rely on detection for a few names only.", [PI], [("File::guess_file_type, FileReader::at_str", PI)])

p("C27", "Writing a tensor as text produces exactly its entries, once each, in order",
  "Writing a tensor to a text file produces exactly, for each entry in order, its coordinates separated by single spaces (followed by a space and the weight if weighted) and a newline; the file has exactly that size and every byte is written exactly once, inside the file. The largest label reported per dimension is the maximum over all entries; neither depends on the number of threads.",
  ["inputs", "schedules"], "all tensors with integer coordinates (and integer weights), all orders from 1 up, all thread counts",
  "Tests write one small tensor.", [TE, PI], [("Tensor::write", TE), ("Tensor::max_labels", TE)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
