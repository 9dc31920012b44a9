L['C01'] = proof(SCANN % 'in bounds, terminates, never backwards, writes only the position')
L['C02'] = proof(SCANN % 'stops exactly at the position, and returns exactly the value, the specification names')
L['C03'] = proof('write_size and write_ascii proved for all 15 integral types and every value against the decimal digit specification (exact bytes, exact size, nothing else written); read_int and read_sign proved against the digit-run value; the two are tied by lemmas proved on every run. A bounded harness with exhaustive small types runs beside it.')
L['C20'] = proof('parallel_write and parallel_read proved for every block size, every number of threads and every schedule: consecutive threads\' parts meet, start at the block\'s start and end at its end; each byte goes to its own position; source unchanged; position advances by the size. A bounded harness runs beside it.')
L['C05'] = proof('read_el_ proved for every text, every number of threads and every schedule, for every combination of the flags, unweighted and with integer and floating weights: both passes of one entry are proved to be the same step (same next position, same number of entries); the storage has room for exactly the entries counted; each entry is written exactly once, by the thread whose range it is in, inside the allocation; reads stay inside the text; both loops terminate. A bounded harness runs beside it.')
ELN = 'Proved for every text, every number of threads and every schedule, %s: every step of the counting and the filling pass is proved against a specification of what the line at that position holds and which entries the options keep (first two integers, %s); a thread is proved to start at the first data line of its part and to store exactly the entries of its own lines, in file order; the parts are chained by induction over the threads; so the arrays hold exactly the entries of the file\'s data lines as the options have them, in file order, and the counts (m, nrows, ncols, n) are the documented ones. A bounded harness runs beside it.'
L['C04'] = proof(ELN % ('with 32 and 64 bit labels', 'nothing dropped'))
L['C06'] = proof(ELN % ('for all seven combinations of the options', 'mirrored, dropped or swapped as documented'))
L['C07'] = proof(ELN % ('for five combinations of options, integer (signed, unsigned) and floating weights', 'and the weight of that line, 0 where it has none; the mirror image carries the same') + ' The value of a floating weight is the uninterpreted value of its characters as read_fp reads them (its accuracy is C25).')
BINN = 'Proved for every object and every file: load after save gives back %s, and the file has exactly the size needed and every byte of it written; every strict prefix and every mismatch listed is refused; whatever a file holds, loading stays inside the file and its own storage. For the type combinations instantiated in inst/bin.cpp with raw-pointer storage. A bounded harness runs beside it.'
L['C10'] = proof(BINN % 'nrows, ncols, n, m and every byte of the rows, columns and weights')
L['C11'] = proof(BINN % 'n, nrows, ncols, m and every byte of the offsets, endpoints and weights; save(File&) advances by exactly save_size()')
L['C12'] = proof(BINN % 'order, m and every byte of the coordinates and weights')
L['C23'] = proof('Class invariant of File and a contract for every member (both open modes, seek, typed and string read/write, block read/write, move construction, move assignment incl. self-assignment and moved-from objects, destruction), proved for every file size, content, name and position over a model of the system calls in which each call may fail. A bounded harness runs beside it.')
L['C26'] = proof('guess_file_type proved against the precedence for every file content, position and name; files saved by COO, CSR and Tensor are proved to be detected as such. A bounded harness runs beside it.')
L['C24'] = proof('Every storage operation proved for the three kinds of storage and ten element types, for every count, index and value: room for exactly k elements, what is set is read back, every other element and the storage object unchanged, raw address is element 0, the variants that neither allocate nor free change nothing, allocation and deallocation match. std::vector and std::shared_ptr are library models. A bounded harness runs beside it.')
L['C14'] = proof('The conversion proved for every CSR with well-formed offsets (start at 0, never decrease, end at the entry count) and every sharing of the rows out to threads, for nine combinations of options and types (raw storage): each position of each row becomes the documented entry or pair of entries at its documented place, with its weight, counts as documented, rows proved disjoint, CSR unchanged; five unsupported option combinations refused. Vector and shared-pointer storage: bounded harness only, which runs beside the proof.')
L['C15'] = proof('Sorting proved for every CSR with well-formed offsets and every sharing of the rows out to threads, for seven combinations of types (raw storage, weighted and not): a row holds exactly the entries it held (a permutation, the same for endpoints and weights), endpoints never decrease within a row, rows proved disjoint, offsets, dimensions and storage unchanged. std::sort is assumed to leave a sorted permutation of its range; weights that are NaN are excluded. Vector and shared-pointer storage: bounded harness only, which runs beside the proof.')
L['C18'] = proof('Copy construction, assignment and self-assignment of COOs and tensors proved for every content, every number of threads and every way of sharing the loop out to them, for nine combinations of types and storage kinds: same dimensions and elements, storage of its own of exactly that size, source unchanged, storage held before released. A worksharing loop is verified by a generic iteration whose accesses are proved disjoint from every other iteration. A bounded harness runs beside it.')
L['C19'] = proof('Building a digraph or matrix from a COO or a text file proved for every COO with labels below its label count: the out (row) side is the CSR of exactly the entries, the in (column) side the CSR of exactly the transposed entries with the same weights, COO unchanged; saving and loading gives back both sides, dimensions and every byte; neighbour range, degree and iteration are those of the stored row. For three combinations of types, raw storage. What a CSR of a COO holds is C13, copying a COO is C18 (proved). A bounded harness runs beside it.')
WRN = 'Writing proved for every %s with integer labels%s, every number of threads: each thread counts exactly the bytes of its own entries and writes exactly their text, at its place; the file has exactly the size of the text, every byte inside it written by the one thread it belongs to, contents unchanged, file closed; no entries give an empty file. For %s (raw storage). Assumed: equal static worksharing loops give a thread the same contiguous part (clang, gcc), the output file can be created. %s Floating weights and other storage: bounded harness only, which runs beside the proof.'
L['C09'] = proof(WRN % ('COO', ' and weights', 'five combinations of types', ''))
L['C27'] = proof(WRN % ('tensor', ' and weights', 'three combinations of types', 'max_labels() is checked by the bounded harness only.'))
for i in range(4, 28):
    L.setdefault('C%02d' % i, bounded('Bounded: random cases from a seeded generator compared with an independent reference, under AddressSanitizer/UBSan, perturbed thread schedules and several thread counts.'))
NA = {'C25': 'The property is about floating-point accuracy (a relative error bound across stb sprintf and the digit-by-digit reader). The verifier treats floating-point values as uninterpreted, and a sound error analysis of the 1000-line double-double conversion in stb.impl.hpp is outside the reach of the contracts here.'}
