#include "h.hpp"
using namespace pigo;
bool gen(long idx, Rng& r, Case& c) {
    static const std::vector<std::string> fx = {"", "a", "b", "aa", "ab", "ba", "aaa", "aba", "bab", "baab", "abba", "aaaaaaaa", "bbbbbbba", "abbbbbbb", "babababa", "a\nb\na"};
    static const long ts[] = {1,2,3,4,5,8};
    c.op = idx % 2 ? "u64" : "u32";
    long k = idx/2;
    if (k < (long)fx.size()*6) { c.data = fx[k/6]; c.p = {ts[k%6], 0, 'a'}; return true; }
    long n = r.chance(90) ? r.in(0, 60) : r.in(0, 3000); int d = r.in(1, 100);
    for (long i = 0; i < n; ++i) c.data += r.chance(d) ? 'a' : (r.chance(5) ? '\0' : 'b');
    c.p = {pick_threads(r), r.chance(15) ? r.in(1, 1<<30) : 0, r.chance(90) ? 'a' : (r.chance(50) ? 0 : '\xff')};
    return true;
}
template<class T> static void one(const Case& c) {
    Buf b(c.data); char ch = (char)c.a(2);
    FileReader r {b.p, b.p+b.n};
    auto t = r.find_offsets<T>(ch);
    std::vector<size_t> e;
    for (size_t i = 0; i < c.data.size(); ++i) if (c.data[i] == ch) e.push_back(i);
    CHECK(t.m() == e.size(), "%zu occurrences reported, there are %zu", (size_t)t.m(), e.size());
    CHECK(t.order() == 1 || t.m() == 0, "order %zu", (size_t)t.order());
    for (size_t i = 0; i < e.size(); ++i) CHECK((size_t)t.c()[i] == e[i], "offset %zu is reported as %zu, it is %zu", i, (size_t)t.c()[i], e[i]);
    CHECK(b.same() && r.d == b.p, "the reader or the text changed");
    free(t.c());
}
void exec(const Case& c) {
    if (c.op == "u64") one<Tensor<uint64_t,uint64_t,uint64_t*,float,float*,false>>(c);
    else one<Tensor<uint32_t,uint64_t,uint32_t*,float,float*,false>>(c);
}
