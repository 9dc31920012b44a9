#include "h.hpp"
#include <sanitizer/asan_interface.h>

using namespace pigo;
bool gen(long idx, Rng& r, Case& c) {
    static const char* ops[] = {"ptr","vec","sptr"}; c.op = ops[idx%3];
    long k = idx/3;
    if (idx < 60 && idx % 4 == 3) { c.op = "big"; c.p = {1, 0, k, (idx/4) % 6, r.in(0, 1<<30)}; return true; }
    c.p = {1, 0, k < 60 ? k/6 : r.in(0, 200), k % 6, r.in(0, 1<<30)};
    return true;
}
template<class T> static T mk(Rng& r) { return (T)r.u(); }
template<class T> static void prefill(T*&, size_t) {}
template<class T> static void prefill(std::vector<T>& s, size_t k) { detail::allocate_mem_(s, k); }
template<class T> static void prefill(std::shared_ptr<T>& s, size_t k) { detail::allocate_mem_(s, k); }
template<class T> static size_t count(const std::vector<T>& s, size_t) { return s.size(); }
template<class S> static size_t count(const S&, size_t n) { return n; }
template<class S, class T> static void one(const Case& c) {
    size_t n = c.a(2); Rng r(c.a(4));
    S s {};
    if (r.in(0, 1)) prefill(s, r.in(0, 2*n+3));      // storage that already holds elements
    detail::allocate_mem_(s, n);
    CHECK(count(s, n) == n, "room for %zu elements, not for %zu", count(s, n), n);
    char* raw = detail::get_raw_data_(s);
    CHECK((const void*)detail::get_const_data_(s) == (void*)raw, "the const address differs");
    if (n) CHECK(!__asan_region_is_poisoned(raw, n*sizeof(T)), "no room for %zu elements", n);
    if (!std::is_same<S, std::vector<T>>::value && n)
        CHECK(__sanitizer_get_allocated_size(raw) == n*sizeof(T), "room for %zu bytes, not for %zu elements", __sanitizer_get_allocated_size(raw), n);
    std::vector<T> ref(n);
    for (size_t i = 0; i < n; ++i) { ref[i] = mk<T>(r); detail::set_value_(s, i, ref[i]); }
    for (size_t q = 0; q < 2*n; ++q) {
        size_t i = r.in(0, n-1); ref[i] = mk<T>(r); detail::set_value_(s, i, ref[i]);
        size_t j = r.in(0, n-1);
        T gi = detail::get_value_<S, T>(s, i), gj = detail::get_value_<S, T>(s, j);
        CHECK(!memcmp(&gi, &ref[i], sizeof(T)) || gi == ref[i], "element %zu is not what was set", i);
        CHECK(gj == ref[j], "element %zu changed", j);
    }
    if (n) CHECK(memcmp(detail::get_raw_data_(s), ref.data(), n*sizeof(T)) == 0, "the raw data are not the elements");
    CHECK(detail::get_raw_data_(s) == raw, "the raw data moved");
    // not to be allocated or freed: untouched
    S before = s;
    detail::allocate_mem_<S, false>(s, n+5);
    CHECK(detail::get_raw_data_(s) == raw, "storage that is not to be allocated was changed");
    detail::free_mem_<S, false>(s);
    CHECK(detail::get_raw_data_(s) == raw, "storage that is not to be freed was changed");
    if (n) CHECK(!__asan_region_is_poisoned(raw, n*sizeof(T)), "storage that is not to be freed was freed");
    bool isptr = std::is_pointer<S>::value;
    detail::free_mem_(s);
    if (isptr) CHECK(n == 0 || __asan_address_is_poisoned(raw), "raw storage was not freed");
    else if (n) CHECK(!memcmp(detail::get_raw_data_(s), ref.data(), n*sizeof(T)), "owned storage changed by free");
}
// more elements than there are bytes: no storage can have room for them
template<class T> static void big(const Case& c) {
    Rng r(c.a(4)); size_t n = SIZE_MAX/sizeof(T) + 1 + r.in(0, 40);
    if (sizeof(T) == 1) return;
    T* s = nullptr; bool refused = false;
    try { detail::allocate_mem_(s, n); } catch (const std::exception&) { refused = true; }
    CHECK(refused, "%zu elements of %zu bytes were allocated, with room for %zu bytes", n, sizeof(T), __sanitizer_get_allocated_size(s));
}
template<class T> static void ty(const Case& c) {
    if (c.op == "big") return big<T>(c);
    if (c.op == "ptr") one<T*, T>(c); else if (c.op == "vec") one<std::vector<T>, T>(c); else one<std::shared_ptr<T>, T>(c);
}
void exec(const Case& c) {
    switch (c.a(3)) { case 0: ty<uint8_t>(c); break; case 1: ty<uint16_t>(c); break; case 2: ty<uint32_t>(c); break; case 3: ty<uint64_t>(c); break; case 4: ty<int>(c); break; default: ty<long>(c); }
}
