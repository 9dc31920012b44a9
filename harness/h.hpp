// Bounded search for a failing input against the real code. Used to replay
// failed proof obligations and as a labelled, bounded cross-check.
#pragma once
#include <pigo.hpp>
#include <algorithm>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <mutex>
#include <omp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
extern "C" size_t __sanitizer_get_current_allocated_bytes();

typedef std::vector<long long> VL;
struct Case {
    std::string op;
    VL p;               // p[0] threads, p[1] schedule perturbation seed
    std::string data;
    long long a(size_t i) const { return i < p.size() ? p[i] : 0; }
};

struct Rng {
    std::mt19937_64 g;
    Rng(uint64_t s) : g(s) { }
    uint64_t u() { return g(); }
    long long in(long long a, long long b) { return a + (long long)(g() % (uint64_t)(b-a+1)); }
    bool chance(int pct) { return (int)(g()%100) < pct; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[g()%v.size()]; }
};

static std::string g_dir;
static long g_count = 0;

[[noreturn]] inline void fail(const char* fmt, ...) {
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw std::string(b);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// --- schedule perturbation and exact-bounds mappings -----------------------
static volatile long g_jit = 0;
inline void jitter() {
    if (!g_jit) return;
    static thread_local uint64_t s = 0;
    static thread_local long seen = 0;
    if (seen != g_jit) { seen = g_jit; s = (uint64_t)g_jit*6364136223846793005ULL + (uint64_t)(uintptr_t)&s; }
    s = s*6364136223846793005ULL + 1442695040888963407ULL;
    unsigned r = (unsigned)(s >> 33);
    if (r % 4 == 0) usleep(r/4 % 300);
    else if (r % 4 == 1) sched_yield();
}
struct Tramp { void (*fn)(void*); void* data; };
static void tramp(void* p) { Tramp t = *(Tramp*)p; jitter(); t.fn(t.data); }
extern "C" {
    void __real_GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
    void __wrap_GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned f) {
        Tramp t {fn, d};
        __real_GOMP_parallel(tramp, &t, n, f);
    }
    void __real_GOMP_barrier();
    void __wrap_GOMP_barrier() { jitter(); __real_GOMP_barrier(); jitter(); }
    bool __real_GOMP_single_start();
    bool __wrap_GOMP_single_start() { jitter(); bool r = __real_GOMP_single_start(); if (r) jitter(); return r; }

    void* __real_mmap(void*, size_t, int, int, int, off_t);
    int __real_munmap(void*, size_t);
    int __real_madvise(void*, size_t, int);
}
struct MapInfo { size_t len; int fd; bool write; };
static std::map<void*, MapInfo> g_maps;
static std::mutex g_maps_mu;
static long g_unmap_err = 0, g_maps_total = 0;
static volatile int g_wrap_on = 1;
extern "C" void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    if (!g_wrap_on || fd < 0 || !(flags & MAP_SHARED) || a) return __real_mmap(a, len, prot, flags, fd, off);
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    // An exact heap copy, so that the sanitizer sees every access outside the file
    char* m = (char*)malloc(len);
    size_t got = 0;
    while (got < len) {
        int fd2 = open(("/proc/self/fd/" + std::to_string(fd)).c_str(), O_RDONLY);
        ssize_t r = fd2 < 0 ? -1 : pread(fd2, m+got, len-got, off+got);
        if (fd2 >= 0) close(fd2);
        if (r <= 0) break;
        got += r;
    }
    std::lock_guard<std::mutex> l(g_maps_mu);
    int wfd = -1;
    if (prot & PROT_WRITE) wfd = open(("/proc/self/fd/" + std::to_string(fd)).c_str(), O_RDWR);
    g_maps[m] = MapInfo{len, wfd, (prot & PROT_WRITE) != 0};
    ++g_maps_total;
    return m;
}
extern "C" int __wrap_munmap(void* p, size_t len) {
    std::unique_lock<std::mutex> l(g_maps_mu);
    auto it = g_maps.find(p);
    if (it == g_maps.end()) {
        l.unlock();
        if (!g_wrap_on) return __real_munmap(p, len);
        ++g_unmap_err;
        return -1;
    }
    if (it->second.len != len) ++g_unmap_err;
    if (it->second.write) {
        size_t done = 0;
        while (done < it->second.len) {
            ssize_t r = pwrite(it->second.fd, (char*)p+done, it->second.len-done, done);
            if (r <= 0) break;
            done += r;
        }
        close(it->second.fd);
    }
    g_maps.erase(it);
    free(p);
    return 0;
}
extern "C" int __wrap_madvise(void* p, size_t len, int adv) {
    { std::lock_guard<std::mutex> l(g_maps_mu); if (g_maps.count(p)) return 0; }
    return __real_madvise(p, len, adv);
}

// --- helpers ----------------------------------------------------------------
inline std::string fpath(const char* name) { return g_dir + "/" + name; }
inline void put(const std::string& fn, const std::string& s) {
    FILE* f = fopen(fn.c_str(), "wb");
    if (!f) { perror("harness: open"); _exit(70); }
    fwrite(s.data(), 1, s.size(), f); fclose(f);
}
inline std::string get(const std::string& fn) {
    std::ifstream i(fn, std::ios::binary);
    std::stringstream s; s << i.rdbuf(); return s.str();
}
inline void setup(const Case& c) {
    long t = c.a(0); if (t < 1) t = 1; if (t > 64) t = 64;
    omp_set_dynamic(0);
    omp_set_num_threads((int)t);
    g_jit = (long)c.a(1);
}
inline long pick_threads(Rng& r) {
    static const std::vector<long> v = {1,1,2,2,3,3,4,5,6,7,8,13};
    return r.pick(v);
}
// exact heap copy of text so that any out-of-range access is seen
struct Buf {
    char* p; size_t n; std::string orig;
    Buf(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()), orig(s) { memcpy(p, s.data(), n); 
        if (!n) { free(p); p = (char*)malloc(1); } }
    ~Buf() { free(p); }
    bool same() const { return memcmp(p, orig.data(), n) == 0; }
};
template<class F> bool throws_error(F f) {
    try { f(); } catch (const pigo::Error&) { return true; } catch (const std::bad_alloc&) { return true; } catch (const std::length_error&) { return true; }
    return false;
}

// each harness provides these
bool gen(long idx, Rng& r, Case& c);     // false: no case for this idx, try the next
void exec(const Case& c);                 // throws std::string on a violation

inline std::string ser(const Case& c) {
    std::ostringstream o;
    o << "PIGO-CASE " << c.op << " " << c.p.size();
    for (auto v : c.p) o << " " << v;
    o << " " << c.data.size() << "\n";
    return o.str() + c.data;
}
inline bool deser(const std::string& s, Case& c) {
    auto nl = s.find('\n');
    if (nl == std::string::npos) return false;
    std::istringstream i(s.substr(0, nl));
    std::string m; size_t np, nd;
    i >> m >> c.op >> np;
    c.p.resize(np);
    for (auto& v : c.p) i >> v;
    i >> nd;
    c.data = s.substr(nl+1, nd);
    return m == "PIGO-CASE";
}
struct Shared { volatile long count, nontriv; volatile uint64_t hash; volatile size_t len; volatile long tick; char msg[4000]; char buf[1<<22]; };
static Shared* g_sh;

inline int child(uint64_t seed, double secs, long start, long maxc) {
    auto t0 = std::chrono::steady_clock::now();
    for (long idx = start; ; ++idx) {
        if (maxc && idx >= maxc) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() > secs) break;
        Rng r(seed*1000003ULL + (uint64_t)idx);
        Case c;
        if (!gen(idx, r, c)) continue;
        std::string s = ser(c);
        if (s.size() < sizeof(g_sh->buf)) { memcpy(g_sh->buf, s.data(), s.size()); g_sh->len = s.size(); }
        ++g_sh->tick;
        setup(c);
        try { exec(c); }
        catch (const std::string& m) { snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str()); return 3; }
        catch (const std::exception& e) { snprintf(g_sh->msg, sizeof g_sh->msg, "unexpected exception: %s", e.what()); return 3; }
        ++g_sh->count;
    }
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: run SEED SECS DIR REPLAY [MAXCASES] | replay FILE DIR\n"); return 64; }
    std::string mode = argv[1];
    g_sh = (Shared*)__real_mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    Case rc; uint64_t seed = 1; double secs = 1; std::string rp; long maxc = 0;
    if (mode == "run") {
        seed = strtoull(argv[2], 0, 10); secs = atof(argv[3]); g_dir = argv[4]; rp = argv[5];
        if (argc > 6) maxc = atol(argv[6]);
    } else {
        if (!deser(get(argv[2]), rc)) { fprintf(stderr, "bad replay file\n"); return 64; }
        g_dir = argc > 3 ? argv[3] : "/tmp";
    }
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
        if (mode == "run") _exit(child(seed, secs, 0, maxc));
        setup(rc);
        // a schedule-dependent failure may need several runs
        for (int k = 0; k < 200; ++k) {
            try { exec(rc); }
            catch (const std::string& m) { snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str()); _exit(3); }
            catch (const std::exception& e) { snprintf(g_sh->msg, sizeof g_sh->msg, "unexpected exception: %s", e.what()); _exit(3); }
            if (rc.a(0) <= 1) break;
        }
        _exit(0);
    }
    int st = 0; long last = -1; auto lt = std::chrono::steady_clock::now(); bool hung = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        usleep(5000);
        auto now = std::chrono::steady_clock::now();
        if (g_sh->tick != last) { last = g_sh->tick; lt = now; }
        else if (std::chrono::duration<double>(now-lt).count() > 20) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    }
    std::string why;
    if (hung) why = "the operation does not terminate (20 s)";
    else if (WIFSIGNALED(st)) why = "crashed with signal " + std::to_string(WTERMSIG(st));
    else if (WEXITSTATUS(st) == 3) why = g_sh->msg;
    else if (WEXITSTATUS(st) == 70) { printf("HARNESS-ERROR\n"); return 70; }
    else if (WEXITSTATUS(st) != 0) why = "sanitizer or runtime abort (exit " + std::to_string(WEXITSTATUS(st)) + ")";
    if (why.empty()) { printf("OK cases=%ld\n", mode == "run" ? (long)g_sh->count : 1L); return 0; }
    std::string s = mode == "run" ? std::string(g_sh->buf, g_sh->len) : ser(rc);
    if (mode == "run") { put(rp, s); }
    for (auto& ch : why) if (ch == '\n') ch = ' ';
    printf("FAIL %s\n", why.c_str());
    printf("CASE %s\n", s.substr(0, s.find('\n')).c_str());
    std::string d = s.substr(s.find('\n')+1);
    printf("DATA ");
    for (size_t i = 0; i < d.size() && i < 400; ++i) {
        unsigned char ch = d[i];
        if (ch == '\\') printf("\\\\"); else if (ch >= 32 && ch < 127) putchar(ch); else printf("\\x%02x", ch);
    }
    printf("%s\n", d.size() > 400 ? "..." : "");
    return 1;
}
