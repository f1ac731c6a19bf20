#include <sys/mman.h>
// Loading the library under simulation, the simulated allocator, instrumentation callbacks.
#include "sim.hpp"
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>
#include <malloc.h>
#include <unistd.h>
#include <elf.h>

Flavor g_flavor = F_PLAIN;
Lib L;
Alloc A;
Inst I;
thread_local bool t_in_lib = false;

std::string hexd(double d) {
    if (d != d) return "nan";
    if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}
double parsed(const std::string &s) {
    if (s == "nan") return NAN;
    return strtod(s.c_str(), nullptr);
}
std::string num(long v) { return std::to_string(v); }
Op parse_op(const char *line) {
    Op o;
    std::string cur;
    for (const char *c = line; *c; ++c) {
        if (*c == ' ' || *c == '\n' || *c == '\t' || *c == '\r') { if (!cur.empty()) { o.w.push_back(cur); cur.clear(); } }
        else cur += *c;
    }
    if (!cur.empty()) o.w.push_back(cur);
    return o;
}

// -------------------------------------------------------------- library image
struct Seg { unsigned char *p; size_t n; std::vector<unsigned char> pristine; };
static std::vector<Seg> g_segs;
static std::string g_path;
static int phdr_cb(struct dl_phdr_info *info, size_t, void *) {
    if (!info->dlpi_name || g_path != info->dlpi_name) return 0;
    size_t relro_lo = 0, relro_hi = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &h = info->dlpi_phdr[i];
        if (h.p_type == PT_GNU_RELRO) { relro_lo = info->dlpi_addr + h.p_vaddr; relro_hi = relro_lo + h.p_memsz; }
    }
    size_t pg = (size_t)sysconf(_SC_PAGESIZE);
    relro_hi = relro_hi & ~(pg - 1);
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &h = info->dlpi_phdr[i];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
            size_t lo = info->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
            if (relro_hi > relro_lo && lo < relro_hi && hi > relro_lo) lo = relro_hi;
            if (lo < hi) g_segs.push_back({(unsigned char *)lo, hi - lo, {}});
        }
    }
    return 1;
}
static void copy_bytes(void *d, const void *s, size_t n) {   // not memcpy: sanitizers would object to red zones
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
void lib_load(const char *path) {
    void *h = dlopen(path, RTLD_LAZY | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "HARNESS dlopen: %s\n", dlerror()); exit(3); }
    auto sym = [&](const char *n) { void *p = dlsym(h, n); if (!p) { fprintf(stderr, "HARNESS missing symbol %s\n", n); exit(3); } return p; };
#define S(f, n) L.f = (decltype(L.f))sym(n)
    S(init, "spot_init"); S(free_, "spot_free"); S(fit, "spot_fit"); S(step, "spot_step");
    S(quantile, "spot_quantile"); S(probability, "spot_probability"); S(set_alloc, "set_allocators");
    S(set_float, "set_float_utils"); S(error, "libspot_error"); S(version, "libspot_version"); S(license, "libspot_license");
    struct link_map *lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    sim_unpoison(lm, sizeof *lm);
    sim_unpoison(lm->l_name, 4096);
    g_path = lm->l_name;
    dl_iterate_phdr(phdr_cb, nullptr);
    for (auto &s : g_segs) { s.pristine.resize(s.n); copy_bytes(s.pristine.data(), s.p, s.n); }
}
void lib_reset() {
    for (auto &s : g_segs) copy_bytes(s.p, s.pristine.data(), s.n);
}
bool lib_is_global(const void *p) {
    for (auto &s : g_segs) if ((unsigned char *)p >= s.p && (unsigned char *)p < s.p + s.n) return true;
    return false;
}

// -------------------------------------------------------------- sanitizer interface
extern "C" {
__attribute__((weak)) void __msan_unpoison(const volatile void *, size_t);
__attribute__((weak)) void __msan_poison(const volatile void *, size_t);
__attribute__((weak)) intptr_t __msan_test_shadow(const volatile void *, size_t);
}
void sim_unpoison(const void *p, size_t n) { if (g_flavor == F_MSAN && __msan_unpoison) __msan_unpoison(p, n); }
bool sim_is_poisoned(const void *p, size_t n) { return g_flavor == F_MSAN && __msan_test_shadow && __msan_test_shadow(p, n) != -1; }
void fill_garbage(void *p, size_t n, u64 seed, bool poison) {
    if (seed == 0) memset(p, 0, n);
    else if (seed == 1) memset(p, 0xff, n);      // NaNs and -1
    else if (seed == 2) memset(p, 0xa5, n);
    else {
        Rng r(seed);
        unsigned char *b = (unsigned char *)p;
        for (size_t i = 0; i < n; i += 8) {
            u64 v = r.next();
            switch (v & 3) {                      // plausible leftovers
            case 0: { double d = (double)(r.next() % 1000) / 7.0; memcpy(&v, &d, 8); break; }
            case 1: v = r.next() % 64; break;
            case 2: { double d = INFINITY; memcpy(&v, &d, 8); break; }
            default: break;
            }
            memcpy(b + i, &v, n - i < 8 ? n - i : 8);
        }
    }
    if (poison && g_flavor == F_MSAN && __msan_poison) __msan_poison(p, n);
}
bool g_readonly;
std::map<std::string, double *> *g_shared;
void *readonly_alloc(const void *src, size_t n) {
    size_t pg = 4096, room = (n + pg - 1) / pg * pg;
    unsigned char *m = (unsigned char *)mmap(nullptr, room + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "HARNESS mmap\n"); _exit(3); }
    unsigned char *p = m + room - n;
    if (n) memcpy(p, src, n);
    sim_unpoison(m, room);
    if (room) mprotect(m, room, PROT_READ);
    mprotect(m + room, pg, PROT_NONE);
    return p;
}
void readonly_free(void *p, size_t n) {
    size_t pg = 4096, room = (n + pg - 1) / pg * pg;
    munmap((unsigned char *)p + n - room, room + pg);
}
void *exact_alloc(size_t n) { return malloc(n); }
void exact_free(void *p) { if (p && g_flavor == F_MSAN) sim_unpoison(p, malloc_usable_size(p)); free(p); }

// -------------------------------------------------------------- allocator
static const size_t CAN = 32;
void Alloc::reset(u64 g) {
    for (auto &b : blocks) { if (b.raw) exact_free(b.raw); }
    blocks.clear(); errors.clear();
    garbage = g; fail_in = 0; pool = 0; owner = -1; mallocs = frees = failed = 0; last_request = 0;
}
static void put_canary(unsigned char *p) { memset(p, 0xc7, CAN); }
static bool ok_canary(const unsigned char *p) { for (size_t i = 0; i < CAN; i++) if (p[i] != 0xc7) return false; return true; }
bool Alloc::check_canaries(std::string *why) {
    if (g_flavor == F_ASAN) return true;
    for (auto &b : blocks) {
        if (!b.raw) continue;
        if (!ok_canary(b.p - CAN) || !ok_canary(b.p + b.n)) { *why = "memory outside a block of " + std::to_string(b.n) + " bytes was written"; return false; }
    }
    return true;
}
void *sim_malloc(size_t n) {
    bool in = t_in_lib; t_in_lib = false;
    A.mallocs++;
    A.last_request = n;
    void *res = nullptr;
    bool fail = n > A.limit;
    if (A.fail_in > 0 && --A.fail_in == 0) fail = true;
    if (fail) A.failed++;
    else {
        Block b{nullptr, nullptr, n, true, A.owner};
        if (g_flavor == F_ASAN) { b.raw = b.p = (unsigned char *)malloc(n); }
        else {
            b.raw = (unsigned char *)malloc(n + 2 * CAN);
            if (b.raw) { b.p = b.raw + CAN; put_canary(b.raw); put_canary(b.p + n); }
        }
        if (!b.raw) { fprintf(stderr, "HARNESS out of memory\n"); exit(3); }
        if (n <= (1u << 20) ) fill_garbage(b.p, n, A.garbage < 3 ? A.garbage : mix(A.garbage, A.blocks.size()), true);
        else memset(b.p, A.garbage ? 0xff : 0, n);
        A.blocks.push_back(b);
        res = b.p;
    }
    sim_unpoison(&res, sizeof res);
    t_in_lib = in;
    return res;
}
void sim_free(void *p) {
    bool in = t_in_lib; t_in_lib = false;
    A.frees++;
    if (p) {
        bool done = false;
        for (size_t i = A.blocks.size(); i-- > 0;) {
            Block &b = A.blocks[i];
            if (b.p == p) {
                if (!b.live) { if (g_flavor == F_ASAN) continue; A.errors.push_back("a block was released twice"); }
                else {
                    b.live = false;
                    if (g_flavor == F_ASAN) { free(b.raw); b.raw = nullptr; }
                    else fill_garbage(b.p, b.n < 4096 ? b.n : 4096, 0xdead, true);
                }
                done = true;
                break;
            }
        }
        if (!done) A.errors.push_back("a pointer that no allocation returned was released");
    }
    t_in_lib = in;
}

static void *sim_malloc2(size_t n) { if (A.pool != 1) A.errors.push_back("memory was taken from an allocator that is not registered any more"); return sim_malloc(n); }
static void sim_free2(void *p) { if (A.pool != 1) A.errors.push_back("memory was released through a function that is not registered any more"); sim_free(p); }
static void *sim_malloc1(size_t n) { if (A.pool != 0) A.errors.push_back("memory was taken from an allocator that is not registered any more"); return sim_malloc(n); }
static void sim_free1(void *p) { if (A.pool != 0) A.errors.push_back("memory was released through a function that is not registered any more"); sim_free(p); }
void register_pool(int k) {
    A.pool = k;
    if (k) L.set_alloc(sim_malloc2, sim_free2);
    else L.set_alloc(sim_malloc1, sim_free1);
}

// -------------------------------------------------------------- stack
// The library's automatic variables start out as what the simulator put on the stack.
__attribute__((noinline, no_sanitize("memory", "address"))) void scrub_stack(u64 g) {
    volatile u64 buf[1024];
    u64 v = g == 0 ? 0 : g == 1 ? ~0ull : g == 2 ? 0xa5a5a5a5a5a5a5a5ull : g * 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < 1024; i++) buf[i] = v;
    __asm__ volatile("" : : "r"(buf) : "memory");
}
// -------------------------------------------------------------- instrumentation
static thread_local sigjmp_buf g_jb;
static thread_local bool g_jb_set = false;
static thread_local int g_why = 0;
int guarded(const std::function<void()> &f) {
    g_why = 0;
    if (sigsetjmp(g_jb, 0) == 0) {
        g_jb_set = true; t_in_lib = true;
        f();
        t_in_lib = false; g_jb_set = false;
        return 0;
    }
    t_in_lib = false; g_jb_set = false;
    return g_why;
}
static inline void leave(int why) { if (g_jb_set) { g_why = why; siglongjmp(g_jb, 1); } }
static inline void on_access(const void *p, bool w) {
    if (!t_in_lib) return;
    I.access++;
    bool gw = false;
    if (w && lib_is_global(p)) { gw = true; I.gwrites++; }
    if (I.crash_at && I.access == I.crash_at) leave(1);
    if (I.yield) { t_in_lib = false; I.yield(gw); t_in_lib = true; }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) \
    void __tsan_read##n(void *p) { on_access(p, false); } \
    void __tsan_write##n(void *p) { on_access(p, true); } \
    void __tsan_read_write##n(void *p) { on_access(p, true); } \
    void __tsan_unaligned_read##n(void *p) { on_access(p, false); } \
    void __tsan_unaligned_write##n(void *p) { on_access(p, true); } \
    void __tsan_unaligned_read_write##n(void *p) { on_access(p, true); } \
    void __tsan_volatile_read##n(void *p) { on_access(p, false); } \
    void __tsan_volatile_write##n(void *p) { on_access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { on_access(p, false); }
void __tsan_write_range(void *p, unsigned long) { on_access(p, true); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { on_access(s, false); on_access(d, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { on_access(s, false); on_access(d, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { on_access(d, true); return memset(d, c, n); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int) { on_access((const void *)a, false); return *a; } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { *a = v; on_access((const void *)a, true); } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { T o = *a; *a = v; on_access((const void *)a, true); return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { T o = *a; *a = o + v; on_access((const void *)a, true); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { T o = *a; *a = o - v; on_access((const void *)a, true); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { T o = *a; *a = o & v; on_access((const void *)a, true); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { T o = *a; *a = o | v; on_access((const void *)a, true); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { on_access((const void *)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { on_access((const void *)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#ifdef SIM_INST
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (!t_in_lib) return;
    I.edges++;
    if (I.edge_limit && I.edges > I.edge_limit) leave(2);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
#endif
}

// -------------------------------------------------------------- observing a detector
unsigned long retained(const CSpot *s) {
    const struct Ubend &u = s->tail.peaks.container;
    return u.filled ? u.capacity : u.cursor;
}
std::vector<double> window(const CSpot *s) {
    const struct Ubend &u = s->tail.peaks.container;
    std::vector<double> v;
    unsigned long n = retained(s);
    if (!u.data || n > (1ul << 26)) return v;
    v.reserve(n);
    unsigned long st = u.filled ? u.cursor : 0;
    for (unsigned long i = 0; i < n; i++) {
        unsigned long j = st + i;
        if (j >= n) j -= n;
        if (j >= n) break;
        v.push_back(u.data[j]);
    }
    return v;
}
Fp fingerprint(const CSpot *s) {
    Fp f;
    auto d = [&](double x) { f.w.push_back(obits(x)); };
    d(s->q); d(s->level);
    f.w.push_back(s->discard_anomalies != 0); f.w.push_back(s->low != 0);
    d(s->anomaly_threshold); d(s->excess_threshold);
    f.w.push_back(s->Nt); f.w.push_back(s->n);
    d(s->tail.gamma); d(s->tail.sigma);
    const struct Peaks &p = s->tail.peaks;
    d(p.e); d(p.e2); d(p.min); d(p.max);
    f.w.push_back(p.container.capacity);
    for (double x : window(s)) d(x);
    return f;
}
u64 fphash(const Fp &f) { u64 h = 7; for (u64 x : f.w) h = mix(h, x); return h; }
std::string describe(const CSpot *s) {
    char b[512];
    snprintf(b, sizeof b, "q=%g level=%g disc=%d low=%d z=%.17g t=%.17g Nt=%lu n=%lu gamma=%.17g sigma=%.17g e=%.17g e2=%.17g min=%.17g max=%.17g retained=%lu/%lu",
             s->q, s->level, s->discard_anomalies, s->low, s->anomaly_threshold, s->excess_threshold, s->Nt, s->n, s->tail.gamma, s->tail.sigma,
             s->tail.peaks.e, s->tail.peaks.e2, s->tail.peaks.min, s->tail.peaks.max, retained(s), s->tail.peaks.container.capacity);
    return b;
}
