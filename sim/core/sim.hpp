// Deterministic simulator for the libspot C core: common declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
extern "C" {
#include "spot.h"
}
typedef struct Spot CSpot;
typedef uint64_t u64;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s[4];
    static u64 sm(u64 &x) {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(u64 seed = 1) { for (auto &w : s) w = sm(seed); }
    u64 next() {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double u() { return (double)(next() >> 11) * 0x1p-53; }
    bool p(double pr) { return u() < pr; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double gauss() {
        double a = u(), b = u();
        if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    double expo() { double a = u(); if (a < 1e-300) a = 1e-300; return -std::log(a); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6)); return Rng::sm(x); }
inline u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline double bitsd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
// NaN payloads and the sign of zero are not observable results
inline u64 obits(double d) { if (d != d) return 0x7ff8000000000000ull; if (d == 0) return 0; return dbits(d); }
inline bool same(double a, double b) { return obits(a) == obits(b); }

// ---------------------------------------------------------------- trace
struct Op {
    std::vector<std::string> w;  // words: w[0] = kind
    Op() {}
    Op(std::initializer_list<std::string> l) : w(l) {}
    const std::string &k() const { return w[0]; }
    std::string text() const { std::string r; for (auto &x : w) { if (!r.empty()) r += ' '; r += x; } return r; }
};
typedef std::vector<Op> Trace;
std::string hexd(double d);
double parsed(const std::string &s);
std::string num(long v);
Op parse_op(const char *line);

// ---------------------------------------------------------------- results
struct Viol { std::string prop, msg; long op; };
struct RunOut {
    u64 hash = 1469598103934665603ull;
    std::vector<Viol> viol;
    std::map<std::string, u64> cnt;        // fault and probe counters
    std::unordered_set<u64> states;        // abstract states reached
    bool nontrivial = false;
    u64 steps = 0;
    bool verbose = false;
    void h(u64 x) { hash = mix(hash, x); }
    void hd(double d) { h(obits(d)); }
};

// ---------------------------------------------------------------- library under simulation
enum Flavor { F_PLAIN, F_ASAN, F_MSAN, F_INST };
extern Flavor g_flavor;
struct Lib {
    int (*init)(CSpot *, double, int, int, double, unsigned long);
    void (*free_)(CSpot *);
    int (*fit)(CSpot *, double const *, unsigned long);
    int (*step)(CSpot *, double);
    double (*quantile)(CSpot const *, double);
    double (*probability)(CSpot const *, double);
    void (*set_alloc)(malloc_fn, free_fn);
    void (*set_float)(ldexp_fn, frexp_fn);
    void (*error)(enum LibspotError, char *, unsigned long);
    void (*version)(char *, unsigned long);
    void (*license)(char *, unsigned long);
};
extern Lib L;
void lib_load(const char *path);
void lib_reset();                 // a new process image: every writable global as loaded
bool lib_is_global(const void *p);

// simulated allocator ------------------------------------------------------
struct Block { unsigned char *raw; unsigned char *p; size_t n; bool live; int owner; };
struct Alloc {
    std::vector<Block> blocks;
    u64 garbage = 0;           // content of fresh memory is a function of this and the block index
    long fail_in = 0;          // >0: that many allocations from now one fails
    size_t limit = (size_t)1 << 28;
    int owner = -1;
    u64 mallocs = 0, frees = 0, failed = 0;
    size_t last_request = 0;
    int pool = 0;              // which pair of functions is registered
    std::vector<std::string> errors;
    void reset(u64 g);
    bool check_canaries(std::string *why);
};
extern Alloc A;
void scrub_stack(u64 g);
void *sim_malloc(size_t n);
void sim_free(void *p);
void register_pool(int k);       // registers the k-th pair of functions (they share the ledger)
void fill_garbage(void *p, size_t n, u64 seed, bool poison);
void *readonly_alloc(const void *src, size_t n);   // a copy that ends at the end of its page and cannot be written
void readonly_free(void *p, size_t n);
extern bool g_readonly;                            // training batches are such copies
extern std::map<std::string, double *> *g_shared;  // threads train on the same batch where it is equal
void *exact_alloc(size_t n);      // harness buffer with redzones where the flavour has them
void exact_free(void *p);
void sim_unpoison(const void *p, size_t n);
bool sim_is_poisoned(const void *p, size_t n);

// instrumentation ----------------------------------------------------------
struct Inst {
    u64 edges = 0;               // basic-block edges executed in the library
    u64 edge_limit = 0;          // 0 = none; exceeding it aborts the call (longjmp)
    u64 access = 0;              // memory accesses
    u64 gwrites = 0;             // writes to library globals
    u64 crash_at = 0;            // access number at which the process crashes
    bool armed = false;
    void (*yield)(bool gwrite) = nullptr;
};
extern Inst I;
extern thread_local bool t_in_lib;
// runs f; returns 0 if it returned, 1 if it crashed at I.crash_at, 2 if it ran over I.edge_limit
int guarded(const std::function<void()> &f);

// ---------------------------------------------------------------- detectors
struct Fp {  // everything observable of a detector
    std::vector<u64> w;
    bool operator==(const Fp &o) const { return w == o.w; }
};
unsigned long retained(const CSpot *s);                         // number of retained excesses
std::vector<double> window(const CSpot *s);                     // oldest first
Fp fingerprint(const CSpot *s);
std::string describe(const CSpot *s);
u64 fphash(const Fp &f);

// ---------------------------------------------------------------- generation
struct GenCfg {
    std::string prop;
    bool thorough = false;
    int maxslots = 3;
    bool multi = true;          // several detectors
    double p_refit = 0.02, p_query = 0.08, p_text = 0.01, p_reinit = 0.01, p_age = 0.01;
    double p_alloc_fail = 0.05, p_badinit = 0.05;
    bool allow_inf = true, allow_nan = true;
    long min_len = 10, max_len = 400;
    int low = -1, disc = -1;    // -1 = random
    double cap_big = 0.006, p_long = 0.0008;
    bool cap_huge = true;
    double p_exc = -1;          // share of readings placed beyond t
    long cap = -1;              // -1 = random
};
Trace gen_history(Rng &r, GenCfg c);
std::vector<double> gen_batch(const std::string &dist, u64 seed, long n, double scale, double off, const std::string &fault);
Trace gen_for(const std::string &prop, u64 seed, u64 run, bool thorough);

// ---------------------------------------------------------------- execution
void exec_for(const std::string &prop, const Trace &t, RunOut &o);
void exec_model(const std::string &prop, const Trace &t, RunOut &o);
void exec_diff(const std::string &prop, const Trace &t, RunOut &o);
void exec_threads(const std::string &prop, const Trace &t, RunOut &o);
