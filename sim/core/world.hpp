// A world of detectors driven by a trace. Execution is a pure function of the trace and the library.
#pragma once
#include "sim.hpp"

struct Rec {            // what one executed operation did
    std::string kind; int slot = -1; bool done = false;
    int ret = 0; double val = 0;      // results
    double x = 0;                     // resolved reading / query argument
    std::vector<double> batch;        // resolved training batch
    double q = 0, level = 0; int low = 0, disc = 0; unsigned long cap = 0; u64 garb = 0;  // init
    u64 dn = 0, dNt = 0;
    u64 mallocs = 0, frees = 0, failed = 0; size_t req = 0;
    std::string text; bool textok = true; bool wasfailed = false;
    int guard = 0;                    // 0 returned, 1 crashed, 2 over budget
    u64 edges = 0, access = 0;
};
struct Slot {
    CSpot *s = nullptr; bool live = false, failed_alloc = false, trained = false, freed = false;
    std::vector<size_t> blocks;       // indices in A.blocks obtained by the init
};
struct World {
    std::vector<Slot> slots;
    RunOut &o;
    bool mirror = false;              // C12: negate readings and flip the mode
    bool prot = false;                // guard each call against crash/over-budget
    explicit World(RunOut &out) : o(out) { slots.resize(8); }
    virtual ~World() { for (auto &s : slots) if (s.s) exact_free(s.s); }
    virtual void before(const Op &, Rec &) {}
    virtual void after(const Op &, Rec &) {}
    bool resolve(const Op &op, Rec &r);     // fills r from op and the visible state
    void run(const Op &op);                 // resolve + apply
    void apply(const Op &op, Rec &r);       // before, call, after
    void call(const std::function<void()> &f, Rec &r);
    double value(int slot, const std::string &tok);
    std::function<u64(const Rec &)> budget; // C16
    std::function<bool(Rec &)> filter;      // C22: adjusts or drops an operation before it happens
    long opidx = 0;
    u64 work = 0;                     // values fitted so far; bounds the cost of a run
    bool tired(int k) { unsigned long n = retained(slots[k].s); if (work > 300000 && n > 1000) return true; work += n; return false; }
    long pending_fail = 0; bool pending_unreg = false;
};
double ulps(double x, long n, double dir);
void begin_process(u64 garb);
