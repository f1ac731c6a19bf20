// Differential executors: the same history is run in two simulated worlds that must agree.
#include "world.hpp"
#include <algorithm>
#include <memory>
#include <thread>
typedef long double LD;

static std::string d2s(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

// ---------------------------------------------------------------- recording world
struct RecWorld : World {
    std::vector<Rec> recs; std::vector<u64> fps; Trace lit; std::vector<std::string> desc;
    bool keep = true; std::string tag;
    std::function<void(const Rec &, const Op &)> onafter, onbefore;
    explicit RecWorld(RunOut &o) : World(o) {}
    void before(const Op &op, Rec &r) override { if (onbefore) onbefore(r, op); }
    void after(const Op &op, Rec &r) override {
        if (keep) {
            recs.push_back(r);
            bool has = r.slot >= 0 && slots[r.slot].live;
            fps.push_back(has ? fphash(fingerprint(slots[r.slot].s)) : 0);
            Op l = op;
            if (r.kind == "step") l = Op{"step", num(r.slot), hexd(r.x)};
            else if (r.kind == "prob") l = Op{"prob", num(r.slot), hexd(r.x)};
            else if (r.kind == "quant") l = Op{"quant", num(r.slot), hexd(r.x)};
            lit.push_back(l);
        }
        if (onafter) onafter(r, op);
    }
};
static void note_state(RunOut &o, const Rec &r, const Slot &sl) {
    u64 h = mix(std::hash<std::string>()(r.kind), (u64)(r.ret + 5000));
    if (sl.live) {
        const CSpot *s = sl.s;
        int e = 0; if (std::isfinite(s->tail.gamma)) std::frexp(s->tail.gamma, &e); else e = 77;
        h = mix(h, (u64)(s->tail.peaks.container.filled != 0) + 2 * (s->low != 0) + 4 * (s->discard_anomalies != 0));
        h = mix(h, std::min<u64>(retained(s), 12)); h = mix(h, (u64)(e / 3 + 100) * 3 + (s->tail.gamma > 0) + 2 * (s->tail.gamma < 0));
    }
    o.states.insert(h);
}
static std::string opname(const Op &op) { std::string t = op.text(); if (t.size() > 120) t = t.substr(0, 120) + "..."; return t; }
static void viol(RunOut &o, const std::string &p, const std::string &m, long op) { if (o.viol.empty()) o.viol.push_back({p, m, op}); }

// ---------------------------------------------------------------- C03: the memory a detector is placed in does not matter
void exec_c03(const Trace &t, RunOut &o) {
    exec_model("C03", t, o);
    if (!o.viol.empty()) return;
    std::vector<Rec> base; std::vector<u64> bfp;
    for (int pass = 0; pass < 3; pass++) {
        begin_process(pass == 1 ? 0 : 1);
        RunOut side; RecWorld w(side);
        for (auto op : t) {
            if (op.k() == "garb") { if (pass) continue; }
            if (op.k() == "init" && op.w.size() >= 8 && pass) op.w[7] = pass == 1 ? "0" : "1";
            w.run(op);
        }
        if (pass == 0) { base = w.recs; bfp = w.fps; }
        else {
            if (base.size() != w.recs.size()) { viol(o, "C03", "histories on different memory contents diverge", 0); break; }
            for (size_t i = 0; i < base.size(); i++)
                if (base[i].ret != w.recs[i].ret || !same(base[i].val, w.recs[i].val) || bfp[i] != w.fps[i]) {
                    viol(o, "C03", "operation '" + opname(w.lit[i]) + "' depends on what the memory contained before initialisation (" + num(base[i].ret) + "/" + d2s(base[i].val) + " against " + num(w.recs[i].ret) + "/" + d2s(w.recs[i].val) + ")", (long)i);
                    break;
                }
        }
        if (!o.viol.empty()) break;
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C08: refused readings leave no trace
void exec_c08(const Trace &t, RunOut &o) {
    begin_process(0);
    std::vector<Rec> ra; std::vector<u64> fa; Trace lit; std::vector<size_t> idx;
    {
        RecWorld w(o);
        Fp pre; CSpot ps; bool have = false;
        w.onbefore = [&](const Rec &r, const Op &) { have = r.slot >= 0 && w.slots[r.slot].live; if (have && r.kind == "step") { pre = fingerprint(w.slots[r.slot].s); ps = *w.slots[r.slot].s; } };
        w.onafter = [&](const Rec &r, const Op &op) {
            note_state(o, r, r.slot >= 0 ? w.slots[r.slot] : Slot());
            if (r.kind != "step") return;
            o.cnt["v:" + num(r.ret)]++;
            if (r.ret == ANOMALY || r.ret < 0) {
                o.nontrivial = true;
                const CSpot *s = w.slots[r.slot].s;
                const struct Ubend &a = s->tail.peaks.container, &b = ps.tail.peaks.container;
                if (!(fingerprint(s) == pre) || a.cursor != b.cursor || a.capacity != b.capacity || (a.filled != 0) != (b.filled != 0) || !same(a.last_erased_data, b.last_erased_data) || a.data != b.data)
                    viol(o, "C08", "a reading (" + d2s(r.x) + ") answered " + num(r.ret) + " changed the detector: before " + describe(&ps) + " after " + describe(s), w.opidx);
            }
            (void)op;
        };
        for (auto &op : t) { w.run(op); if (!o.viol.empty()) break; }
        ra = w.recs; fa = w.fps; lit = w.lit;
    }
    if (o.viol.empty()) {
        // the twin never sees the refused readings
        Trace f;
        for (size_t i = 0; i < lit.size(); i++) if (!(ra[i].kind == "step" && (ra[i].ret == ANOMALY || ra[i].ret < 0))) { f.push_back(lit[i]); idx.push_back(i); }
        // faults on allocation must hit the same initialisations
        begin_process(0);
        RunOut side; RecWorld w(side);
        size_t k = 0;
        for (auto &op : f) {
            if (op.k() == "init" && ra[idx[k]].failed) w.pending_fail = 1; else w.pending_fail = 0;
            size_t before = w.recs.size();
            w.run(op);
            if (w.recs.size() == before) { viol(o, "C08", "the twin run could not perform '" + opname(op) + "'", (long)idx[k]); break; }
            const Rec &x = ra[idx[k]], &y = w.recs.back();
            if (x.ret != y.ret || !same(x.val, y.val) || fa[idx[k]] != w.fps.back()) {
                viol(o, "C08", "without the refused readings '" + opname(op) + "' gives " + num(y.ret) + "/" + d2s(y.val) + " instead of " + num(x.ret) + "/" + d2s(x.val) + (fa[idx[k]] != w.fps.back() ? " and the detector differs" : ""), (long)idx[k]);
                break;
            }
            k++;
        }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C12: mirror
static double rank_of(const std::vector<double> &b, double t) {
    double lo = 0, eq = 0;
    for (double x : b) { if (x < t) lo++; else if (x == t) eq++; }
    return (lo + eq / 2) / (double)b.size();
}
double g_mirror_max = 0;
void exec_c12(const Trace &t, RunOut &o) {
    begin_process(0);
    {
        RunOut side;
        RecWorld a(o), b(side);
        a.keep = b.keep = false;
        b.mirror = true;
        Rec ra, rb; bool got = false;
        a.onafter = [&](const Rec &r, const Op &op) {
            // every executed operation is mirrored at once
            note_state(o, r, r.slot >= 0 ? a.slots[r.slot] : Slot());
            if (r.kind == "free" || r.kind == "init") {
                Rec m; m.kind = r.kind; m.slot = r.slot; m.q = r.q; m.low = !r.low; m.disc = r.disc; m.level = r.level; m.cap = r.cap; m.garb = r.garb;
                if (r.kind == "free" && !(b.slots[r.slot].live || b.slots[r.slot].failed_alloc)) return;
                if (r.kind == "init") b.pending_fail = r.failed ? 1 : 0;
                b.apply(op, m);
                return;
            }
            Rec m; m.kind = r.kind; m.slot = r.slot; m.x = r.x; m.batch = r.batch; m.dn = r.dn; m.dNt = r.dNt;
            got = false;
            b.onafter = [&](const Rec &x, const Op &) { rb = x; got = true; };
            b.apply(op, m);
            if (!got || r.slot < 0) return;
            const CSpot *s = a.slots[r.slot].s; CSpot *q = b.slots[r.slot].s;
            std::string where = "'" + opname(op) + "'";
            auto bad = [&](const std::string &m2) { viol(o, "C12", m2 + " at " + where + ": " + describe(s) + " against mirrored " + describe(q), a.opidx); };
            if (r.kind == "fitg" || r.kind == "fitv") {
                o.nontrivial = true;
                size_t n = r.batch.size();
                bool fin = true; std::set<double> dist(r.batch.begin(), r.batch.end());
                double mn = INFINITY, mx = -INFINITY;
                for (double x : r.batch) { if (!std::isfinite(x)) fin = false; mn = std::min(mn, x); mx = std::max(mx, x); }
                if (fin && n && std::isfinite((mx - mn) * 1024)) {
                    bool ta = r.ret != -(int)ERR_EXCESS_THRESHOLD_IS_NAN, tb = rb.ret != -(int)ERR_EXCESS_THRESHOLD_IS_NAN;
                    if (ta != tb) bad("training defines the excess threshold in one mode only");
                    if (n == 5 && dist.size() == 5 && ta && tb) {
                        o.cnt["p:mirror-exact-fit"]++;
                        if (!same(q->excess_threshold, -s->excess_threshold)) bad("excess thresholds of five values are not mirrored");
                        else if (rb.ret != r.ret || !same(q->anomaly_threshold, -s->anomaly_threshold) || q->Nt != s->Nt || q->n != s->n) bad("training on five values is not mirrored");
                    } else if (n >= 30 && dist.size() > n * 9 / 10 && ta && tb && r.kind == "fitg" && op.w[7] == "-" && (op.w[2] == "gauss" || op.w[2] == "unif" || op.w[2] == "tri" || op.w[2] == "expo")) {
                        // the training quantile is an approximation: only batches it handles well are compared
                        o.cnt["p:mirror-rank-fit"]++;
                        double d = std::fabs(rank_of(r.batch, s->excess_threshold) - rank_of(r.batch, -q->excess_threshold));
                        if (d > g_mirror_max && n >= (size_t)(getenv("SIM_MN") ? atoi(getenv("SIM_MN")) : 0)) { g_mirror_max = d; if (getenv("SIM_DEBUG")) fprintf(stderr, "mirror %g n=%zu level=%g %s\n", d, n, s->level, op.w[2].c_str()); }
                        // the mirrored request for quantile p must not land on the side of 1-p
                        double lim = getenv("SIM_MIRROR") ? atof(getenv("SIM_MIRROR")) : 0.12 + 14.0 / (double)n;
                        if (d > lim) bad("the training quantile is not mirrored (rank difference " + d2s(d) + ")");
                    }
                }
                // continue from exactly mirrored states
                struct Ubend &u = q->tail.peaks.container; const struct Ubend &v = s->tail.peaks.container;
                q->excess_threshold = -s->excess_threshold; q->anomaly_threshold = -s->anomaly_threshold;
                q->n = s->n; q->Nt = s->Nt; q->tail.gamma = s->tail.gamma; q->tail.sigma = s->tail.sigma;
                q->tail.peaks.e = s->tail.peaks.e; q->tail.peaks.e2 = s->tail.peaks.e2; q->tail.peaks.min = s->tail.peaks.min; q->tail.peaks.max = s->tail.peaks.max;
                u.cursor = v.cursor; u.filled = v.filled; u.last_erased_data = v.last_erased_data;
                if (u.data && v.data) memcpy(u.data, v.data, v.capacity * 8);
                return;
            }
            if (r.kind == "step" && r.ret != rb.ret) { bad("verdict " + num(r.ret) + " for " + d2s(r.x) + " but " + num(rb.ret) + " for the mirror"); return; }
            if (r.kind == "prob" && !same(r.val, rb.val)) { bad("probability " + d2s(r.val) + " but " + d2s(rb.val) + " for the mirror"); return; }
            if (r.kind == "quant" && !same(r.val, -rb.val)) { bad("quantile " + d2s(r.val) + " but " + d2s(rb.val) + " for the mirror"); return; }
            if (!same(s->excess_threshold, -q->excess_threshold) || !same(s->anomaly_threshold, -q->anomaly_threshold)) { bad("thresholds are not mirrored"); return; }
            if (s->n != q->n || s->Nt != q->Nt || !same(s->tail.gamma, q->tail.gamma) || !same(s->tail.sigma, q->tail.sigma)) { bad("counts or tail parameters differ"); return; }
            if (r.kind == "step" && r.ret == EXCESS) {
                auto wa = window(s), wb = window(q);
                if (wa.size() != wb.size()) { bad("retained excesses differ"); return; }
                for (size_t i = 0; i < wa.size(); i++) if (!same(wa[i], wb[i])) { bad("retained excesses differ"); return; }
                o.cnt["p:mirror-excess"]++;
            }
        };
        for (auto &op : t) { a.run(op); if (!o.viol.empty()) break; }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C15: float utilities
static u64 fcount[6], lcount[6];
static double own_frexp(double x, int *e) {       // written from the C standard, no bit tricks
    if (x == 0) { *e = 0; return x; }
    if (x != x || std::isinf(x)) { *e = 12345; return x; }   // unspecified by the standard
    double a = x < 0 ? -x : x; int k = 0;
    while (a >= 1) { if (a >= 0x1p64) { a *= 0x1p-64; k += 64; } else { a *= 0.5; k++; } }
    while (a < 0.5) { if (a < 0x1p-64) { a *= 0x1p64; k -= 64; } else { a *= 2; k--; } }
    *e = k; return x < 0 ? -a : a;
}
static double own_ldexp(double x, int n) { return std::scalbln(x, n); }
#define UTIL(k) \
    static double f##k(double x, int *e) { bool in = t_in_lib; t_in_lib = false; fcount[k]++; double r; if (k & 1) { if (std::isinf(x) || x != x) { *e = k * 1000 - 2500; r = x; } else r = std::frexp(x, e); } else r = own_frexp(x, e); t_in_lib = in; return r; } \
    static double l##k(double x, int n) { lcount[k]++; return (k & 1) ? std::ldexp(x, n) : own_ldexp(x, n); }
UTIL(0) UTIL(1) UTIL(2) UTIL(3) UTIL(4) UTIL(5)
static frexp_fn FF[6] = {f0, f1, f2, f3, f4, f5};
static ldexp_fn LL[6] = {l0, l1, l2, l3, l4, l5};
void exec_c15(const Trace &t, RunOut &o) {
    std::vector<Rec> ra; std::vector<u64> fa; Trace lit; std::vector<long> ffu_at; // lit index before which an ffu op happens
    std::vector<Op> ffus;
    begin_process(0);
    {
        RecWorld w(o);
        w.onafter = [&](const Rec &r, const Op &) { note_state(o, r, r.slot >= 0 ? w.slots[r.slot] : Slot()); if (r.kind == "fitg") o.nontrivial = true; };
        for (auto &op : t) {
            if (op.k() == "ffu") { ffu_at.push_back((long)w.lit.size()); ffus.push_back(op); continue; }
            w.run(op);
        }
        ra = w.recs; fa = w.fps; lit = w.lit;
    }
    begin_process(0);
    {
        RunOut side; RecWorld w(side);
        memset(fcount, 0, sizeof fcount); memset(lcount, 0, sizeof lcount);
        int curf = -1, curl = -1; size_t nf = 0;
        for (size_t i = 0; i < lit.size() && o.viol.empty(); i++) {
            while (nf < ffus.size() && ffu_at[nf] <= (long)i) {
                const Op &op = ffus[nf++];
                if (op.w.size() < 3) continue;
                int a = atoi(op.w[1].c_str()), b = atoi(op.w[2].c_str());   // ldexp, frexp variants; -1 = NULL
                L.set_float(a >= 0 ? LL[a % 6] : nullptr, b >= 0 ? FF[b % 6] : nullptr);
                if (a >= 0) curl = a % 6;
                if (b >= 0) curf = b % 6;
                o.cnt["ffu"]++;
                if (a < 0 || b < 0) o.cnt["ffu-null"]++;
            }
            u64 f0c[6], l0c[6];
            memcpy(f0c, fcount, sizeof f0c); memcpy(l0c, lcount, sizeof l0c);
            w.pending_fail = lit[i].k() == "init" && ra[i].failed ? 1 : 0;
            CSpot pre; bool hp = false;
            if (ra[i].slot >= 0 && w.slots[ra[i].slot].live) { pre = *w.slots[ra[i].slot].s; hp = true; }
            size_t n0 = w.recs.size();
            w.run(lit[i]);
            if (w.recs.size() == n0) { viol(o, "C15", "the run with replaced utilities could not perform '" + opname(lit[i]) + "'", (long)i); break; }
            const Rec &x = ra[i], &y = w.recs.back();
            if (x.ret != y.ret || !same(x.val, y.val) || fa[i] != w.fps.back()) {
                viol(o, "C15", "with replaced float utilities '" + opname(lit[i]) + "' gives " + num(y.ret) + "/" + d2s(y.val) + " instead of " + num(x.ret) + "/" + d2s(x.val) + (fa[i] != w.fps.back() ? " and the detector differs" : ""), (long)i);
                break;
            }
            for (int k = 0; k < 6; k++) {
                if (k != curf && fcount[k] != f0c[k]) viol(o, "C15", "frexp replacement " + num(k) + " is called although it is not the one registered", (long)i);
                if (k != curl && lcount[k] != l0c[k]) viol(o, "C15", "ldexp replacement " + num(k) + " is called although it is not the one registered", (long)i);
            }
            if (hp && curf >= 0 && y.kind == "step" && y.ret == EXCESS && std::isfinite(pre.tail.sigma) && pre.tail.sigma > 0 && retained(w.slots[y.slot].s) >= 2) {
                if (fcount[curf] == f0c[curf]) viol(o, "C15", "a refit does not use the registered frexp", (long)i);
                else o.cnt["p:frexp-used"]++;
            }
            if (hp && curl >= 0 && y.kind == "quant" && std::isfinite(pre.tail.gamma) && pre.tail.gamma != 0 && y.x > 0 && pre.Nt) {
                double a = -pre.tail.gamma * std::log(y.x / ((double)pre.Nt / (double)pre.n));
                if (std::fabs(a) > 0.75 && std::fabs(a) < 600) { if (lcount[curl] == l0c[curl]) viol(o, "C15", "a quantile query does not use the registered ldexp", (long)i); else o.cnt["p:ldexp-used"]++; }
            }
        }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C14: crash and restore, determinism
struct Image { bool live; bool failed; CSpot s; std::vector<unsigned char> data; };
void exec_c14(const Trace &t, RunOut &o) {
    std::vector<Rec> ra; std::vector<u64> fa; Trace lit;
    struct Ev { long at; Op op; };
    std::vector<Ev> evs;
    auto passA = [&](u64 garb, bool first) {
        begin_process(garb);
        RunOut side; RecWorld w(first ? o : side);
        std::thread th([&] {
            for (auto &op : t) {
                if (op.k() == "ckpt" || op.k() == "crash" || op.k() == "crashat") { if (first) evs.push_back({(long)w.lit.size(), op}); continue; }
                if (op.k() == "garb") continue;
                w.run(op);
            }
        });
        th.join();
        if (first) { ra = w.recs; fa = w.fps; lit = w.lit; }
        else {
            for (size_t i = 0; i < ra.size(); i++)
                if (i >= w.recs.size() || ra[i].ret != w.recs[i].ret || !same(ra[i].val, w.recs[i].val) || fa[i] != w.fps[i]) { viol(o, "C14", "running the same history again gives another result at '" + opname(lit[i]) + "'", (long)i); break; }
        }
    };
    passA(0, true);
    for (auto &r : ra) if (r.kind == "step" && r.ret == EXCESS) o.nontrivial = true;
    passA(1, false);
    if (!o.viol.empty()) { A.reset(0); return; }
    // the run with crashes; every lifetime of the process has its own thread and library image
    std::vector<Image> img(8); long ckpt = 0; size_t ev_ckpt = 0;
    for (auto &im : img) im.live = im.failed = false;
    size_t i = 0, ev = 0; std::set<size_t> fired;
    std::set<long> pending;   // evs already fired
    int lives = 0;
    while (i < lit.size() && o.viol.empty() && lives < 60) {
        lives++;
        begin_process(lives & 1);
        std::unique_ptr<RecWorld> w;
        RunOut side;
        bool crashed = false;
        std::thread th([&] {
            w.reset(new RecWorld(side));
            w->keep = false;
            Rec last; bool got;
            w->onafter = [&](const Rec &r, const Op &) { last = r; got = true; };
            w->prot = g_flavor == F_INST;
            // other addresses than before
            std::vector<void *> pad;
            for (int k = 0; k < lives % 5; k++) pad.push_back(malloc(64 + 48 * k));
            for (size_t k = 0; k < img.size(); k++) {
                Slot &sl = w->slots[k];
                if (img[k].live || img[k].failed) {
                    sl.s = (CSpot *)exact_alloc(sizeof(CSpot));
                    memcpy(sl.s, &img[k].s, sizeof(CSpot));
                    sl.live = img[k].live; sl.failed_alloc = img[k].failed; sl.trained = true;
                    if (img[k].live) {
                        A.owner = (int)k;
                        double *d = (double *)sim_malloc(img[k].data.size());
                        memcpy(d, img[k].data.data(), img[k].data.size());
                        sl.s->tail.peaks.container.data = d;
                    } else sl.s->tail.peaks.container.data = nullptr;
                }
            }
            while (i < lit.size()) {
                bool arm = false; u64 at = 0;
                while (ev < evs.size() && evs[ev].at <= (long)i) {
                    Ev &e = evs[ev];
                    if (e.op.k() == "ckpt") {
                        for (size_t k = 0; k < img.size(); k++) {
                            Slot &sl = w->slots[k];
                            img[k].live = sl.live; img[k].failed = sl.failed_alloc;
                            if (sl.live || sl.failed_alloc) {
                                memcpy(&img[k].s, sl.s, sizeof(CSpot));
                                img[k].data.clear();
                                if (sl.live) { const struct Ubend &u = sl.s->tail.peaks.container; img[k].data.assign((unsigned char *)u.data, (unsigned char *)u.data + u.capacity * 8); }
                            }
                        }
                        ckpt = (long)i; ev_ckpt = ev;
                        if (!fired.count(ev)) { o.cnt["checkpoint"]++; fired.insert(ev); }
                    } else if (!fired.count(ev)) {
                        fired.insert(ev);
                        if (e.op.k() == "crash") { o.cnt["crash-between"]++; crashed = true; break; }
                        arm = true; at = strtoull(e.op.w.size() > 1 ? e.op.w[1].c_str() : "1", nullptr, 10);
                    }
                    ev++;
                }
                if (crashed) break;
                w->pending_fail = lit[i].k() == "init" && ra[i].failed ? 1 : 0;
                got = false;
                I.crash_at = arm ? I.access + at : 0;
                w->run(lit[i]);
                I.crash_at = 0;
                if (w->prot && got && last.guard == 1) { crashed = true; o.cnt["crash-inside-" + (last.kind == "fitg" ? std::string("fit") : last.kind)]++; break; }
                if (!got) { viol(o, "C14", "after a restore '" + opname(lit[i]) + "' could not be performed", (long)i); break; }
                int sl = last.slot;
                u64 fp = sl >= 0 && w->slots[sl].live ? fphash(fingerprint(w->slots[sl].s)) : 0;
                if (last.ret != ra[i].ret || !same(last.val, ra[i].val) || fp != fa[i]) {
                    viol(o, "C14", "after a crash and restore '" + opname(lit[i]) + "' gives " + num(last.ret) + "/" + d2s(last.val) + " instead of " + num(ra[i].ret) + "/" + d2s(ra[i].val) + (fp != fa[i] ? "; detector: " + (sl >= 0 && w->slots[sl].live ? describe(w->slots[sl].s) : std::string("gone")) : ""), (long)i);
                    break;
                }
                note_state(o, last, sl >= 0 ? w->slots[sl] : Slot());
                i++;
            }
            for (void *p : pad) free(p);
            w.reset();
        });
        th.join();
        if (!o.viol.empty()) break;
        if (crashed) { i = (size_t)ckpt; ev = ev_ckpt; o.h(0xc4a5 + i); }
    }
    o.h(lives);
    A.reset(0);
}

// ---------------------------------------------------------------- C16: bounded work
static u64 g_frexp_calls;
static double count_frexp(double x, int *e) {
    bool in = t_in_lib; t_in_lib = false; g_frexp_calls++;
    double r = x;
    if (x == x && !std::isinf(x)) r = std::frexp(x, e);
    t_in_lib = in; return r;
}
void exec_c16(const Trace &t, RunOut &o) {
    begin_process(0);
    L.set_float(nullptr, count_frexp);
    {
        RecWorld w(o);
        w.keep = false; w.prot = true;
        u64 f0 = 0;
        const u64 CONST = 150;               // basic blocks allowed to a constant-cost call (the heaviest takes 11)
        auto cap = [&](const Rec &r) -> u64 { const CSpot *s = r.slot >= 0 && w.slots[r.slot].live ? w.slots[r.slot].s : nullptr; return s ? s->tail.peaks.container.capacity : 0; };
        std::vector<u64> before(8, 0);
        w.budget = [&](const Rec &r) -> u64 {   // beyond this a call is taken never to return
            f0 = g_frexp_calls;
            u64 c = cap(r);
            if (r.slot >= 0) before[r.slot] = c ? retained(w.slots[r.slot].s) : 0;
            if (r.kind == "step") return 20000 + 12000 * std::min(c, before[r.slot] + 1);
            if (r.kind == "fitg" || r.kind == "fitv") { u64 sz = std::min<u64>(c, before[r.slot] + r.batch.size()); return 20000 + 12000 * sz + 250 * r.batch.size() + 40 * sz * r.batch.size(); }
            if (r.kind == "init" || r.kind == "free") return 20000 + 20 * (r.cap < (1ul << 26) ? r.cap : 0) + 20 * c;
            return 200000;
        };
        w.onafter = [&](const Rec &r, const Op &op) {
            note_state(o, r, r.slot >= 0 ? w.slots[r.slot] : Slot());
            u64 logs = g_frexp_calls - f0;
            auto bad = [&](const std::string &m) { if (getenv("SIM_DEBUG")) return; viol(o, "C16", m + " at '" + opname(op) + "' (" + std::to_string(r.edges) + " basic blocks, " + std::to_string(logs) + " logarithms)", w.opidx); };
            if (r.guard == 2) { bad("a call did not return within its budget"); return; }
            bool fit = r.kind == "fitg" || r.kind == "fitv";
            if ((r.kind == "step" && r.ret == EXCESS) || fit) {
                const CSpot *s = w.slots[r.slot].s;
                u64 n = retained(s), b = r.batch.size();
                double mn = s->tail.peaks.min, mx = s->tail.peaks.max;
                bool ordinary = n >= 2 && mn > 1e-3 * mx && mx < 1e50 && mx > 1e-50;
                u64 lim = 4000 + (ordinary ? 1500 : 6000) * n;
                if (fit) {
                    u64 ex = 0; double t = s->excess_threshold;
                    for (double x : r.batch) if (s->low ? x < t : x > t) ex++;
                    u64 evict = before[r.slot] + ex > n ? before[r.slot] + ex - n : 0;
                    lim += 250 * b + 20 * n * evict;
                } else o.nontrivial = true;
                o.cnt[fit ? "p:fit-cost" : ordinary ? "p:excess-cost-ordinary" : "p:excess-cost"]++;
                if (r.edges > lim) bad(std::string(fit ? "training" : "an excess") + " costs more than its bound of " + std::to_string(lim) + " with " + std::to_string(n) + " retained excesses");
            } else if (r.kind == "step" || r.kind == "quant" || r.kind == "prob") {
                if (r.edges > CONST) bad("a " + r.kind + " answered " + num(r.ret) + " does not cost a constant amount of work");
                else o.cnt["p:const-cost"]++;
                if (cap(r) > 300) o.cnt["p:const-cost-large"]++;
            }
            if (getenv("SIM_DEBUG") && r.kind == "step") fprintf(stderr, "COST %s ret=%d n=%lu min=%g max=%g edges=%llu logs=%llu\n", r.kind.c_str(), r.ret, retained(w.slots[r.slot].s), w.slots[r.slot].s->tail.peaks.min, w.slots[r.slot].s->tail.peaks.max, (unsigned long long)r.edges, (unsigned long long)logs);
            if (getenv("SIM_DEBUG") && r.kind != "step") fprintf(stderr, "COST %s ret=%d b=%zu edges=%llu logs=%llu\n", r.kind.c_str(), r.ret, r.batch.size(), (unsigned long long)r.edges, (unsigned long long)logs);
        };
        for (auto &op : t) { w.run(op); if (!o.viol.empty()) break; }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C17: recovery
static LD ll_of(const CSpot *s, const std::vector<double> &w) {
    LD g = s->tail.gamma, sg = s->tail.sigma, n = w.size();
    if (!(sg > 0)) return -INFINITY;
    if (g == 0) { LD e = 0; for (double x : w) e += x; return -n * logl(sg) - e / sg; }
    LD r = -n * logl(sg), c = 1 + 1 / g;
    for (double x : w) { LD a = g * x / sg; if (!(1 + a > 0)) return (g < -1 && 1 + a > -1e-12L) ? INFINITY : -INFINITY; r -= c * log1pl(a); }
    return r;
}
void exec_c17(const Trace &t, RunOut &o) {
    begin_process(0);
    {
        RecWorld w(o);
        w.keep = false;
        std::vector<std::vector<double>> recent(8);   // readings behind the retained excesses
        std::vector<unsigned long> nlast(8, 0);       // data seen when the threshold was last computed
        w.onafter = [&](const Rec &r, const Op &) {
            note_state(o, r, r.slot >= 0 ? w.slots[r.slot] : Slot());
            if (r.kind == "init" || r.kind == "fitg") recent[r.slot].clear();
            if (r.kind == "step" && r.ret == EXCESS) { recent[r.slot].push_back(r.x); nlast[r.slot] = w.slots[r.slot].s->n; }
        };
        for (auto &op : t) {
            if (op.k() != "recover") { w.run(op); continue; }
            if (op.w.size() < 2) continue;
            int k = (int)(strtoul(op.w[1].c_str(), nullptr, 10) % 8);
            Slot &sl = w.slots[k];
            if (!sl.live) continue;
            CSpot *s = sl.s;
            unsigned long cap = s->tail.peaks.container.capacity;
            auto &rc = recent[k];
            if (rc.size() < cap || retained(s) != cap || !std::isfinite(s->excess_threshold)) continue;
            std::vector<double> last(rc.end() - (long)cap, rc.end());
            double t0 = s->excess_threshold;
            bool ordinary = true; double mx = 0, mn = INFINITY;
            for (double x : last) { double e = std::fabs(x - t0); if (!std::isfinite(x) || !(e < 1e100)) ordinary = false; mx = std::max(mx, e); mn = std::min(mn, e); }
            if (!ordinary || !(mx > 1e-60)) continue;
            // a detector that has only ever seen the retained excesses, same counts, same layout
            CSpot f; memset(&f, 0x33, sizeof f);
            A.owner = 7;
            if (L.init(&f, s->q, s->low, s->discard_anomalies, s->level, cap) != 0) continue;
            f.discard_anomalies = 0;
            unsigned long pad = s->tail.peaks.container.cursor % cap;
            f.excess_threshold = t0; f.n = nlast[k] - cap - pad; f.Nt = s->Nt - cap - pad;
            for (unsigned long i = 0; i < pad; i++) L.step(&f, last[i % cap]);
            for (double x : last) L.step(&f, x);
            o.cnt["p:recovered"]++; o.nontrivial = true;
            const struct Peaks &p = s->tail.peaks, &q = f.tail.peaks;
            auto bad = [&](const std::string &m) { viol(o, "C17", m + ": " + describe(s) + " against fresh " + describe(&f), w.opidx); };
            auto close = [](double a, double b, double tol) { return same(a, b) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)) + 1e-300); };
            std::vector<double> win(p.container.data, p.container.data + cap);
            LD ex = 0, ex2 = 0; for (double x : win) { ex += x; ex2 += (LD)x * x; }
            if (f.n != nlast[k] || f.Nt != s->Nt) bad("counts differ");
            if (!close(p.e, (double)ex, 1e-9) || !close(p.e2, (double)ex2, 1e-9) || !close(p.e, q.e, 1e-9) || !close(p.e2, q.e2, 1e-9)) bad("tail statistics have not recovered");
            if (!same(p.min, q.min) || !same(p.max, q.max)) bad("extremes have not recovered");
            LD E = ex / cap, V = ex2 / cap - E * E;
            if (V / (E * E) > 1e-3L && cap >= 2) {
                bool pc = close(s->tail.gamma, f.tail.gamma, 1e-6) && close(s->tail.sigma, f.tail.sigma, 1e-6);
                LD l1 = ll_of(s, win), l2 = ll_of(&f, win);
                bool lc = l1 == l2 || (std::isfinite(l1) && fabsl(l1 - l2) <= 1e-6L * cap + 1e-8L * fabsl(l1));
                if (!pc && !lc) {
                    // a window on a knife's edge (a candidate whose support ends at the largest excess, a root at the end of
                    // its interval): the last bit of the statistics decides which model wins. Equal up to rounding means
                    // equal to what some window within rounding of this one gives.
                    bool edge = false;
                    Rng pr(mix(o.hash, cap));
                    for (int i = 0; i < 60 && !edge; i++) {
                        CSpot g; memset(&g, 0x33, sizeof g);
                        if (L.init(&g, s->q, s->low, 0, s->level, cap) != 0) break;
                        g.excess_threshold = t0; g.n = nlast[k] - cap; g.Nt = s->Nt - cap;
                        double amp = i % 3 == 0 ? 1e-15 : i % 3 == 1 ? 1e-13 : 1e-11;
                        for (double x : last) L.step(&g, t0 + (x - t0) * (1 + amp * (2 * pr.u() - 1)));
                        LD l3 = ll_of(&g, win);
                        edge = (close(s->tail.gamma, g.tail.gamma, 1e-6) && close(s->tail.sigma, g.tail.sigma, 1e-6)) || (std::isfinite(l1) && std::isfinite(l3) && fabsl(l1 - l3) <= 1e-6L * cap + 1e-8L * fabsl(l1));
                        L.free_(&g);
                    }
                    if (!edge) bad("tail parameters have not recovered");
                    else o.cnt["p:knife-edge"]++;
                }
                if (pc) {
                    o.cnt["p:recovered-model"]++;
                    double d1 = s->anomaly_threshold - t0, d2 = f.anomaly_threshold - t0;
                    if (!(same(s->anomaly_threshold, f.anomaly_threshold) || (std::isfinite(d1) && std::isfinite(d2) && std::fabs(d1 - d2) <= 1e-4 * (std::fabs(d1) + std::fabs(d2)) + 1e-12 * std::fabs(t0)))) bad("the anomaly threshold has not recovered");
                }
                CSpot at = *s; at.n = nlast[k];
                double zq = L.quantile(&at, at.q);
                if (!same(s->anomaly_threshold, zq) && !(std::isfinite(s->anomaly_threshold) && std::fabs(s->anomaly_threshold - zq) <= 1e-9 * (std::fabs(s->anomaly_threshold) + std::fabs(t0)))) bad("the anomaly threshold is not the recovered model's");
            }
            // readings are judged against the recovered threshold
            if (s->discard_anomalies && s->anomaly_threshold == s->anomaly_threshold && o.viol.empty()) {
                double z = s->anomaly_threshold, ud = s->low ? -1 : 1;
                if (std::isfinite(z) && ud * (z - t0) > 0) {
                    double far = z + ud * (std::fabs(z - t0) + std::fabs(z) * 1e-6 + 1e-12);
                    int v1 = L.step(s, far);
                    if (v1 != ANOMALY) bad("a reading beyond the recovered threshold is judged " + num(v1));
                    o.cnt["p:recovered-verdict"]++;
                }
            }
            L.free_(&f);
            if (!o.viol.empty()) break;
        }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C22: unit and origin
// "frame unit K": the twin counts in a unit 2^K times smaller; "frame origin G C": the twin's origin lies C*2^G below.
void exec_c22(const Trace &t, RunOut &o) {
    int mode = 0; long K = 0, G = 0; double C = 0;
    for (auto &op : t) if (op.k() == "frame" && op.w.size() >= 3) {
        if (op.w[1] == "unit") { mode = 1; K = atol(op.w[2].c_str()); }
        else if (op.w.size() >= 4) { mode = 2; G = atol(op.w[2].c_str()); C = std::ldexp((double)atoll(op.w[3].c_str()), (int)G); }
        break;
    }
    if (!mode || std::labs(K) > 80 || std::labs(G) > 120 || !(std::fabs(C) < std::ldexp(1.0, (int)G + 50))) return;
    const double g = std::ldexp(1.0, (int)G), lim = std::ldexp(1.0, (int)G + 49);
    auto tr = [&](double x) { return mode == 1 ? std::ldexp(x, (int)K) : x + C; };
    auto back = [&](double x) { return mode == 1 ? std::ldexp(x, (int)-K) : x - C; };
    auto usable = [&](double &x) {
        if (x != x || std::isinf(x)) return true;
        if (mode == 1) { double y = std::fabs(x); return x == 0 || (y > 1e-36 && y < 1e36); }
        x = std::nearbyint(x / g) * g;
        return std::fabs(x) < lim;
    };
    begin_process(0);
    {
        RunOut side;
        RecWorld a(o), b(side);
        a.keep = b.keep = false;
        bool stop = false;
        std::vector<char> wild(8, 0);             // an infinite reading is in the tail: nothing is defined any more
        a.filter = [&](Rec &r) {
            if (r.kind == "step" || r.kind == "prob") return usable(r.x);
            if (r.kind == "fitg" || r.kind == "fitv") { for (auto &x : r.batch) if (!usable(x)) return false; }
            return true;
        };
        a.onafter = [&](const Rec &r, const Op &op) {
            note_state(o, r, r.slot >= 0 ? a.slots[r.slot] : Slot());
            if (r.slot < 0) return;
            Rec m = Rec(); m.kind = r.kind; m.slot = r.slot;
            Rec rb; bool got = false;
            b.onafter = [&](const Rec &x, const Op &) { if (x.kind == m.kind) { rb = x; got = true; } };
            if (r.kind == "free" || r.kind == "init") {
                m.q = r.q; m.low = r.low; m.disc = r.disc; m.level = r.level; m.cap = r.cap; m.garb = r.garb;
                if (r.kind == "free" && !(b.slots[r.slot].live || b.slots[r.slot].failed_alloc)) return;
                if (r.kind == "init") { b.pending_fail = r.failed ? 1 : 0; wild[r.slot] = 0; }
                b.apply(op, m);
                return;
            }
            m.x = r.kind == "quant" ? r.x : tr(r.x); m.dn = r.dn; m.dNt = r.dNt;
            for (double x : r.batch) m.batch.push_back(tr(x));
            b.apply(op, m);
            if (!got || stop) return;
            const CSpot *s = a.slots[r.slot].s; CSpot *q = b.slots[r.slot].s;
            std::string where = "'" + opname(op) + "'";
            const char *what = mode == 1 ? "in another unit" : "with another origin";
            auto bad = [&](const std::string &m2) { viol(o, "C22", m2 + " at " + where + " (reading " + d2s(r.x) + " is " + d2s(m.x) + " for the twin): " + describe(s) + " against, " + what + ", " + describe(q), a.opidx); };
            // positions on the axis: equal up to the rounding of the addition of the origin
            auto at = [&](double u, double v) {
                if (same(tr(u), v)) return true;
                if (std::fabs(u) > 1e150 && std::fabs(v) > 1e150 && (u > 0) == (v > 0)) return true;   // beyond what doubles represent in one of the frames
                if (mode == 1 || !std::isfinite(u) || !std::isfinite(v)) return false;
                double m2 = std::max(std::max(std::fabs(u), std::fabs(v)), std::fabs(C));
                return std::fabs(back(v) - u) <= 4 * (std::nextafter(m2, INFINITY) - m2);
            };
            auto sync = [&](bool thr) {           // continue from exactly corresponding states
                struct Ubend &u = q->tail.peaks.container; const struct Ubend &v = s->tail.peaks.container;
                double f = mode == 1 ? std::ldexp(1.0, (int)K) : 1.0;
                if (thr) { q->excess_threshold = tr(s->excess_threshold); q->anomaly_threshold = tr(s->anomaly_threshold); }
                q->n = s->n; q->Nt = s->Nt; q->tail.gamma = s->tail.gamma; q->tail.sigma = s->tail.sigma * f;
                q->tail.peaks.e = s->tail.peaks.e * f; q->tail.peaks.e2 = s->tail.peaks.e2 * f * f; q->tail.peaks.min = s->tail.peaks.min * f; q->tail.peaks.max = s->tail.peaks.max * f;
                u.cursor = v.cursor; u.filled = v.filled; u.last_erased_data = v.last_erased_data * f;
                if (u.data && v.data) for (unsigned long i = 0; i < (v.filled ? v.capacity : v.cursor); i++) u.data[i] = v.data[i] * f;
            };
            bool fit = r.kind == "fitg" || r.kind == "fitv";
            if (fit) {
                bool fin = true; std::set<double> dist(r.batch.begin(), r.batch.end());
                for (double x : r.batch) if (!std::isfinite(x)) fin = false;
                if (!fin) { if (mode == 2) { stop = true; return; } wild[r.slot] = 1; }
                bool ta = r.ret != -(int)ERR_EXCESS_THRESHOLD_IS_NAN, tb = rb.ret != -(int)ERR_EXCESS_THRESHOLD_IS_NAN;
                if (ta != tb) { bad("training defines the excess threshold only once"); return; }
                if (mode == 2 && !(r.batch.size() == 5 && dist.size() == 5)) {
                    if (ta) {
                        size_t n = r.batch.size();
                        if (n >= 30 && dist.size() > n * 9 / 10 && r.kind == "fitg" && op.w[7] == "-" && (op.w[2] == "gauss" || op.w[2] == "unif" || op.w[2] == "tri" || op.w[2] == "expo")) {
                            o.cnt["p:origin-rank-fit"]++;
                            double d = std::fabs(rank_of(r.batch, s->excess_threshold) - rank_of(r.batch, q->excess_threshold - C));
                            if (d > g_mirror_max) { g_mirror_max = d; if (getenv("SIM_DEBUG")) fprintf(stderr, "origin %g n=%zu level=%g %s\n", d, n, s->level, op.w[2].c_str()); }
                            if (d > 0.12 + 14.0 / (double)n) { bad("the training quantile moves (rank difference " + d2s(d) + ")"); return; }
                        }
                        CSpot *sm = a.slots[r.slot].s;
                        double t0 = std::nearbyint(sm->excess_threshold / g) * g;
                        if (!(std::fabs(t0) < lim)) { stop = true; return; }
                        sm->anomaly_threshold += t0 - sm->excess_threshold;
                        sm->excess_threshold = t0;
                    }
                    sync(true);
                    return;
                }
                o.nontrivial = true; o.cnt[mode == 1 ? "p:unit-fit" : "p:origin-fit"]++;
            }
            if (r.kind == "step") { if (std::isinf(r.x) && r.ret == EXCESS) { wild[r.slot] = 1; if (mode == 2) { stop = true; return; } } }
            if (fit || r.kind == "step") if (r.ret != rb.ret) {
                if (mode == 2 && r.kind == "step" && r.ret != -(int)ERR_DATA_IS_NAN && rb.ret != -(int)ERR_DATA_IS_NAN) {
                    // a reading within rounding of the anomaly threshold may fall on either side
                    double z = s->anomaly_threshold, big = std::max(std::max(std::fabs(r.x), std::fabs(m.x)), std::max(std::fabs(z), std::fabs(q->anomaly_threshold)));
                    if ((r.ret == ANOMALY || rb.ret == ANOMALY) && std::fabs(r.x - z) <= 8 * (std::nextafter(big, INFINITY) - big)) { stop = true; o.cnt["p:origin-on-threshold"]++; return; }
                    // the reading that was accepted has moved the threshold of its detector: nothing more to compare
                    if (r.ret == ANOMALY) { double z2 = s->anomaly_threshold; if (std::fabs(r.x - z2) <= 8 * (std::nextafter(big, INFINITY) - big)) { stop = true; return; } }
                    else if (rb.ret == ANOMALY) { double z2 = q->anomaly_threshold; if (std::fabs(m.x - z2) <= 8 * (std::nextafter(big, INFINITY) - big)) { stop = true; return; } }
                }
                bad("verdict " + num(r.ret) + " but " + num(rb.ret)); return;
            }
            if (r.kind == "prob" && !same(r.val, rb.val)) { bad("probability " + d2s(r.val) + " but " + d2s(rb.val)); return; }
            if (r.kind == "quant" && !at(r.val, rb.val)) { bad("quantile " + d2s(r.val) + " but " + d2s(rb.val)); return; }
            if (s->n != q->n || s->Nt != q->Nt) { bad("counts differ"); return; }
            if (!at(s->excess_threshold, q->excess_threshold)) { bad("excess thresholds differ"); return; }
            bool ex = fit || (r.kind == "step" && r.ret == EXCESS);
            if (ex) {
                o.nontrivial = true; o.cnt[mode == 1 ? "p:unit-excess" : "p:origin-excess"]++;
                auto wa = window(s), wb = window(q);
                if (wa.size() != wb.size()) { bad("retained excesses differ"); return; }
                for (size_t i = 0; i < wa.size(); i++) if (!same(mode == 1 ? tr(wa[i]) : wa[i], wb[i])) { bad("retained excesses differ"); return; }
                double sg = mode == 1 ? tr(s->tail.sigma) : s->tail.sigma;
                if (!same(s->tail.gamma, q->tail.gamma) || !same(sg, q->tail.sigma)) {
                    // candidates of equal likelihood may be told apart by rounding; both are right
                    if (wild[r.slot]) { stop = true; return; }
                    CSpot c = *q; c.tail.gamma = s->tail.gamma; c.tail.sigma = sg;
                    LD l1 = ll_of(&c, wb), l2 = ll_of(q, wb), mag = 1 + fabsl(logl(std::fabs(sg))) + fabsl((LD)K);
                    if (getenv("SIM_DEBUG")) fprintf(stderr, "tie n=%zu dl=%Lg rel=%Lg\n", wb.size(), l1 - l2, (l1 - l2) / wb.size() / mag);
                    o.cnt["p:tie"]++;
                    if (!(l1 == l2 || (std::isfinite(l1) && fabsl(l1 - l2) <= 1e-12L * wb.size() * mag + 1e-13L * fabsl(l1)))) { bad("tail parameters differ"); return; }
                    sync(true);
                    return;
                }
            }
            if (!at(s->anomaly_threshold, q->anomaly_threshold)) { bad("anomaly thresholds differ"); return; }
        };
        for (auto &op : t) { a.run(op); if (!o.viol.empty() || stop) break; }
    }
    A.reset(0);
}

// ---------------------------------------------------------------- C23: the share of a batch beyond the excess threshold
// spread of the P2 estimate, in ranks (worst median seen over 30000 runs: 0.85 of it)
static double share_scale(double n, double level) {
    double v = n * level * (1 - level);
    return 6 + 0.3 * std::sqrt(v) + 0.01 * v;
}
void exec_c23(const Trace &t, RunOut &o) {
    begin_process(0);
    {
        RecWorld w(o);
        w.keep = false;
        struct Share { double ratio; size_t n, beyond; double want; };
        std::vector<Share> grp[2];
        static const std::set<std::string> light = {"gauss", "unif", "tri", "expo", "gpdb", "lognorm"};
        w.onafter = [&](const Rec &r, const Op &op) {
            note_state(o, r, r.slot >= 0 ? w.slots[r.slot] : Slot());
            if (r.kind != "fitg" && r.kind != "fitv") return;
            const CSpot *s = w.slots[r.slot].s;
            size_t n = r.batch.size(), beyond = 0;
            std::set<double> dist(r.batch.begin(), r.batch.end());
            for (double x : r.batch) if (!std::isfinite(x)) return;
            if (dist.size() != n || r.ret == -(int)ERR_EXCESS_THRESHOLD_IS_NAN) return;
            double t0 = s->excess_threshold;
            if (n == 5) {
                o.cnt["p:middle-of-five"]++; o.nontrivial = true;
                auto it = dist.begin(); std::advance(it, 2);
                if (t0 != *it) viol(o, "C23", "training on five values puts the excess threshold at " + d2s(t0) + " instead of the middle one " + d2s(*it), w.opidx);
                return;
            }
            if (r.kind != "fitg" || n < 60 || !light.count(op.w[2]) || !(std::fabs(s->level - 0.5) < 0.49999)) return;
            bool sorted = op.w[7].find_first_of("AD") != std::string::npos;
            if (op.w[7] != "-" && !sorted) return;
            for (double x : r.batch) if (s->low ? x < t0 : x > t0) beyond++;
            double want = (double)n * (1 - s->level), err = std::fabs((double)beyond - want);
            if (getenv("SIM_DEBUG")) fprintf(stderr, "share %p n=%zu level=%g beyond=%zu want=%g %s\n", (void*)&t, n, s->level, beyond, want, op.w[2].c_str());
            o.cnt[sorted ? "p:share-sorted" : "p:share"]++; o.nontrivial = true;
            grp[sorted].push_back({err / share_scale((double)n, s->level), n, beyond, want});
            if (!sorted && n >= 500 && err > 0.2 * (double)n && op.w[2] != "lognorm" && op.w[2] != "gpdb")
                viol(o, "C23", "training on " + std::to_string(n) + " values leaves " + std::to_string(beyond) + " beyond the excess threshold instead of about " + d2s(want), w.opidx);
        };
        for (auto &op : t) { w.run(op); if (!o.viol.empty()) break; }
        for (int k = 0; k < 2 && o.viol.empty(); k++) {
            auto &v = grp[k];
            if (v.size() < 15) continue;
            std::sort(v.begin(), v.end(), [](const Share &a, const Share &b) { return a.ratio < b.ratio; });
            const Share &m = v[v.size() / 2];
            o.cnt["p:median"]++;
            if (m.ratio > g_mirror_max) { g_mirror_max = m.ratio; if (getenv("SIM_DEBUG2")) fprintf(stderr, "median %g of %zu (n=%zu beyond=%zu want=%g)\n", m.ratio, v.size(), m.n, m.beyond, m.want); }
            if (m.ratio > 1.4) viol(o, "C23", std::string("half of the ") + std::to_string(v.size()) + (k ? " trainings on sorted batches" : " trainings") + " leave too many or too few readings beyond the excess threshold, e.g. " + std::to_string(m.beyond) + " of " + std::to_string(m.n) + " instead of about " + d2s(m.want), (long)t.size());
        }
    }
    A.reset(0);
}
void exec_diff(const std::string &prop, const Trace &t, RunOut &o) {
    if (prop == "C03") exec_c03(t, o);
    else if (prop == "C08") exec_c08(t, o);
    else if (prop == "C12") exec_c12(t, o);
    else if (prop == "C14") exec_c14(t, o);
    else if (prop == "C15") exec_c15(t, o);
    else if (prop == "C16") exec_c16(t, o);
    else if (prop == "C17") exec_c17(t, o);
    else if (prop == "C22") exec_c22(t, o);
    else if (prop == "C23") exec_c23(t, o);
}
