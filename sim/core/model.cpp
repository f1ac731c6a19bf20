// Lock-step reference model and invariants for the single-history properties C01-C07, C09-C11.
#include "world.hpp"
#include <deque>
#include <algorithm>
typedef long double LD;

struct Mod {
    std::deque<double> win; u64 n = 0, Nt = 0; unsigned long cap = 0; bool known = false;
    double q = 0, level = 0; bool low = false, disc = false;
};
static LD gpd_ll(const std::vector<double> &w, LD g, LD s) {
    if (!(s > 0)) return -INFINITY;
    LD n = w.size();
    if (g == 0) { LD e = 0; for (double x : w) e += x; return -n * logl(s) - e / s; }
    LD r = -n * logl(s), c = 1 + 1 / g;
    for (double x : w) {
        LD a = 1 + g * x / s;
        if (!(a > 0)) return -INFINITY;
        r -= c * log1pl(g * x / s);
    }
    return r;
}
static LD grim_w(const std::vector<double> &w, LD x) {
    LD u = 0, v = 0, n = w.size();
    for (double y : w) { LD s = 1 + x * y; u += 1 / s; v += log1pl(x * y); }
    return (u / n) * (1 + v / n) - 1;
}
// likelihood of a stationary point the interval [a,b] clearly brackets, or -inf
static LD bracketed(const std::vector<double> &w, LD a, LD b, LD E) {
    if (!(a < b)) return -INFINITY;
    LD wa = grim_w(w, a), wb = grim_w(w, b);
    // the signs at both ends must be beyond the rounding noise of a double evaluation (about 3e-16 for any window)
    LD noise = 4e-15L + 3e-16L * sqrtl((LD)w.size());
    if (!(fabsl(wa) > noise && fabsl(wb) > noise) || (wa > 0) == (wb > 0)) return -INFINITY;
    // a single sign change, and no other approach to zero, on a fine grid
    const int N = 160;
    int changes = 0; LD pw = wa, px = a, lo = a, hi = b; bool falling = false;
    for (int i = 1; i <= N; i++) {
        LD x = a * powl(b / a, (LD)i / N);       // geometric spacing towards the end nearer to zero
        if (i == N) x = b;
        LD c = grim_w(w, x);
        bool cross = (c > 0) != (pw > 0);
        if (cross) { changes++; lo = px; hi = x; falling = false; }
        else if (fabsl(c) < fabsl(pw)) falling = true;
        else if (falling) return -INFINITY;      // |W| has an interior minimum: further roots may hide there
        if (fabsl(c) < noise && i < N) return -INFINITY;
        pw = c; px = x;
    }
    if (changes != 1) return -INFINITY;
    LD wl = grim_w(w, lo);
    for (int i = 0; i < 60; i++) { LD m = (lo + hi) / 2, c = grim_w(w, m); if ((c > 0) == (wl > 0)) lo = m; else hi = m; }
    LD xs = (lo + hi) / 2, best = INFINITY;
    LD dx = 4e-8L / E + 8e-8L * fabsl(xs);         // the root search's own tolerance
    for (int k = -1; k <= 1; k++) {
        LD x = xs + k * dx, v = 0;
        if (!(x > a && x < b)) return -INFINITY;
        for (double y : w) v += log1pl(x * y);
        LD g = v / (LD)w.size();
        best = std::min(best, gpd_ll(w, g, g / x));
    }
    return best;
}

struct ModelWorld : World {
    std::string P; std::vector<Mod> mods;
    CSpot pre; std::vector<double> predata; std::vector<Fp> prefp; std::vector<u64> others;
    bool need_snap = false; u64 c09n = 0;
    ModelWorld(const std::string &p, RunOut &o) : World(o), P(p) { mods.resize(slots.size()); }
    void v(const char *prop, const std::string &m) { if (P == prop && o.viol.empty()) o.viol.push_back({prop, m, opidx}); }
    static std::string d2s(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

    void before(const Op &, Rec &r) override {
        if (r.slot >= 0 && slots[r.slot].s) {
            memcpy(&pre, slots[r.slot].s, sizeof pre);
            predata.clear();
            if (slots[r.slot].live && (P == "C11" || P == "C08")) predata = window(slots[r.slot].s);
        }
        others.clear();
        if (P == "C10") for (auto &s : slots) others.push_back(s.live ? mix(dbits(s.s->anomaly_threshold), dbits(s.s->excess_threshold)) : 0);
    }
    void state(const Rec &r) {
        if (r.slot < 0 || !slots[r.slot].live) { o.states.insert(mix(std::hash<std::string>()(r.kind), (u64)(r.ret + 5000))); return; }
        const CSpot *s = slots[r.slot].s;
        auto bucket = [](double x) -> u64 { if (x != x) return 99; if (std::isinf(x)) return 98; if (x == 0) return 50; int e; std::frexp(x, &e); return (u64)(50 + (x < 0 ? -1 : 1) * (std::min(std::max(e / 3, -8), 8) + 9)); };
        u64 h = mix(std::hash<std::string>()(r.kind), (u64)(r.ret + 5000));
        h = mix(h, (u64)(s->tail.peaks.container.filled != 0) * 7 + (s->low != 0) * 3 + (s->discard_anomalies != 0));
        h = mix(h, std::min<u64>(retained(s), 12));
        h = mix(h, bucket(s->tail.gamma)); h = mix(h, bucket(s->tail.sigma));
        h = mix(h, (u64)(s->n >= (1ull << 32)) * 2 + (s->Nt >= (1ull << 32)));
        o.states.insert(h);
    }
    void after(const Op &op, Rec &r) override {
        (void)op;
        for (auto &e : A.errors) { v("C02", e); v("C01", e); if (r.kind == "free" && r.wasfailed) v("C03", "a detector whose allocation failed cannot be freed: " + e); }
        if (P == "C01" || P == "C02") { std::string why; if (!A.check_canaries(&why)) v("C01", why); }
        if (!r.textok) v("C01", r.kind == "text" ? "a text call wrote outside the buffer it was given" : "training data was modified");
        if (P == "C10") {
            for (size_t i = 0; i < slots.size(); i++)
                if ((int)i != r.slot && slots[i].live && others[i] != mix(dbits(slots[i].s->anomaly_threshold), dbits(slots[i].s->excess_threshold)))
                    v("C10", "thresholds of another detector changed during " + r.kind);
        }
        if (r.kind != "init" && r.kind != "free") {
            if (r.mallocs) v("C02", r.kind + " allocated memory");
            if (r.frees) v("C02", r.kind + " released memory");
        }
        if (r.kind == "init") after_init(r);
        else if (r.kind == "free") after_free(r);
        else if (r.kind == "fitg" || r.kind == "fitv") after_fit(r);
        else if (r.kind == "step") after_step(r);
        else if (r.kind == "quant" || r.kind == "prob") after_query(r);
        else if (r.kind == "age") { Mod &m = mods[r.slot]; m.n += r.dn + r.dNt; m.Nt += r.dNt; }
        if (r.slot >= 0 && slots[r.slot].live) {
            check_counts(r); check_window(r); check_stats(r);
        }
        state(r);
    }
    void after_init(Rec &r) {
        Slot &sl = slots[r.slot]; Mod &m = mods[r.slot];
        bool lev = r.level >= 0 && r.level < 1, qq = lev && r.q > 0 && r.q < 1 - r.level, qbad = !(r.q > 0 && r.q < 1);
        bool rep = r.cap >= 1 && r.cap <= (~0ul) / 8;
        if (lev && qq && rep && r.failed == 0) { if (r.ret != 0) v("C03", "valid initialisation refused with " + num(r.ret)); }
        else {
            if (r.ret == 0) v("C03", "initialisation accepted although " + std::string(!lev ? "level is out of bounds" : !qq ? "q is out of bounds" : !rep ? "the capacity is zero or not representable" : "the allocation failed") + " (q=" + d2s(r.q) + " level=" + d2s(r.level) + " max_excess=" + std::to_string(r.cap) + ")");
            else if (!lev) { if (r.ret != -(int)ERR_LEVEL_OUT_OF_BOUNDS && !(qbad && r.ret == -(int)ERR_Q_OUT_OF_BOUNDS)) v("C03", "bad level reported as " + num(r.ret)); }
            else if (!qq) { if (r.ret != -(int)ERR_Q_OUT_OF_BOUNDS) v("C03", "bad q reported as " + num(r.ret)); }
            else if (r.ret != -(int)ERR_MEMORY_ALLOCATION_FAILED) v("C03", "missing memory reported as " + num(r.ret));
            if (!lev || !qq) {
                if (r.mallocs) v("C03", "a refused initialisation allocated");
                if (memcmp(&pre, sl.s, sizeof pre) != 0) v("C03", "a refused initialisation changed the detector");
            }
        }
        // ledger
        size_t live = 0;
        for (auto &b : A.blocks) if (b.live && b.owner == r.slot) live++;
        if (r.ret != 0 && !sl.live && live) { v("C02", "a failed initialisation keeps memory"); }
        if (r.ret == 0) {
            if (!live) v("C02", "initialisation succeeded without obtaining memory");
            const CSpot *s = sl.s;
            if (s->n || s->Nt || retained(s) || s->anomaly_threshold == s->anomaly_threshold || s->excess_threshold == s->excess_threshold) v("C03", "a fresh detector has already seen data: " + describe(s));
            if (r.req < r.cap * 8 && r.mallocs == 1) { v("C01", "buffer smaller than the capacity"); v("C03", "buffer smaller than the capacity"); }
            m = Mod(); m.cap = r.cap; m.q = r.q; m.level = r.level; m.low = r.low != 0; m.disc = r.disc != 0; m.known = true;
            if (s->q != r.q || s->level != r.level || (s->low != 0) != m.low || (s->discard_anomalies != 0) != m.disc || s->tail.peaks.container.capacity != r.cap)
                v("C03", "the accepted configuration is not the requested one (q=" + d2s(r.q) + " level=" + d2s(r.level) + " low=" + num(r.low) + " discard=" + num(r.disc) + " max_excess=" + std::to_string(r.cap) + "): " + describe(s));
        }
    }
    void after_free(Rec &r) {
        size_t live = 0;
        for (auto &b : A.blocks) if (b.live && b.owner == r.slot) live++;
        if (live) v("C02", "freeing a detector left " + num((long)live) + " of its blocks allocated");
        if (r.mallocs) v("C02", "freeing allocated memory");
        mods[r.slot] = Mod();
    }
    void push(Mod &m, double ex) { m.win.push_back(ex); if (m.win.size() > m.cap) m.win.pop_front(); }
    void after_fit(Rec &r) {
        Mod &m = mods[r.slot]; CSpot *s = slots[r.slot].s;
        o.nontrivial = true;
        size_t n = r.batch.size();
        double mn = INFINITY, mx = -INFINITY; bool fin = true;
        for (double x : r.batch) { if (!std::isfinite(x)) fin = false; mn = std::min(mn, x); mx = std::max(mx, x); }
        bool spread = fin && n && std::isfinite((mx - mn) * 1024);
        // C10
        if (r.ret == 0) {
            o.cnt["p:fit-ok"]++;
            if (s->excess_threshold != s->excess_threshold || s->anomaly_threshold != s->anomaly_threshold) v("C10", "training reported success although a threshold is not a number: " + describe(s));
            if (n == 0) v("C10", "training on no data reported success");
            if (spread && (s->excess_threshold < mn || s->excess_threshold > mx)) v("C10", "excess threshold " + d2s(s->excess_threshold) + " is outside the range [" + d2s(mn) + ", " + d2s(mx) + "] of the training batch");
        } else if (r.ret == -(int)ERR_EXCESS_THRESHOLD_IS_NAN) {
            o.cnt["p:fit-t-nan"]++;
            if (spread && n >= 5) v("C10", "training on a finite batch of " + num((long)n) + " reported an undefined excess threshold");
        } else if (r.ret == -(int)ERR_ANOMALY_THRESHOLD_IS_NAN) {
            o.cnt["p:fit-z-nan"]++;
            if (s->anomaly_threshold == s->anomaly_threshold) v("C10", "training reported an undefined anomaly threshold but it is " + d2s(s->anomaly_threshold));
            if (s->excess_threshold != s->excess_threshold) v("C10", "training reported an undefined anomaly threshold but the excess threshold is undefined");
            if (spread && n && (s->excess_threshold < mn || s->excess_threshold > mx)) v("C10", "excess threshold " + d2s(s->excess_threshold) + " is outside the range of the training batch");
        } else v("C10", "training returned the undocumented code " + num(r.ret));
        if (r.ret == -(int)ERR_EXCESS_THRESHOLD_IS_NAN || (r.ret != 0 && r.ret != -(int)ERR_ANOMALY_THRESHOLD_IS_NAN)) { m.n = s->n; m.Nt = s->Nt; return; }
        double t = s->excess_threshold; bool low = m.low;
        m.n = n; m.Nt = 0;
        for (double x : r.batch) {
            double ex = low ? t - x : x - t;
            if (ex > 0) { m.Nt++; push(m, ex); }
        }
        if (r.ret == 0) check_threshold(r, "training");
        check_fit_quality(r);
    }
    void after_step(Rec &r) {
        Mod &m = mods[r.slot]; CSpot *s = slots[r.slot].s;
        double x = r.x, t = pre.excess_threshold, z = pre.anomaly_threshold;
        bool low = m.low, disc = m.disc;
        int want; bool either = false;
        if (x != x) want = -(int)ERR_DATA_IS_NAN;
        else if (disc && (low ? x < z : x > z)) want = ANOMALY;
        else if (low ? x <= t : x >= t) { want = EXCESS; if (std::isinf(x) && x == t) either = true; }
        else want = NORMAL;
        if (r.ret != want && !(either && r.ret == NORMAL)) v("C04", "reading " + d2s(x) + " with t=" + d2s(t) + " z=" + d2s(z) + (low ? " (low)" : " (up)") + (disc ? " discarding" : " not discarding") + " judged " + num(r.ret) + " instead of " + num(want));
        o.cnt["v:" + num(r.ret)]++;
        if (r.ret == EXCESS) {
            m.n++; m.Nt++;
            double ex = low ? t - x : x - t;
            push(m, ex);
            check_threshold(r, "an excess");
            check_fit_quality(r);
        } else {
            if (r.ret == NORMAL) m.n++;
            if (!same(s->anomaly_threshold, z)) v("C10", "the anomaly threshold changed from " + d2s(z) + " to " + d2s(s->anomaly_threshold) + " on a reading judged " + num(r.ret));
        }
        if (!same(s->excess_threshold, t)) v("C10", "a reading changed the excess threshold");
    }
    // absolute error allowed for the built-in logarithm (the project's own tests ask for 1e-10)
    static LD log_err(double x) { return x >= 0.5 && x < 2 ? 4e-16L : 1.5e-10L; }
    // exact quantile distance with an error bound for double evaluation
    static bool quantile_of(const CSpot *s, double q, LD *d, LD *tol) {
        LD sr = (LD)s->Nt / (LD)s->n, g = s->tail.gamma, sg = s->tail.sigma;
        if (!(sg > 0) || !std::isfinite(s->tail.sigma) || !std::isfinite(s->tail.gamma) || !(sr > 0) || !(q > 0)) return false;
        LD lr = logl((LD)q / sr);
        LD el = log_err(q / (double)sr) + 5e-324L / ((LD)q / sr);     // the second term: q/s may be subnormal
        if (el > 0.1L) return false;
        if (g == 0) { *d = -sg * lr; *tol = sg * (el + 1e-14L + 1e-13L * fabsl(lr)); }
        else {
            LD a = -g * lr;
            if (a > 700 || a < -700) return false;
            LD p = expl(a);
            *d = (sg / g) * expm1l(a);
            *tol = sg / fabsl(g) * fmaxl(p, 1) * (2e-14L + 1e-14L * fabsl(a)) + fabsl(*d) * 1e-13L + sg * p * el;
        }
        return std::isfinite((double)*d) && std::fabs((double)*d) < 1e300;
    }
    void check_threshold(Rec &r, const char *when) {
        if (P != "C10") return;
        const CSpot *s = slots[r.slot].s;
        double z = s->anomaly_threshold, t = s->excess_threshold;
        double zq = L.quantile(s, mods[r.slot].q);
        if (!same(z, zq) && !(std::isfinite(z) && std::isfinite(zq) && std::fabs(z - zq) <= 1e-9 * (std::fabs(z) + std::fabs(zq)))) v("C10", std::string("after ") + when + " the anomaly threshold is " + d2s(z) + " but the quantile of q is " + d2s(zq));
        LD d, tol;
        if (!std::isfinite(t) || !quantile_of(s, mods[r.slot].q, &d, &tol)) return;
        o.cnt["p:z-model"]++;
        LD ez = (LD)t + (s->low ? -d : d);
        tol = tol * 8 + 1e-14L * (fabsl(ez) + fabsl((LD)t)) + 1e-320L;
        if (!(fabsl((LD)z - ez) <= tol)) v("C10", std::string("after ") + when + " the anomaly threshold is " + d2s(z) + " but the model implies " + d2s((double)ez) + ": " + describe(s));
        double sr = (double)s->Nt / (double)s->n;
        if (s->q < sr * (1 - 1e-12)) {
            LD beyond = s->low ? (LD)t - z : (LD)z - t;
            if (!(beyond >= -tol)) v("C10", std::string("after ") + when + " the anomaly threshold " + d2s(z) + " is not beyond the excess threshold " + d2s(t));
        }
    }
    void check_fit_quality(Rec &r) {
        if (P != "C09") return;
        const CSpot *s = slots[r.slot].s;
        std::vector<double> w;
        unsigned long n = retained(s);
        if (n < 2 || n > 4096) return;
        w.assign(s->tail.peaks.container.data, s->tail.peaks.container.data + n);
        LD e = 0, e2 = 0; double mx = 0, mn = INFINITY;
        for (double x : w) { if (!std::isfinite(x) || x < 0) return; e += x; mx = std::max(mx, x); mn = std::min(mn, x); }
        if (!(mx > 1e-60 && mx < 1e60)) return;
        LD E = e / n;
        for (double x : w) e2 += (x - E) * (x - E);
        LD V = e2 / n;
        if (!(V / (E * E) > 1e-3L)) return;
        double g = s->tail.gamma, sg = s->tail.sigma;
        o.cnt["p:fit-checked"]++;
        if (!std::isfinite(g) || !std::isfinite(sg) || !(sg > 0)) { v("C09", "tail parameters gamma=" + d2s(g) + " sigma=" + d2s(sg) + " for " + num((long)n) + " ordinary excesses: " + describe(s)); return; }
        LD ll = gpd_ll(w, g, sg);
        LD edge = 1 + (LD)g * mx / sg;
        if (g < -1 && fabsl(edge) < 1e-12L) ll = INFINITY;    // the density is infinite at the end of the support
        else if (!(edge > 0)) { v("C09", "a retained excess has no density under gamma=" + d2s(g) + " sigma=" + d2s(sg) + ": " + describe(s)); return; }
        LD R = E * E / V, mg = 0.5L * (1 - R), ms = 0.5L * E * (1 + R);
        LD lexp = gpd_ll(w, 0, E), lmom = gpd_ll(w, mg, ms);
        LD tol = 1e-7L * n + 1e-9L * fabsl(ll);
        if (!(ll >= lexp - tol)) v("C09", "the exponential model is likelier: " + d2s((double)lexp) + " > " + d2s((double)ll) + " for " + describe(s));
        if (lmom > -INFINITY && !(ll >= lmom - tol)) v("C09", "the moment-matching model is likelier: " + d2s((double)lmom) + " > " + d2s((double)ll) + " for " + describe(s));
        if (g < 0) o.cnt["p:gamma-neg"]++; else if (g > 0) o.cnt["p:gamma-pos"]++; else o.cnt["p:gamma-zero"]++;
        if (lmom > lexp) o.cnt["p:mom-beats-exp"]++;
        if ((c09n++ & 3) == 0 && n >= 3 && mn > (n <= 600 ? 1e-4 : 1e-6) * mx) {
            // anything well inside the standard intervals counts, whatever margins the library itself keeps
            LD eps = std::min((LD)2e-8L / E, 0.5L / mx), near = std::min((LD)2e-5L / E, 0.5L / mx);
            // W turns negative again next to -1/max: the left interval brackets only if its sign is settled there
            bool settled = eps < 0.1L / mx; LD sg0 = 0;
            for (int k = 0; settled && k <= 24; k++) {
                LD f = grim_w(w, -1.0L / mx + eps * 0.5L * powl(0.5L / mx / eps, k / 24.0L));
                if (k == 0) sg0 = f; else if (k <= 12 && ((f > 0) != (sg0 > 0) || fabsl(f) < 1e-9L)) settled = false;
            }
            LD l1 = !settled ? -(LD)INFINITY : bracketed(w, -1.0L / mx + eps, -near, E), l2 = bracketed(w, near, 2 * (E - mn) / ((LD)mn * mn), E);
            LD lb = std::max(l1, l2);
            if (lb > -INFINITY) {
                o.cnt["p:stationary"]++;
                LD t2 = 1e-7L * n + 1e-9L * fabsl(ll);
                if (!(ll >= lb - t2)) v("C09", "a bracketed stationary point is likelier: " + d2s((double)lb) + " > " + d2s((double)ll) + " for " + describe(s));
            }
        }
    }
    void after_query(Rec &r) {
        const CSpot *s = slots[r.slot].s;
        if (P == "C10") { if (!same(s->anomaly_threshold, pre.anomaly_threshold) || !same(s->excess_threshold, pre.excess_threshold)) v("C10", "a query changed a threshold"); }
        if (P != "C11") return;
        if (memcmp(&pre, s, sizeof pre) != 0 || predata != window(s)) { bool nanonly = predata.size() == window(s).size(); if (memcmp(&pre, s, sizeof pre) != 0 || !nanonly) v("C11", "a query changed the detector"); }
        double g = s->tail.gamma, sg = s->tail.sigma, t = s->excess_threshold;
        if (!std::isfinite(g) || !std::isfinite(sg) || !(sg > 0) || !std::isfinite(t) || !s->n || !s->Nt) return;
        LD sr = (LD)s->Nt / (LD)s->n;
        double ud = s->low ? -1 : 1;
        if (r.kind == "quant") {
            double q = r.x;
            if (!(q > 0) || !((LD)q < sr)) return;
            LD d, tol;
            if (!quantile_of(s, q, &d, &tol)) return;
            o.cnt["p:quantile"]++;
            LD ez = (LD)t + ud * d;
            LD ztol = 8 * tol + 1e-14L * (fabsl(ez) + fabsl((LD)t)) + 1e-320L;
            if (!(fabsl((LD)r.val - ez) <= ztol)) v("C11", "quantile(" + d2s(q) + ") = " + d2s(r.val) + " but the model gives " + d2s((double)ez) + ": " + describe(s));
            // monotone
            double q2 = q * 0.5, z2 = L.quantile(s, q2);
            LD d2, tol2;
            if (quantile_of(s, q2, &d2, &tol2) && !(ud * ((LD)z2 - r.val) >= -(ztol + 8 * tol2))) v("C11", "quantile moves back as the probability decreases: " + d2s(r.val) + " then " + d2s(z2));
            // round trip
            double p = L.probability(s, r.val);
            LD slope = (LD)sg + (LD)g * d;    // -p/p'(d)
            if (slope > 0) {
                LD rel = (ztol + 1e-14L * fabsl((LD)r.val)) / slope + prob_tol(s, d, 0);
                if (rel < 0.5 && !(fabsl((LD)p - q) <= 4 * rel * q + 1e-300L)) v("C11", "probability(quantile(" + d2s(q) + ")) = " + d2s(p) + ": " + describe(s));
                else if (rel < 0.5) o.cnt["p:roundtrip"]++;
            }
        } else {
            double z = r.x;
            if (z != z) return;
            LD d = ud * ((LD)z - t);
            if (!(d >= 0)) return;
            double p = r.val;
            o.cnt["p:probability"]++;
            if (p != p) { v("C11", "probability(" + d2s(z) + ") is not a number: " + describe(s)); return; }
            LD tl = prob_tol(s, d, 0);
            if (tl > 0.5L) tl = 0.5L;
            if (!(p >= 0) || !((LD)p <= sr * (1 + 1e-9L + 4 * (d == 0 ? 0 : tl)))) { v("C11", "probability(" + d2s(z) + ") = " + d2s(p) + " is outside [0, " + d2s((double)sr) + "]: " + describe(s)); return; }
            LD ep;
            if (g == 0) ep = sr * expl(-d / sg);
            else { LD a = 1 + (LD)g * d / sg; ep = a > 0 ? sr * expl(-log1pl((LD)g * d / sg) / g) : 0; }
            LD tol = prob_tol(s, d, 0);
            if (tol < 0.5L) { if (!(fabsl((LD)p - ep) <= 4 * tol * ep + 1e-300L)) v("C11", "probability(" + d2s(z) + ") = " + d2s(p) + " but the model gives " + d2s((double)ep) + ": " + describe(s)); }
            if (ep == 0 && g < 0 && 1 + (LD)g * d / sg < -1e-9L && p > 1e-300) v("C11", "probability beyond the support is " + d2s(p));
            // further out, never larger
            double zs[3] = {t + ud * (double)(d * 1.5L + sg), t + ud * 1e300, (double)(ud * INFINITY)};
            LD prev = p, pd = d;
            for (double z2 : zs) {
                LD d2 = ud * ((LD)z2 - t);
                if (!(d2 >= pd)) continue;
                pd = d2;
                double p2 = L.probability(s, z2);
                LD t2 = prob_tol(s, d2, 0);
                if (p2 != p2 || p2 < 0) { v("C11", "probability(" + d2s(z2) + ") = " + d2s(p2) + ": " + describe(s)); break; }
                LD slack = (tol < 0.5L ? tol : 0.5L) + (t2 < 0.5L ? t2 : 0.5L);
                if (!((LD)p2 <= prev * (1 + 8 * slack) + 1e-300L)) { v("C11", "probability grows further out: " + d2s((double)prev) + " then " + d2s(p2) + " at " + d2s(z2) + ": " + describe(s)); break; }
                prev = p2;
            }
        }
    }
    // relative error bound of a double evaluation of the probability at distance d
    static LD prob_tol(const CSpot *s, LD d, int) {
        LD g = s->tail.gamma, sg = s->tail.sigma;
        LD t = fabsl((LD)s->excess_threshold);
        LD ed = 3e-16L * (d + t);                 // error of z - t
        if (g == 0) { LD res = 1e-13L + 1e-14L * d / sg + ed / sg; return res == res ? res : 10; }
        LD a = 1 + g * d / sg;
        if (!(a > 0) || a > 1e300L) return 10;
        LD rel1 = (4e-16L * (1 + fabsl(g * d / sg)) + fabsl(g) * ed / sg) / a;   // of 1+r
        if (!(rel1 < 0.1L)) return 10;
        LD res = 1e-13L + (rel1 + 2e-14L * fabsl(logl(a)) + log_err((double)a)) / fabsl(g);
        return res == res ? res : 10;
    }
    void check_counts(Rec &r) {
        if (P != "C05") return;
        Mod &m = mods[r.slot]; const CSpot *s = slots[r.slot].s;
        if (!m.known) return;
        if (s->n != m.n || s->Nt != m.Nt) v("C05", "counters n=" + std::to_string(s->n) + " Nt=" + std::to_string(s->Nt) + " after " + r.kind + ", but " + std::to_string(m.n) + " data and " + std::to_string(m.Nt) + " excesses entered the model");
    }
    void check_window(Rec &r) {
        if (P != "C06") return;
        Mod &m = mods[r.slot]; const CSpot *s = slots[r.slot].s;
        if (!m.known) return;
        unsigned long n = retained(s);
        if (n != m.win.size()) { v("C06", num((long)n) + " excesses are retained after " + r.kind + " but the last " + num((long)m.win.size()) + " should be"); return; }
        if (n > 600 && r.kind == "step" && (o.steps % 37)) return;
        std::vector<double> a = window(s), b(m.win.begin(), m.win.end());
        auto lt = [](double x, double y) { return x < y; };
        std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
        for (size_t i = 0; i < n; i++) if (!same(a[i], b[i])) { v("C06", "the retained excesses are not the most recent ones after " + r.kind + ": found " + d2s(a[i]) + " where " + d2s(b[i]) + " is expected (sorted position " + num((long)i) + " of " + num((long)n) + ")"); return; }
    }
    void check_stats(Rec &r) {
        if (P != "C07") return;
        if (r.kind != "step" && r.kind != "fitg" && r.kind != "fitv") return;
        const CSpot *s = slots[r.slot].s;
        const struct Peaks &p = s->tail.peaks;
        unsigned long n = retained(s);
        if (!n) return;
        if (n > 600 && r.kind == "step" && (o.steps % 37)) return;
        LD e = 0, e2 = 0; double mn = INFINITY, mx = -INFINITY;
        for (unsigned long i = 0; i < n; i++) { double x = p.container.data[i]; e += x; e2 += (LD)x * x; if (x < mn) mn = x; if (x > mx) mx = x; }
        o.cnt["p:stats"]++;
        if (!same(p.min, mn)) v("C07", "minimum is " + d2s(p.min) + " but the smallest retained excess is " + d2s(mn) + " after " + r.kind);
        if (!same(p.max, mx)) v("C07", "maximum is " + d2s(p.max) + " but the largest retained excess is " + d2s(mx) + " after " + r.kind);
        if (fabsl(e) < 1e306L && !(fabsl((LD)p.e - e) <= 1e-9L * fabsl(e) + 1e-305L)) v("C07", "sum is " + d2s(p.e) + " but the retained excesses sum to " + d2s((double)e) + " after " + r.kind);
        if (fabsl(e2) < 1e306L && !(fabsl((LD)p.e2 - e2) <= 1e-9L * fabsl(e2) + 1e-305L)) v("C07", "sum of squares is " + d2s(p.e2) + " but that of the retained excesses is " + d2s((double)e2) + " after " + r.kind);
    }
    void finish() {
        if (P == "C02") {
            for (auto &b : A.blocks) if (b.live && b.owner >= 0 && !slots[b.owner].live) { v("C02", "a block outlives its detector"); break; }
        }
    }
};
void exec_model(const std::string &prop, const Trace &t, RunOut &o) {
    begin_process(0);
    {
        ModelWorld w(prop, o);
        for (auto &op : t) { w.run(op); if (!o.viol.empty()) break; }
        w.finish();
        // the end of the program: everything still alive is freed
        if (o.viol.empty())
            for (size_t i = 0; i < w.slots.size(); i++) if (w.slots[i].live) { Rec r; r.kind = "free"; r.slot = (int)i; w.apply(Op{"free", num((long)i)}, r); }
        if (o.viol.empty()) w.finish();
    }
    A.reset(0);
}
