#include "world.hpp"

double ulps(double x, long n, double dir) {
    if (!std::isfinite(x)) return x;
    double to = dir > 0 ? INFINITY : -INFINITY;
    if (n < 0) { to = -to; n = -n; }
    for (long i = 0; i < n; i++) x = std::nextafter(x, to);
    return x;
}
void begin_process(u64 garb) { lib_reset(); A.reset(garb); register_pool(0); I = Inst(); }

double World::value(int slot, const std::string &tok) {
    const CSpot *s = slots[slot].s;
    double t = s->excess_threshold, z = s->anomaly_threshold, g = s->tail.gamma, sg = s->tail.sigma;
    double ud = s->low ? -1.0 : 1.0;
    char k = tok[0];
    auto isk = [&](const char *ks) { return strchr(ks, k) != nullptr; };
    if (!isk("TZEQSM")) return parsed(tok);
    std::string rest = tok.substr(1);
    if (k == 'T') return ulps(t != t ? 0 : t, atol(rest.c_str()), ud);
    if (k == 'Z') return ulps(z != z ? 1 : z, atol(rest.c_str()), ud);
    double v = parsed(rest);
    if (t != t) return v;
    if (k == 'E') return t + ud * v;
    if (k == 'Q') { double d = z - t; if (!std::isfinite(d)) return t + ud * v; return t + v * d; }
    if (!(sg > 0) || !std::isfinite(sg)) return t + ud * v;
    if (k == 'S') return t + ud * v * sg;
    if (g < 0) return t + ud * v * (-sg / g);
    return t + ud * v * sg * 10;
}
bool World::resolve(const Op &op, Rec &r) {
    const auto &w = op.w;
    r.kind = op.k();
    auto need = [&](size_t n) { return w.size() >= n; };
    auto slot = [&](size_t i) { r.slot = (int)(strtoul(w[i].c_str(), nullptr, 10) % slots.size()); };
    for (auto &x : w) if (x[0] == '#') { if (!o.cnt.count(x.substr(1))) o.cnt[x.substr(1)] = 0; }
    if (r.kind == "garb" || r.kind == "failalloc" || r.kind == "pool") return need(2);
    if (r.kind == "note" || r.kind == "unreg" || r.kind == "frame") return true;
    if (r.kind == "text") return need(4);
    if (!need(2)) return false;
    if (r.kind == "init") {
        if (!need(8)) return false;
        slot(1);
        r.q = parsed(w[2]); r.low = atoi(w[3].c_str()); r.disc = atoi(w[4].c_str()); r.level = parsed(w[5]);
        r.cap = strtoul(w[6].c_str(), nullptr, 10); r.garb = strtoul(w[7].c_str(), nullptr, 10);
        if (mirror) r.low = !r.low;
        return true;
    }
    slot(1);
    Slot &sl = slots[r.slot];
    if (r.kind == "free") return sl.live || sl.failed_alloc;
    if (!sl.live) return false;
    if (r.kind == "fitg") {
        if (!need(8)) return false;
        r.batch = gen_batch(w[2], strtoul(w[3].c_str(), nullptr, 10), atol(w[4].c_str()), parsed(w[5]), parsed(w[6]), w[7]);
        return true;
    }
    if (r.kind == "fitv") { for (size_t i = 2; i < w.size(); i++) if (w[i][0] != '#') r.batch.push_back(parsed(w[i])); return true; }
    if (r.kind == "step" || r.kind == "prob") { if (!need(3)) return false; r.x = value(r.slot, w[2]); return true; }
    if (r.kind == "quant") {
        if (!need(3)) return false;
        if (w[2].compare(0, 2, "s*") == 0) r.x = (double)sl.s->Nt / (double)sl.s->n * parsed(w[2].substr(2));
        else r.x = parsed(w[2]);
        return true;
    }
    if (r.kind == "age") {   // a number of readings to add, or "^" and the count to reach
        if (!need(4)) return false;
        auto amount = [&](const std::string &t, u64 cur, u64 also) -> u64 {
            if (t[0] != '^') return strtoul(t.c_str(), nullptr, 10);
            u64 v = strtoul(t.c_str() + 1, nullptr, 10);
            return v > cur + also ? v - cur - also : 0;
        };
        // excesses can only have come and gone if the window is full
        r.dNt = sl.s->tail.peaks.container.filled ? amount(w[3], sl.s->Nt, 0) : 0;
        r.dn = amount(w[2], sl.s->n, r.dNt);
        return sl.trained && sl.s->n + r.dn + r.dNt >= sl.s->Nt + r.dNt;
    }
    return r.kind == "burst";
}
void World::call(const std::function<void()> &f, Rec &r) {
    scrub_stack(A.garbage);
    if (!prot) { f(); return; }
    u64 e0 = I.edges, a0 = I.access;
    I.edge_limit = budget ? I.edges + budget(r) : 0;
    r.guard = guarded(f);
    I.edge_limit = 0;
    r.edges = I.edges - e0; r.access = I.access - a0;
}
void World::run(const Op &op) {
    opidx++;
    if (op.w.empty() || op.k()[0] == '#') return;
    if (op.k() == "burst") {
        if (op.w.size() < 6) return;
        int s = (int)(strtoul(op.w[1].c_str(), nullptr, 10) % slots.size());
        if (!slots[s].live) return;
        for (auto &x : op.w) if (x[0] == '#') o.cnt[x.substr(1)]++;
        auto v = gen_batch(op.w[2], strtoul(op.w[3].c_str(), nullptr, 10), atol(op.w[4].c_str()), parsed(op.w[5]), 0, "-");
        for (double x : v) {
            if (tired(s)) break;
            const CSpot *sp = slots[s].s;
            double t = sp->excess_threshold;
            Op st{"step", num(s), hexd(t != t ? x : t + (sp->low ? -x : x))};
            Rec r;
            if (resolve(st, r) && (!filter || filter(r))) apply(st, r);
        }
        return;
    }
    Rec r;
    if (!resolve(op, r) || (r.kind == "step" && tired(r.slot)) || (filter && !filter(r))) { o.h(0x5c1b); return; }
    for (auto &x : op.w) if (x[0] == '#') o.cnt[x.substr(1)]++;
    apply(op, r);
}
void World::apply(const Op &op, Rec &r) {
    const auto &w = op.w;
    u64 m0 = A.mallocs, f0 = A.frees, x0 = A.failed;
    Slot *sl = r.slot >= 0 ? &slots[r.slot] : nullptr;
    A.owner = r.slot;
    o.steps++;
    if (r.kind == "garb") { A.garbage = strtoul(w[1].c_str(), nullptr, 10); return; }
    if (r.kind == "note" || r.kind == "frame") return;
    if (r.kind == "pool") { register_pool(atoi(w[1].c_str()) & 1); return; }
    if (r.kind == "unreg") { pending_unreg = true; return; }
    if (r.kind == "failalloc") { pending_fail = atol(w[1].c_str()); return; }
    if (r.kind == "age") {
        // time warp: a long stretch of readings of which dNt were excesses, leaving the window as it is
        before(op, r);
        sl->s->n += r.dn + r.dNt; sl->s->Nt += r.dNt;
        r.done = true;
        after(op, r);
        return;
    }
    if (r.kind == "init") {
        if (!sl->s) {
            sl->s = (CSpot *)exact_alloc(sizeof(CSpot));
            fill_garbage(sl->s, sizeof(CSpot), r.garb, true);
        }
        bool valid = r.level >= 0 && r.level < 1 && r.q > 0 && r.q < 1 - r.level && r.cap >= 1 && r.cap <= (1ul << 25);
        bool paramok = r.level >= 0 && r.level < 1 && r.q > 0 && r.q < 1 - r.level;
        if (sl->live && (valid || paramok)) {  // the user frees before initialising again
            Rec fr; fr.kind = "free"; fr.slot = r.slot;
            apply(Op{"free", num(r.slot)}, fr);
            m0 = A.mallocs; f0 = A.frees;
            A.owner = r.slot;
        }
        if (!sl->live && !sl->failed_alloc && (!sl->freed || r.garb % 3)) fill_garbage(sl->s, sizeof(CSpot), r.garb, true);
        before(op, r);
        size_t b0 = A.blocks.size();
        A.fail_in = pending_fail;
        bool unreg = pending_unreg;
        if (unreg) L.set_alloc(nullptr, nullptr);       // the program forgot to register its allocator
        call([&] { r.ret = L.init(sl->s, r.q, r.low, r.disc, r.level, r.cap); }, r);
        pending_fail = A.fail_in; A.fail_in = 0;
        r.mallocs = A.mallocs - m0; r.frees = A.frees - f0; r.failed = A.failed - x0; r.req = A.last_request;
        if (unreg) { register_pool(A.pool); pending_unreg = false; r.failed++; }
        if (r.ret == 0) { sl->live = true; sl->failed_alloc = false; sl->trained = false; }
        else if (r.ret == -(int)ERR_MEMORY_ALLOCATION_FAILED) { sl->live = false; sl->failed_alloc = true; }
        if (r.ret == 0) { sl->blocks.clear(); for (size_t i = b0; i < A.blocks.size(); i++) sl->blocks.push_back(i); }
        r.done = true;
        o.h(1); o.h((u64)(int64_t)r.ret);
        after(op, r);
        return;
    }
    before(op, r);
    if (r.kind == "free") {
        r.wasfailed = sl->failed_alloc;
        call([&] { L.free_(sl->s); }, r);
        sl->live = false; sl->failed_alloc = false; sl->trained = false; sl->freed = true;
    } else if (r.kind == "fitg" || r.kind == "fitv") {
        std::vector<double> b = r.batch;
        if (mirror) for (auto &x : b) x = -x;
        size_t bytes = b.size() * 8;
        unsigned long n = b.size();
        bool ro = g_readonly && ((opidx ^ n) & 1);
        double *p = nullptr, **keep = nullptr;
        if (g_shared) keep = &(*g_shared)[std::string((const char *)b.data(), bytes)];
        if (keep && *keep) { p = *keep; o.cnt["p:shared-batch"]++; }
        else if (ro) { p = (double *)readonly_alloc(b.data(), bytes); o.cnt["p:readonly-batch"]++; }
        else {
            p = (double *)exact_alloc(bytes);
            if (bytes) memcpy(p, b.data(), bytes);
            sim_unpoison(p, bytes);
        }
        if (keep) *keep = p;
        call([&] { r.ret = L.fit(sl->s, p, n); }, r);
        if (!g_shared && bytes && memcmp(p, b.data(), bytes) != 0) r.textok = false;   // training data modified
        if (ro && !keep) readonly_free(p, bytes);
        else if (!keep) exact_free(p);
        sl->trained = true;
    } else if (r.kind == "step") {
        double x = mirror ? -r.x : r.x;
        call([&] { r.ret = L.step(sl->s, x); }, r);
    } else if (r.kind == "quant") {
        double x = r.x;
        call([&] { r.val = L.quantile(sl->s, x); }, r);
    } else if (r.kind == "prob") {
        double x = mirror ? -r.x : r.x;
        call([&] { r.val = L.probability(sl->s, x); }, r);
    } else if (r.kind == "text") {
        size_t n = strtoul(w[3].c_str(), nullptr, 10);
        long code = atol(w[2].c_str());
        char *raw = (char *)malloc(n + 64);
        memset(raw, 0x5a, n + 64);
        char *p = raw + 32;
        char *ex = nullptr;
        if (g_flavor == F_ASAN || g_flavor == F_MSAN) { ex = (char *)malloc(n); if (n) memset(ex, 0x5a, n); p = ex; sim_unpoison(p, n); }
        call([&] {
            if (w[1] == "err") L.error((enum LibspotError)code, p, n);
            else if (w[1] == "ver") L.version(p, n);
            else L.license(p, n);
        }, r);
        r.text.assign(p, n);
        if (!ex) for (int i = 0; i < 32; i++) if (raw[i] != 0x5a || raw[32 + n + i] != 0x5a) r.textok = false;
        if (ex) free(ex);
        free(raw);
    } else { return; }
    r.mallocs = A.mallocs - m0; r.frees = A.frees - f0; r.failed = A.failed - x0;
    r.done = true;
    o.h(mix(std::hash<std::string>()(r.kind), (u64)(int64_t)r.ret)); o.hd(r.val);
    for (char c : r.text) o.h((unsigned char)c);
    if (sl && sl->live) { o.hd(sl->s->anomaly_threshold); o.h(sl->s->Nt); o.h(sl->s->n); }
    after(op, r);
}
