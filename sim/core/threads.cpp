// C13: real threads, one running at a time; the trace decides every switch.
#include "world.hpp"
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>

struct ThRec { int ret; double val; u64 fp; std::string op; };
struct ThWorld : World {
    std::vector<ThRec> recs;
    Slot *shared;
    explicit ThWorld(RunOut &o) : World(o) { prot = true; }
    void after(const Op &op, Rec &r) override {
        bool has = r.slot > 0 && slots[r.slot].live;
        recs.push_back({r.ret, r.val, has ? fphash(fingerprint(slots[r.slot].s)) : 0, op.text()});
    }
    ~ThWorld() { slots[0].s = nullptr; }
};
struct Sched { int tid; u64 n; bool g; };
struct Baton {
    std::mutex m; std::condition_variable cv;
    int cur = -1; std::vector<bool> done; std::vector<Sched> s; size_t pos = 0; u64 left = 0; bool gmode = false; bool free_run = false;
    u64 switches = 0, preempt_in_call = 0; u64 sig = 1; u64 ticks = 0;
    void advance() {  // picks who runs next; m held
        for (;;) {
            if (pos < s.size()) {
                Sched e = s[pos++];
                if (e.tid < 0 || (size_t)e.tid >= done.size() || done[e.tid] || e.n == 0) continue;
                if (cur != e.tid) { switches++; sig = mix(sig, (u64)e.tid * 1000003 + ticks); }
                cur = e.tid; left = e.n; gmode = e.g;
                return;
            }
            free_run = true;
            for (size_t i = 0; i < done.size(); i++) if (!done[i]) { if (cur != (int)i) switches++; cur = (int)i; left = ~0ull; gmode = false; return; }
            cur = -1;
            return;
        }
    }
};
static Baton *B = nullptr;
static thread_local int t_tid = -1;
static void do_yield(bool gw, bool incall) {
    if (t_tid < 0 || !B) return;
    B->ticks++;
    if (B->gmode) { if (!gw) { if (B->ticks % 200000 == 0) {} else return; } }
    if (B->left != ~0ull && --B->left == 0) {
        std::unique_lock<std::mutex> l(B->m);
        int me = t_tid;
        B->advance();
        if (B->cur != me) {
            if (incall) B->preempt_in_call++;
            B->cv.notify_all();
            B->cv.wait(l, [&] { return B->cur == me; });
        }
    }
}
static void yield_cb(bool gw) { do_yield(gw, true); }

void exec_threads(const std::string &prop, const Trace &t, RunOut &o) {
    // split the trace
    Trace prefix; std::vector<Trace> th; std::vector<Sched> sched;
    for (auto &op : t) {
        if (op.k() == "th" && op.w.size() > 2) {
            size_t k = strtoul(op.w[1].c_str(), nullptr, 10);
            if (k > 5) continue;
            if (th.size() <= k) th.resize(k + 1);
            Op q; q.w.assign(op.w.begin() + 2, op.w.end());
            th[k].push_back(q);
        } else if (op.k() == "sched" && op.w.size() > 3) sched.push_back({atoi(op.w[1].c_str()), strtoull(op.w[2].c_str(), nullptr, 10), op.w[3] == "g"});
        else prefix.push_back(op);
    }
    if (th.empty()) return;
    std::vector<std::vector<ThRec>> solo(th.size());
    auto run_prefix = [&](World &pw) { for (auto &op : prefix) pw.run(op); };
    auto share = [&](ThWorld &w, World &pw) { w.slots[0].s = pw.slots[0].s; w.slots[0].live = pw.slots[0].live; w.slots[0].trained = true; };
    // threads may only query the shared detector
    auto allowed = [](const Op &op) {
        if (op.w.size() < 2 || op.k() == "text") return op.k() == "text";
        if (op.w[1] == "0") return op.k() == "quant" || op.k() == "prob";
        return true;
    };
    for (size_t k = 0; k < th.size(); k++) {
        begin_process(2);
        RunOut side; World pw(side);
        std::thread x([&] { run_prefix(pw); });
        x.join();
        ThWorld w(k == 0 ? o : side);
        share(w, pw);
        std::thread y([&] { for (auto &op : th[k]) if (allowed(op)) w.run(op); });
        y.join();
        solo[k] = w.recs;
        if (w.recs.size() > 3) o.nontrivial = true;
    }
    begin_process(2);
    {
        RunOut side; World pw(side);
        std::thread x([&] { run_prefix(pw); });
        x.join();
        Fp shared_before; if (pw.slots[0].live) shared_before = fingerprint(pw.slots[0].s);
        Baton bat; bat.done.assign(th.size(), false); bat.s = sched; B = &bat;
        std::vector<std::unique_ptr<RunOut>> outs; std::vector<std::unique_ptr<ThWorld>> ws;
        for (size_t k = 0; k < th.size(); k++) { outs.emplace_back(new RunOut); ws.emplace_back(new ThWorld(*outs[k])); share(*ws[k], pw); }
        std::vector<std::thread> ts;
        for (size_t k = 0; k < th.size(); k++)
            ts.emplace_back([&, k] {
                t_tid = (int)k;
                { std::unique_lock<std::mutex> l(bat.m); bat.cv.wait(l, [&] { return bat.cur == (int)k; }); }
                for (auto &op : th[k]) if (allowed(op)) { ws[k]->run(op); do_yield(false, false); }
                std::unique_lock<std::mutex> l(bat.m);
                bat.done[k] = true;
                bat.advance();
                bat.cv.notify_all();
                t_tid = -1;
            });
        std::map<std::string, double *> batches; g_shared = &batches;
        I.yield = yield_cb;
        { std::unique_lock<std::mutex> l(bat.m); bat.advance(); bat.cv.notify_all(); }
        for (auto &x2 : ts) x2.join();
        I.yield = nullptr; B = nullptr;
        g_shared = nullptr;
        for (auto &kv : batches) exact_free(kv.second);
        for (auto &x3 : outs) o.cnt["p:shared-batch"] += x3->cnt["p:shared-batch"];
        o.cnt["switches"] += bat.switches; o.cnt["switches-inside-calls"] += bat.preempt_in_call; o.cnt["global-writes"] += I.gwrites; o.cnt["accesses"] += bat.ticks;
        o.states.insert(bat.sig);
        o.h(bat.sig);
        for (size_t k = 0; k < th.size() && o.viol.empty(); k++) {
            auto &r = ws[k]->recs;
            for (auto &q : r) { o.h((u64)(int64_t)q.ret); o.hd(q.val); o.h(q.fp); }
            o.steps += r.size();
            for (size_t i = 0; i < solo[k].size() || i < r.size(); i++) {
                if (i >= r.size() || i >= solo[k].size()) { o.viol.push_back({prop, "thread " + num((long)k) + " performs another number of operations when threads interleave", (long)i}); break; }
                auto &a = solo[k][i]; auto &b = r[i];
                if (a.ret != b.ret || !same(a.val, b.val) || a.fp != b.fp) {
                    char m[400];
                    snprintf(m, sizeof m, "thread %zu operation %zu '%.150s' gives %d/%.17g alone but %d/%.17g under this interleaving%s", k, i, b.op.c_str(), a.ret, a.val, b.ret, b.val, a.fp != b.fp ? " (detector differs)" : "");
                    o.viol.push_back({prop, m, (long)i});
                    break;
                }
            }
        }
        if (o.viol.empty() && pw.slots[0].live && !(fingerprint(pw.slots[0].s) == shared_before)) o.viol.push_back({prop, "concurrent queries changed the shared detector", 0});
        for (auto &w : ws) for (size_t i = 1; i < w->slots.size(); i++) if (w->slots[i].live) L.free_(w->slots[i].s);
    }
    A.reset(0);
}
