// Which generator and executor each property uses.
#include "sim.hpp"

static Trace with_slot(const Trace &t, long base) {  // moves every detector of a history by base slots
    Trace r;
    for (auto op : t) {
        static const std::set<std::string> k = {"init", "fitg", "fitv", "step", "burst", "quant", "prob", "free", "age", "recover"};
        if (k.count(op.k()) && op.w.size() > 1) op.w[1] = num(atol(op.w[1].c_str()) + base);
        r.push_back(op);
    }
    return r;
}
static Trace gen_c13(Rng &r, GenCfg c) {
    Trace out;
    int n = (int)r.range(2, 4);
    bool shared = r.p(0.6);
    if (shared) {
        GenCfg p = c; p.multi = false; p.min_len = 5; p.max_len = 20; p.p_query = 0; p.p_text = 0; p.p_reinit = 0;
        for (auto &op : gen_history(r, p)) if (op.k() != "free") out.push_back(op);
    }
    std::vector<Trace> th;
    bool similar = r.p(0.5);   // threads doing the same kind of work
    bool bigfit = r.p(0.08);
    u64 s0 = r.next();
    for (int k = 0; k < n; k++) {
        GenCfg p = c; p.multi = false; p.min_len = 4; p.max_len = 30; p.p_query = 0.25; p.p_text = 0.03; p.p_alloc_fail = 0; p.p_badinit = 0.02; p.p_age = 0;
        p.cap_big = 0; p.cap = r.p(0.5) ? (long)r.range(1, 8) : (long)r.range(5, 40);
        if (bigfit) p.cap = (long)r.range(20, 200);
        Rng q(similar && r.p(0.7) ? s0 : r.next());
        Trace t = with_slot(gen_history(q, p), k + 1), f;
        for (auto &op : t) {
            if (op.k() == "garb" || op.k() == "failalloc" || op.k() == "unreg" || op.k() == "note") continue;
            if (op.k() == "fitg" && atol(op.w[4].c_str()) > 80) op.w[4] = num(bigfit && r.p(0.5) ? r.range(200, 1200) : 5 + atol(op.w[3].c_str()) % 76);
            if (op.k() == "age") continue;
            f.push_back(op);
            if (shared && r.p(0.2)) f.push_back(r.p(0.5) ? Op{"quant", "0", "s*" + hexd(r.u())} : Op{"prob", "0", "S" + hexd(r.expo())});
        }
        th.push_back(f);
    }
    for (int k = 0; k < n; k++) for (auto &op : th[k]) { Op o{"th", num(k)}; o.w.insert(o.w.end(), op.w.begin(), op.w.end()); out.push_back(o); }
    int style = (int)r.below(4);
    int m = (int)r.range(20, 200);
    for (int i = 0; i < m; i++) {
        long tid = r.range(0, n - 1);
        std::string mode = "a"; u64 cnt;
        double u = r.u();
        if (style == 0) cnt = 1 + r.below(6);                                  // fine grain
        else if (style == 1) cnt = 1 + (u64)(std::exp(r.u() * 8));             // mixed
        else if (style == 2) { if (u < 0.5) { mode = "g"; cnt = 1 + r.below(3); } else cnt = 1 + (u64)(std::exp(r.u() * 9)); }
        else cnt = 1 + (u64)(std::exp(r.u() * 11));
        out.push_back({"sched", num(tid), std::to_string(cnt), mode});
    }
    return out;
}
static Trace gen_c14(Rng &r, GenCfg c) {
    c.p_query = 0.12; c.max_len = 150; c.cap_big = 0.005;
    Trace t = gen_history(r, c), out;
    double pc = r.pick(std::vector<double>{0.02, 0.05, 0.15, 0.3}), px = r.pick(std::vector<double>{0.01, 0.03, 0.08});
    int crashes = 0;
    for (auto &op : t) {
        if (op.k() == "garb") continue;
        if (op.k() == "fitg" && atol(op.w[4].c_str()) > 500) op.w[4] = "500";
        if (r.p(pc)) out.push_back({"ckpt"});
        if (crashes < 12 && r.p(px)) {
            crashes++;
            if (r.p(0.4)) out.push_back({"crash"});
            else out.push_back({"crashat", std::to_string(r.p(0.5) ? 1 + r.below(40) : 1 + (u64)std::exp(r.u() * 9))});
        }
        out.push_back(op);
    }
    if (r.p(0.02)) {                       // long histories: whatever counts outside the detector gets to thousands
        Trace l;
        l.push_back({"init", "0", hexd(std::pow(10, -(double)r.range(3, 6))), num(r.p(0.3)), num(r.p(0.5)), hexd(r.pick(std::vector<double>{0.8, 0.95, 0.98})), num(r.range(2, 24)), num((long)r.below(1u << 30))});
        l.push_back({"fitg", "0", "expo", num((long)r.below(1u << 30)), num(r.range(50, 300)), hexd(1.0), hexd(0.0), "-"});
        int m = (int)r.range(2, 4);
        for (int k = 0; k < m; k++) {
            l.push_back({"burst", "0", r.p(0.7) ? "expo" : "gauss", num((long)r.below(1u << 30)), num(r.range(500, 7000)), hexd(1.0)});
            l.push_back({"ckpt"});
            if (r.p(0.7)) l.push_back({"crash"});
        }
        l.push_back({"burst", "0", "expo", num((long)r.below(1u << 30)), num(r.range(3000, 9000)), hexd(1.0)});
        return l;
    }
    return out;
}
static Trace gen_c15(Rng &r, GenCfg c) {
    c.p_query = 0.2; c.max_len = 200;
    Trace t = gen_history(r, c), out;
    int placed = 0;
    bool start = r.p(0.6);
    for (auto &op : t) {
        if ((start && !placed) || (placed < 8 && r.p(0.03))) {
            std::string a = r.p(0.2) ? "-1" : num(r.range(0, 5)), b = r.p(0.2) ? "-1" : num(r.range(0, 5));
            out.push_back({"ffu", a, b});
            placed++;
        }
        out.push_back(op);
    }
    return out;
}
static Trace gen_c17(Rng &r, GenCfg c) {
    Trace t;
    t.push_back({"garb", num((long)r.below(1u << 30))});
    static const std::vector<long> caps = {1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 31, 50, 100};
    long cap = r.pick(caps);
    if (r.p(0.02)) cap = r.range(200, 500);
    double level = r.pick(std::vector<double>{0.5, 0.8, 0.9, 0.95, 0.98});
    bool disc = r.p(0.3);
    double q = std::pow(10, -(double)r.range(3, 8));
    int low = r.p(0.4);
    t.push_back({"init", "0", hexd(q), num(low), num(disc), hexd(level), num(cap), num((long)r.below(1u << 30))});
    double scale = r.p(0.5) ? 1 : std::ldexp(1.0, (int)r.range(-15, 20));
    double off = r.p(0.5) ? 0 : std::floor(r.uni(-50, 50)) * scale;
    static const std::vector<std::string> d = {"gauss", "expo", "unif", "gpdh", "gpdb", "lognorm", "tri"};
    std::string dist = r.pick(d);
    auto fit = [&](bool bad) {
        std::string f = "-"; Op o;
        if (bad) { f = std::string(r.p(0.6) ? "h" : "H") + num(r.range(1, 3)); }
        o = Op{"fitg", "0", dist, num((long)r.below(1u << 30)), num(r.range(20, 400)), hexd(scale), hexd(off), f};
        if (bad) o.w.push_back("#fit-huge");
        t.push_back(o);
    };
    fit(disc || r.p(0.3));
    int rounds = (int)r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        if (k && r.p(0.2)) fit(disc || r.p(0.4));
        if (!disc) {
            int bad = r.p(0.2) ? 0 : (int)r.range(1, 6);        // ordinary data must be forgotten as well
            for (int i = 0; i < bad; i++) {
                double u = r.u();
                if (u < 0.35) t.push_back({"step", "0", "Einf", "#inf"});
                else if (u < 0.6) t.push_back({"step", "0", "E" + hexd(std::pow(10, r.uni(100, 307))), "#huge"});
                else if (u < 0.9) t.push_back({"step", "0", "E" + hexd(scale * std::pow(10, r.uni(3, 40))), "#spike"});
                else t.push_back({"step", "0", "nan", "#nan"});
                if (r.p(0.5)) t.push_back({"step", "0", "E" + hexd(scale * r.expo())});
            }
        }
        long n = cap + (long)r.below(r.p(0.1) ? 20 : 3) * (long)r.below(cap + 1);
        int style = (int)r.below(4);
        for (long i = 0; i < n; i++) {
            double v = style == 0 ? r.expo() : style == 1 ? r.u() + 0.01 : style == 2 ? (std::pow(r.u() + 1e-9, -0.3) - 1) / 0.3 : std::floor(r.expo() * 4 + 1);
            t.push_back({"step", "0", "E" + hexd(scale * v)});
            if (r.p(0.1)) t.push_back({"step", "0", hexd(off)});
        }
        t.push_back({"recover", "0"});
    }
    (void)c;
    return t;
}
static Trace gen_c22(Rng &r, GenCfg c) {
    c.p_query = 0.12; c.max_len = 250; c.p_alloc_fail = 0.02;
    if (r.p(0.6)) { c.allow_inf = false; }
    Trace t = gen_history(r, c);
    double sc = 1;
    for (auto &op : t) if (op.k() == "fitg") { sc = std::fabs(parsed(op.w[5])); break; }
    bool unit = r.p(0.5);
    if (unit) {
        long k = r.p(0.5) ? r.range(1, 12) : r.range(10, 60);
        t.insert(t.begin(), Op{"frame", "unit", num(r.p(0.5) ? k : -k), "#unit"});
    } else {
        int e = 0; std::frexp(sc, &e);
        long G = e - (long)r.range(10, 30);
        if (G < -110) G = -110;
        if (G > 110) G = 110;
        long long cc = (long long)std::exp(r.u() * 33.0) * (r.p(0.5) ? 1 : -1);
        for (auto &op : t) if (op.k() == "fitg" && r.p(0.4)) { op.w[4] = "5"; op.w[7] = "-"; }
        t.insert(t.begin(), Op{"frame", "origin", num(G), std::to_string(cc), "#origin"});
    }
    return t;
}
static Trace gen_c23(Rng &r, GenCfg c) {
    static const std::vector<double> levels = {0.1, 0.5, 0.7, 0.8, 0.9, 0.9, 0.95, 0.98, 0.98, 0.99, 0.995, 0.998, 0.999, 0.9995};
    static const std::vector<std::string> d = {"gauss", "unif", "tri", "expo", "gpdb", "lognorm"};
    Trace t;
    t.push_back({"garb", num((long)r.below(1u << 30))});
    double level = r.p(0.7) ? r.pick(levels) : r.uni(0.02, 0.998);
    std::string dist = r.pick(d);
    bool same = r.p(0.5);
    double scale = r.p(0.4) ? 1 : std::ldexp(1.0, (int)r.range(-20, 24)) * (r.p(0.1) ? -1 : 1), off = r.p(0.5) ? 0 : std::floor(r.uni(-100, 100)) * scale;
    int slots = (int)r.range(1, 2);
    for (int s = 0; s < slots; s++)
        t.push_back({"init", num(s), hexd((1 - level) * r.uni(0.0001, 0.9)), num(r.range(0, 1)), num(r.range(0, 1)), hexd(level), num(r.range(1, 60)), num((long)r.below(1u << 30))});
    int m = (int)r.range(17, 31), regime = r.p(level > 0.99 ? 0.15 : 0.04) ? 3 : (int)r.below(5);
    if (regime == 3) m = 17;
    auto small = [&]() {        // readings, faults and small trainings in between
        std::string s = num((long)r.below(slots));
        double u = r.u();
        if (u < 0.25) t.push_back({"fitg", s, r.pick(d), num((long)r.below(1u << 30)), "5", hexd(scale), hexd(off), "-"});
        else if (u < 0.35) t.push_back({"fitg", s, dist, num((long)r.below(1u << 30)), num(r.range(0, 4)), hexd(scale), hexd(off), "-", "#fit-short"});
        else if (u < 0.45) t.push_back({"fitg", s, dist, num((long)r.below(1u << 30)), num(r.range(5, 80)), hexd(scale), hexd(off), r.p(0.5) ? "n2" : "i1", "#fit-bad"});
        else if (u < 0.6) t.push_back({"step", s, "nan", "#nan"});
        else if (u < 0.7) t.push_back({"step", s, "Einf", "#inf"});
        else if (u < 0.8) t.push_back({"step", s, "E" + hexd(std::fabs(scale) * std::pow(10, r.uni(0, 9))), "#spike"});
        else if (u < 0.9) t.push_back({"age", s, "1000000", "0", "#age"});
        else t.push_back({"step", s, "S" + hexd(r.expo())});
    };
    for (int i = 0; i < m; i++) {
        while (r.p(0.3)) small();
        long n = regime == 0 ? r.range(60, 300) : regime == 1 ? r.range(1000, 2500) : regime == 2 ? r.range(4000, 6000) : regime == 3 ? r.range(9000, level > 0.997 ? 25000 : 12000) : r.p(0.5) ? r.range(60, 500) : r.range(500, 5000);
        t.push_back({"fitg", num((long)r.below(slots)), same ? dist : r.pick(d), num((long)r.below(1u << 30)), num(n), hexd(scale), hexd(off), "-"});
    }
    for (int s = 0; s < slots; s++) t.push_back({"free", num(s)});
    (void)c;
    return t;
}
static Trace gen_wide(Rng &r) {       // windows of thousands of excesses
    static const std::vector<std::string> d = {"expo", "expo", "gauss", "unif", "gpdh", "gpdb", "lognorm", "tri"};
    Trace t;
    t.push_back({"garb", num((long)r.below(1u << 30))});
    double level = r.pick(std::vector<double>{0.3, 0.5, 0.7, 0.8}), scale = r.p(0.5) ? 1 : std::ldexp(1.0, (int)r.range(-20, 20));
    t.push_back({"init", "0", hexd(1e-4), num(r.range(0, 1)), num(r.range(0, 1)), hexd(level), num(r.range(700, 4096)), num((long)r.below(1u << 30))});
    t.push_back({"fitg", "0", r.pick(d), num((long)r.below(1u << 30)), num(r.range(1500, 12000)), hexd(scale), hexd(0.0), "-"});
    int m = (int)r.range(2, 8);
    for (int i = 0; i < m; i++) t.push_back({"step", "0", "E" + hexd(scale * r.expo())});
    t.push_back({"free", "0"});
    return t;
}
Trace gen_for(const std::string &prop, u64 seed, u64 run, bool thorough) {
    u64 ph = 0; for (char c : prop) ph = ph * 131 + (unsigned char)c;
    Rng r(mix(mix(seed, ph), run));
    GenCfg c; c.prop = prop; c.thorough = thorough;
    if (prop == "C13" || prop == "C14" || prop == "C16") { c.p_long = 0; c.cap_huge = false; }
    if (prop == "C13") return gen_c13(r, c);
    if (prop == "C14") return gen_c14(r, c);
    if (prop == "C15") return gen_c15(r, c);
    if (prop == "C17") return gen_c17(r, c);
    if (prop == "C22") return gen_c22(r, c);
    if (prop == "C23") return gen_c23(r, c);
    if (prop == "C03") { c.p_reinit = 0.05; c.p_badinit = 0.1; c.max_len = 150; }
    if (prop == "C02") { c.p_reinit = 0.06; c.p_alloc_fail = 0.15; c.max_len = 200; }
    if (prop == "C08") { if (r.p(0.8)) c.disc = 1; c.max_len = 250; }
    if (prop == "C11") { c.p_query = 0.4; }
    if (prop == "C16") { c.cap_big = 0.08; c.max_len = 200; c.p_long = 0.004; }
    if (prop == "C01") { c.p_text = 0.05; c.p_reinit = 0.03; c.cap_big = 0.005; c.max_len = 200; }
    if (prop == "C05" || prop == "C06" || prop == "C07") { if (r.p(0.3)) c.p_exc = 0.95; }
    if (prop == "C09" && r.p(0.01)) return gen_wide(r);
    Trace t = gen_history(r, c);
    if ((prop == "C02" || prop == "C01") && r.p(0.25)) {
        // the program registers another pair of functions (of the same heap) now and then
        Trace u;
        for (auto &op : t) { if (r.p(0.05) || (op.k() == "free" && r.p(0.3))) u.push_back({"pool", num(r.range(0, 1)), "#allocator-replaced"}); u.push_back(op); }
        return u;
    }
    return t;
}
void exec_for(const std::string &prop, const Trace &t, RunOut &o) {
    if (prop == "C13") exec_threads(prop, t, o);
    else if (prop == "C03" || prop == "C08" || prop == "C12" || prop == "C14" || prop == "C15" || prop == "C16" || prop == "C17" || prop == "C22" || prop == "C23") exec_diff(prop, t, o);
    else exec_model(prop, t, o);
}
