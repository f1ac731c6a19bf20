#include <climits>
// Seeded generation of traces: configurations, sensor streams, transport faults, allocation faults, queries.
#include "sim.hpp"
#include <algorithm>

static const std::vector<std::string> DISTS = {"gauss", "expo", "unif", "gpdh", "gpdb", "lognorm", "int", "cauchy", "sine", "tri", "bin", "ramp", "desc", "const", "poly"};

static double sample(const std::string &d, Rng &r, long i) {
    if (d == "gauss") return r.gauss();
    if (d == "expo") return r.expo();
    if (d == "unif") return r.u();
    if (d == "gpdh") { double u = r.u(); if (u < 1e-12) u = 1e-12; return (std::pow(u, -0.5) - 1) / 0.5; }
    if (d == "gpdb") { double u = r.u(); return (std::pow(u, 0.4) - 1) / -0.4; }
    if (d == "lognorm") return std::exp(r.gauss());
    if (d == "int") return std::floor(r.gauss() * 3);
    if (d == "cauchy") { double g = r.gauss(), h = r.gauss(); if (std::fabs(h) < 1e-6) h = 1e-6; return g / h; }
    if (d == "sine") return std::sin((double)i * 0.37) + 0.1 * r.gauss();
    if (d == "tri") return r.u() + r.u();
    if (d == "bin") return (double)r.below(2);
    if (d == "ramp") return (double)i + r.u() * 0.5;
    if (d == "desc") return -(double)i + r.u() * 0.5;
    if (d == "poly") { double a = r.u(); return a * a * a * a; }
    return 1.0;  // const
}
std::vector<double> gen_batch(const std::string &dist, u64 seed, long n, double scale, double off, const std::string &fault) {
    Rng r(mix(seed, 77));
    std::vector<double> v;
    for (long i = 0; i < n; i++) v.push_back(off + scale * sample(dist, r, i));
    // faults: a letter and a count, several may be chained, e.g. "n2,i1"
    size_t p = 0;
    while (p < fault.size() && fault != "-") {
        char k = fault[p++];
        long c = 0;
        while (p < fault.size() && isdigit((unsigned char)fault[p])) c = c * 10 + (fault[p++] - '0');
        if (p < fault.size() && fault[p] == ',') p++;
        for (long j = 0; j < c && n > 0; j++) {
            size_t at = r.below(n);
            switch (k) {
            case 'n': v[at] = NAN; break;
            case 'i': v[at] = INFINITY; break;
            case 'm': v[at] = -INFINITY; break;
            case 'h': v[at] = off + scale * 1e6 * r.expo(); break;      // spike
            case 'H': v[at] = (r.p(0.5) ? 1 : -1) * std::pow(10, r.uni(100, 307)); break;
            case 'd': v[at] = v[r.below(n)]; break;                      // duplicate
            case 'z': v[at] = 0; break;
            case 't': v[at] = 5e-324 * (double)r.range(1, 50); break;    // denormals
            default: break;
            }
        }
    }
    // the order in which the batch arrives
    if (fault.find('A') != std::string::npos) std::sort(v.begin(), v.end());
    if (fault.find('D') != std::string::npos) std::sort(v.begin(), v.end(), [](double a, double b) { return a > b; });
    return v;
}
static double round_to(double x) {  // short mantissas keep traces readable
    if (!std::isfinite(x) || x == 0) return x;
    int e; double m = std::frexp(x, &e);
    return std::ldexp(std::floor(m * 4194304) / 4194304, e);
}
struct Stream { std::string dist; double scale, off; Rng r; long i = 0; double last = 0; double next() { return off + scale * sample(dist, r, i++); } };

static std::string pick_cap(Rng &r, const GenCfg &c, bool *big) {
    *big = false;
    if (c.cap >= 0) return num(c.cap);
    if (r.p(c.cap_big)) { *big = true; if (c.cap_huge && r.p(0.25)) { *big = false; return num(r.pick(std::vector<long>{32767, 32768, 65535, 65536, 65537, 100000, 131073, 1000000, 1048577})); } return num(r.range(500, c.thorough ? 5000 : 2000)); }
    static const std::vector<long> caps = {1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 64, 100, 200};
    return num(r.pick(caps));
}
static void pick_ql(Rng &r, double *q, double *level) {
    static const std::vector<double> levels = {0.0, 0.1, 0.5, 0.5, 0.7, 0.8, 0.9, 0.9, 0.95, 0.98, 0.98, 0.99, 0.995, 0.999};
    *level = r.p(0.8) ? r.pick(levels) : round_to(r.u());
    double room = 1 - *level;
    if (r.p(0.6)) *q = std::pow(10, -(double)r.range(2, 9));
    else *q = round_to(room * r.u() * 0.95 + 1e-12);
    while (!(*q < room * 0.999)) *q /= 10;
    if (r.p(0.03)) switch (r.below(6)) {     // the corners of what is accepted
    case 0: *q = std::pow(10, -r.uni(15, 307)); break;
    case 1: *q = 5e-324 * (double)r.range(1, 9); break;
    case 2: *q = std::nextafter(1 - *level, 0); break;
    case 3: *level = std::nextafter(1.0, 0.0); *q = (1 - *level) * r.uni(0.01, 0.9); break;
    case 4: *level = r.p(0.5) ? -0.0 : std::pow(10, -r.uni(15, 320)); break;
    default: *level = 1 - std::pow(10, -r.uni(3, 15)); *q = (1 - *level) * r.uni(0.001, 0.99); break;
    }
}
// any non-zero int is true
static int flag(Rng &r) { static const std::vector<int> v = {256, 512, 65536, 1 << 24, 1 << 30, INT_MIN, INT_MAX, -256, 2, 254}; return r.p(0.5) ? (int)r.range(-3, 7) : r.pick(v); }
static Op make_init(Rng &r, const GenCfg &c, int slot) {
    double q, level; bool big;
    pick_ql(r, &q, &level);
    int low = c.low >= 0 ? c.low : (r.p(0.4) ? (r.p(0.9) ? 1 : flag(r)) : 0);
    int disc = c.disc >= 0 ? c.disc : (r.p(0.55) ? (r.p(0.9) ? 1 : flag(r)) : 0);
    std::string cap = pick_cap(r, c, &big);
    return {"init", num(slot), hexd(q), num(low), num(disc), hexd(level), cap, num((long)(r.p(0.3) ? r.below(3) : r.below(1u << 30)))};
}
static Op bad_init(Rng &r, const GenCfg &c, int slot) {
    Op o = make_init(r, c, slot);
    auto &w = o.w;
    switch (r.below(12)) {
    case 10: w[6] = std::to_string(r.pick(std::vector<unsigned long>{1ul << 29, 1ul << 30, 1ul << 31, 1ul << 32, 1ul << 33, 1ul << 40, 1ul << 60, 1ul << 61, 1ul << 63}) + r.below(4)); break;
    case 11: if (r.p(0.5)) { w[5] = hexd(r.p(0.5) ? -5e-324 : std::nextafter(1.0, 2.0)); } else { w[2] = hexd(r.p(0.5) ? -5e-324 : std::nextafter(1 - parsed(w[5]), 2.0)); } break;
    case 0: w[5] = hexd(-r.u() - 1e-9); break;
    case 1: w[5] = hexd(1 + r.u() * r.below(2)); break;
    case 2: w[5] = r.p(0.5) ? "inf" : "-inf"; break;
    case 3: w[5] = "nan"; break;
    case 4: w[2] = "nan"; break;
    case 5: w[2] = r.p(0.5) ? "0x0p+0" : hexd(-r.u()); break;
    case 6: w[2] = hexd(1.0 + r.u()); break;
    case 7: { double lv = 0.25 * (double)r.range(0, 3); w[5] = hexd(lv); w[2] = hexd(1 - lv); break; }
    case 8: w[6] = "0"; break;
    default: w[6] = std::to_string(r.p(0.5) ? (1ull << 61) + r.below(5) : ~0ull - r.below(9)); break;
    }
    w.push_back("#badinit");
    return o;
}
static Op make_fit(Rng &r, const GenCfg &c, int slot, const Stream &s) {
    static const std::vector<long> sizes = {5, 5, 6, 7, 8, 10, 15, 20, 30, 50, 80, 100, 150, 200, 300, 500};
    long n = r.pick(sizes);
    if (r.p(0.25)) n = r.range(5, 140);
    if (r.p(0.02)) n = 16 * r.range(1, 40);
    if (r.p(0.03)) n = r.range(1000, 3000);
    if (r.p(c.p_long)) n = r.p(0.5) ? r.range(5000, 30000) : r.range(65530, 66000);
    if (r.p(0.04)) n = r.range(0, 4);
    std::string fault = "-";
    std::string tag;
    if (r.p(0.18)) {
        switch (r.below(6)) {
        case 0: if (c.allow_nan) { fault = "n" + num(r.range(1, 3)); tag = "#fit-nan"; } break;
        case 1: if (c.allow_inf) { fault = (r.p(0.5) ? "i" : "m") + num(r.range(1, 3)); tag = "#fit-inf"; } break;
        case 2: fault = "h" + num(r.range(1, 4)); tag = "#fit-spike"; break;
        case 3: fault = "d" + num(n / 2 + 1); tag = "#fit-dup"; break;
        case 4: fault = "z" + num(r.range(1, 5)); tag = "#fit-zero"; break;
        default: if (c.allow_inf && r.p(0.3)) { fault = "H" + num(r.range(1, 2)); tag = "#fit-huge"; } break;
        }
    }
    Op o{"fitg", num(slot), s.dist, num((long)r.below(1u << 30)), num(n), hexd(s.scale), hexd(s.off), fault};
    if (!tag.empty()) o.w.push_back(tag);
    return o;
}
static Stream make_stream(Rng &r) {
    Stream s{DISTS[r.p(0.85) ? r.below(9) : r.below(DISTS.size())], 1.0, 0.0, Rng(r.next())};
    if (r.p(0.35)) s.scale = std::ldexp(1.0, (int)r.range(-20, 24));
    if (r.p(0.4)) s.off = round_to(s.scale * r.uni(-100, 100));
    if (r.p(0.02)) s.scale = std::pow(10, r.uni(-300, 300));
    if (r.p(0.02)) s.scale = -s.scale;
    return s;
}
static std::string err_codes(Rng &r) { static const std::vector<long> c = {1000, 1001, 1002, 1003, 1004, 1005, 1006, 999, 0, -1, 2000000000, -1000}; return num(r.pick(c)); }

// rare, expensive shapes: very long streams over small windows, very large windows
static Trace gen_long(Rng &r, GenCfg c) {
    Trace t;
    t.push_back({"garb", num((long)r.below(1u << 30))});
    bool wide = c.prop == "C16" || r.p(0.35);
    double q = std::pow(10, -(double)r.range(3, 8));
    Stream s = make_stream(r);
    long cap = c.prop == "C16" ? r.range(20000, 30000) : wide ? (r.p(0.5) ? r.range(65534, 65540) : r.range(3000, 9000)) : r.range(1, 12);
    t.push_back({"init", "0", hexd(q), num(r.range(0, 1)), num(r.range(0, 1)), hexd(wide ? 0.1 : 0.9), num(cap), num((long)r.below(1u << 30))});
    t.push_back({"fitg", "0", "lognorm", num((long)r.below(1u << 30)), num(wide ? cap + cap / 4 + 500 : r.range(20, 300)), hexd(std::fabs(s.scale)), hexd(0), "-"});
    auto tail = [&]() {
        for (int k = 0; k < (wide ? 4 : 40); k++) {
            double u = r.u();
            if (u < 0.1 && c.allow_nan) t.push_back({"step", "0", "nan", "#nan"});
            else if (u < 0.2) t.push_back({"step", "0", r.p(0.5) ? "T-1" : "Z+1", "#boundary"});
            else if (u < 0.3) t.push_back({"quant", "0", "s*" + hexd(r.u())});
            else if (u < 0.4) t.push_back({"prob", "0", "S" + hexd(r.expo())});
            else if (u < 0.45) t.push_back({"step", "0", "E" + hexd(std::fabs(s.scale) * std::pow(10, r.uni(0, 9))), "#spike"});
            else t.push_back({"step", "0", r.p(0.5) ? "Q" + hexd(r.u()) : "S" + hexd(r.expo())});
        }
    };
    tail();
    if (!wide) for (int k = 0; k < 3; k++) {
        t.push_back({"burst", "0", r.p(0.5) ? "expo" : "gauss", num((long)r.below(1u << 30)), num(c.prop != "C01" && r.p(0.3) ? r.range(65500, 66500) : r.range(3000, 12000)), hexd(std::fabs(s.scale)), "#long"});
        tail();
    }
    t.push_back({"free", "0"});
    return t;
}
Trace gen_history(Rng &r, GenCfg c) {
    if (r.p(c.p_long)) return gen_long(r, c);
    Trace t;
    t.push_back({"garb", num((long)(r.p(0.3) ? r.below(3) : r.below(1u << 30)))});
    int slots = (c.multi && r.p(0.35)) ? (int)r.range(2, c.maxslots) : 1;
    std::vector<Stream> st;
    std::vector<bool> big(slots, false);
    // swarm: every run enables its own subset of faults
    bool f_nan = c.allow_nan && r.p(0.4), f_inf = c.allow_inf && r.p(0.25), f_spike = r.p(0.4), f_dup = r.p(0.3), f_reorder = r.p(0.3), f_drop = r.p(0.3), f_stuck = r.p(0.25),
         f_bound = r.p(0.6), f_drift = r.p(0.25), f_age = r.p(0.25), f_alloc = r.p(0.4), f_bad = r.p(0.35), f_refit = r.p(0.4), f_zero = r.p(0.2), f_tiny = r.p(0.1), f_hugefin = c.allow_inf && r.p(0.08);
    double p_exc = c.p_exc >= 0 ? c.p_exc : r.pick(std::vector<double>{0.05, 0.2, 0.4, 0.6, 0.9});
    for (int s = 0; s < slots; s++) {
        st.push_back(make_stream(r));
        if (f_alloc && r.p(c.p_alloc_fail * 4)) t.push_back(r.p(0.25) ? Op{"unreg", "#noalloc"} : Op{"failalloc", num(r.range(1, 2)), "#allocfail"});
        if (f_bad && r.p(c.p_badinit * 4)) t.push_back(bad_init(r, c, s));
        Op in = make_init(r, c, s);
        big[s] = atol(in.w[6].c_str()) > 300;
        t.push_back(in);
        if (r.p(0.06)) t.push_back({"step", num(s), hexd(round_to(st[s].next())), "#prefit"});
        if (r.p(0.97)) t.push_back(make_fit(r, c, s, st[s]));
    }
    long len = r.p(0.7) ? r.range(c.min_len, (c.min_len + c.max_len) / 3) : r.range(c.min_len, c.max_len);
    bool anybig = false;
    for (bool b : big) anybig = anybig || b;
    auto emit = [&](int s, const std::string &v, const char *tag) {
        Op o{"step", num(s), v};
        if (tag) o.w.push_back(tag);
        t.push_back(o);
    };
    int stuck = 0; std::string stuckv; int stucks = 0;
    for (long i = 0; i < len; i++) {
        int s = (int)r.below(slots);
        if (stuck > 0) { emit(stucks, stuckv, stuckv == "nan" ? "#outage" : "#stuck"); stuck--; continue; }
        double dice = r.u();
        if (dice < c.p_query) {
            if (r.p(0.5)) t.push_back({"quant", num(s), r.p(0.8) ? "s*" + hexd(r.p(0.5) ? r.u() : std::pow(10, -r.uni(0, 12))) : hexd(std::pow(10, r.p(0.8) ? -r.uni(0, 15) : -r.uni(15, 307)))});
            else {
                std::string v;
                switch (r.below(9)) {
                case 8: { static const std::vector<double> nice = {0.0, -0.0, 1.0, -1.0, 2.0, 10.0, -10.0, 100.0, 0.5}; v = hexd(r.pick(nice)); break; }
                case 0: v = "T+" + num(r.range(0, 3)); break;
                case 1: v = "E" + hexd(std::pow(10, r.uni(-8, 12))); break;
                case 2: v = "Q" + hexd(r.uni(0, 5)); break;
                case 3: v = "Z+" + num(r.range(-2, 2)); break;
                case 4: v = r.p(0.5) ? "Einf" : "E" + hexd(std::pow(10, r.uni(10, 308))); break;
                case 5: v = "M" + hexd(r.uni(0, 3)); break;
                default: v = "S" + hexd(r.expo() * 3); break;
                }
                t.push_back({"prob", num(s), v});
            }
            continue;
        }
        dice -= c.p_query;
        if (dice < c.p_text) { static const std::vector<std::string> w = {"err", "ver", "lic"}; t.push_back({"text", r.pick(w), err_codes(r), num(r.pick(std::vector<long>{0, 1, 2, 5, 24, 64, 256}))}); continue; }
        dice -= c.p_text;
        if (f_refit && dice < c.p_refit) { if (r.p(0.3)) st[s] = make_stream(r); t.push_back(make_fit(r, c, s, st[s])); continue; }
        dice -= c.p_refit;
        if (dice < c.p_reinit) {
            if (f_alloc && r.p(0.5)) t.push_back(r.p(0.25) ? Op{"unreg", "#noalloc"} : Op{"failalloc", "1", "#allocfail"});
            if (r.p(0.4)) t.push_back({"free", num(s)});
            if (f_bad && r.p(0.6)) t.push_back(bad_init(r, c, s));
            else {
                t.push_back(make_init(r, c, s));
                if (r.p(0.9)) t.push_back(make_fit(r, c, s, st[s]));
            }
            continue;
        }
        dice -= c.p_reinit;
        if (f_age && dice < c.p_age) {
            static const std::vector<std::string> ns = {"4294967286", "4294967295", "2147483640", "1000000", "9007199254740992", "1099511627776"};
            static const std::vector<unsigned long> edges = {256, 1000, 1024, 10000, 32768, 65536, 100000, 1000000, 1ul << 24, 1ul << 31, 1ul << 32, 10000000000ul, 1ul << 53};
            auto target = [&]() { return "^" + std::to_string(r.pick(edges) - r.below(8)); };
            if (r.p(0.35)) t.push_back({"age", num(s), r.pick(ns), r.p(0.5) ? "0" : r.pick(ns), "#age"});
            else if (r.p(0.5)) t.push_back({"age", num(s), target(), "0", "#age-edge"});
            else t.push_back({"age", num(s), "0", target(), "#age-edge"});
            continue;
        }
        if (f_drift && r.p(0.01)) { st[s].off += st[s].scale * r.uni(-2, 2); t.push_back({"note", "#drift"}); }
        if (f_nan && r.p(0.06)) { emit(s, "nan", "#nan"); continue; }
        if (f_inf && r.p(0.03)) { emit(s, r.p(0.7) ? "Einf" : (r.p(0.5) ? "inf" : "-inf"), "#inf"); continue; }
        if (f_hugefin && r.p(0.05)) { emit(s, "E" + hexd(std::pow(10, r.uni(100, 307))), "#huge"); continue; }
        if (f_spike && r.p(0.04)) { emit(s, r.p(0.6) ? "E" + hexd(round_to(std::fabs(st[s].scale) * std::pow(10, r.uni(0, 9)))) : hexd(round_to(st[s].off + st[s].scale * r.gauss() * 1e4)), "#spike"); continue; }
        if (f_bound && r.p(0.12)) { emit(s, std::string(r.p(0.5) ? "T" : "Z") + (r.p(0.5) ? "+" : "-") + num(r.range(0, 2)), "#boundary"); continue; }
        if (f_zero && r.p(0.05)) { emit(s, "E0x0p+0", "#zero-excess"); continue; }
        if (f_tiny && r.p(0.05)) { emit(s, "E" + hexd(std::pow(10, r.uni(-320, -200))), "#tiny"); continue; }
        if (r.p(p_exc)) {
            double z = r.u();
            if (z < 0.45) emit(s, "Q" + hexd(round_to(r.u())), nullptr);
            else if (z < 0.8) emit(s, "S" + hexd(round_to(r.expo())), nullptr);
            else if (z < 0.9) emit(s, "Q" + hexd(round_to(r.uni(0.8, 1.4))), nullptr);
            else emit(s, "E" + hexd(round_to(std::fabs(st[s].scale) * r.expo())), nullptr);
            continue;
        }
        double x = round_to(st[s].next());
        if (f_drop && r.p(0.08)) { t.push_back({"note", "#drop"}); continue; }
        emit(s, hexd(x), nullptr);
        if (f_dup && r.p(0.08)) emit(s, hexd(x), "#dup");
        if (f_reorder && r.p(0.08) && t.size() > 2 && t[t.size() - 2].k() == "step") { std::swap(t[t.size() - 1], t[t.size() - 2]); t[t.size() - 2].w.push_back("#reorder"); }
        if (f_stuck && r.p(0.02)) { 
            stuck = r.p(0.9) ? (int)r.range(2, 30) : (int)r.range(30, 300); stucks = s;
            double u = r.u();
            stuckv = u < 0.4 ? hexd(x) : u < 0.65 ? "Q" + hexd(round_to(r.u())) : u < 0.8 ? "Z+1" : u < 0.9 || !c.allow_nan ? hexd(round_to(st[s].off + (r.p(0.5) ? 1 : -1) * std::fabs(st[s].scale) * r.uni(3, 1000))) : "nan";
        }
    }
    if (anybig) {  // fill large windows quickly
        for (int s = 0; s < slots; s++) if (big[s]) {
            t.push_back({"burst", num(s), r.p(0.5) ? "expo" : "unif", num((long)r.below(1u << 30)), num(r.range(100, 1200)), hexd(std::fabs(st[s].scale))});
            for (int k = 0; k < 6; k++) {
                if (c.allow_nan && r.p(0.3)) emit(s, "nan", "#nan");
                emit(s, r.p(0.5) ? "T-1" : r.p(0.5) ? "Z+1" : "Q" + hexd(round_to(r.u())), nullptr);
            }
            t.push_back({"quant", num(s), "s*" + hexd(r.u())});
            t.push_back({"prob", num(s), "S" + hexd(r.expo())});
        }
    }
    for (int s = 0; s < slots; s++) if (r.p(0.8)) t.push_back({"free", num(s)});
    return t;
}
