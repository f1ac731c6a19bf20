// simcore: generate, run, replay.
//   simcore gen   PROP SEED RUN TIER              print the trace of a run
//   simcore run   PROP SEED FROM TO STRIDE TIER STATUSFILE DEADLINE_S    run many
//   simcore replay PROP FILE                      execute a trace file
#include "sim.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <time.h>
#include <sys/time.h>

static volatile long *g_status = nullptr;  // [0] current run, [1] state
static void on_alarm(int) {
    const char m[] = "\nHANG\n";
    if (write(1, m, sizeof m - 1) < 0) {}
    _exit(86);
}
// processor time, so that a busy machine does not turn a slow run into a hang
static void budget(unsigned s) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s; setitimer(ITIMER_PROF, &v, nullptr); alarm(4 * s); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void print_viol(const RunOut &o, u64 run) {
    for (auto &v : o.viol) { printf("VIOL run=%llu op=%ld prop=%s :: %s\n", (unsigned long long)run, v.op, v.prop.c_str(), v.msg.c_str()); }
}
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    const char *fl = getenv("SIM_FLAVOR");
    std::string f = fl ? fl : "plain";
    g_flavor = f == "asan" ? F_ASAN : f == "msan" ? F_MSAN : f == "inst" ? F_INST : F_PLAIN;
    const char *lib = getenv("SIM_LIB");
    if (!lib) { fprintf(stderr, "HARNESS SIM_LIB unset\n"); return 3; }
    std::string cmd = argv[1], prop = argv[2];
    if (cmd == "gen") {
        u64 seed = strtoull(argv[3], 0, 10), run = strtoull(argv[4], 0, 10);
        for (auto &op : gen_for(prop, seed, run, argc > 5 && std::string(argv[5]) == "thorough")) printf("%s\n", op.text().c_str());
        return 0;
    }
    lib_load(lib);
    g_readonly = prop == "C01";
    // a small stack, as threads of embedded systems have: memory use that grows with the batch ends the process
    if ((g_flavor == F_PLAIN || g_flavor == F_ASAN) && (prop == "C01" || prop == "C02")) { struct rlimit rl; if (!getrlimit(RLIMIT_STACK, &rl)) { rl.rlim_cur = 256 * 1024; setrlimit(RLIMIT_STACK, &rl); } }
    signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
    unsigned limit = getenv("SIM_ALARM") ? (unsigned)atoi(getenv("SIM_ALARM")) : 30;
    if (cmd == "replay") {
        FILE *fp = fopen(argv[3], "r");
        if (!fp) { fprintf(stderr, "HARNESS cannot open %s\n", argv[3]); return 3; }
        Trace t; char *line = nullptr; size_t cap = 0;
        while (getline(&line, &cap, fp) > 0) { if (line[0] == '#') continue; Op o = parse_op(line); if (!o.w.empty()) t.push_back(o); }
        fclose(fp); free(line);
        budget(limit);
        RunOut o;
        exec_for(prop, t, o);
        print_viol(o, 0);
        printf("HASH %016llx steps=%llu\n", (unsigned long long)o.hash, (unsigned long long)o.steps);
        return o.viol.empty() ? 0 : 1;
    }
    if (cmd == "run" && argc >= 10) {
        u64 seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), to = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
        bool thorough = std::string(argv[7]) == "thorough";
        int fd = open(argv[8], O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 64)) return 3;
        g_status = (volatile long *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        double end = now() + atof(argv[9]);
        u64 done = 0, nontriv = 0, steps = 0, hsum = 0, firsthash = 0;
        std::map<std::string, u64> cnt;
        std::unordered_set<u64> states, traces;
        int nv = 0;
        for (u64 run = from; run < to; run += stride) {
            if (now() > end) break;
            g_status[0] = (long)run; g_status[1] = 1;
            Trace t = gen_for(prop, seed, run, thorough);
            RunOut o;
            double t0 = getenv("SIM_SLOW") ? now() : 0;
            budget(limit);
            exec_for(prop, t, o);
            budget(0);
            if (t0 && now() - t0 > 1.5) printf("SLOW %llu %.1f\n", (unsigned long long)run, now() - t0);
            done++; steps += o.steps;
            hsum = mix(hsum, o.hash);
            if (!firsthash) firsthash = o.hash;
            if (o.nontrivial && traces.insert(o.hash).second) nontriv++;
            for (auto &kv : o.cnt) cnt[kv.first] += kv.second;
            if (states.size() < 2000000) states.insert(o.states.begin(), o.states.end());
            if (getenv("SIM_HASHES")) printf("RH %llu %016llx\n", (unsigned long long)run, (unsigned long long)o.hash);
            if (!o.viol.empty()) { print_viol(o, run); fflush(stdout); nv++; break; }
        }
        g_status[1] = 0;
        printf("DONE runs=%llu nontrivial=%llu steps=%llu hash=%016llx states=%zu\n", (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)hsum, states.size());
        for (auto &kv : cnt) printf("CNT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        if (getenv("SIM_STATES")) { FILE *sf = fopen(getenv("SIM_STATES"), "wb"); if (sf) { for (u64 s : states) fwrite(&s, 8, 1, sf); fclose(sf); } }
        if (getenv("SIM_TRACES")) { FILE *sf = fopen(getenv("SIM_TRACES"), "wb"); if (sf) { for (u64 s : traces) fwrite(&s, 8, 1, sf); fclose(sf); } }
        return nv ? 1 : 0;
    }
    return 3;
}
