"""What each check builds from the repository and runs."""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        print("ERROR build failed:", " ".join(cmd)[:400]); print(p.stdout[-4000:]); sys.exit(3)
    return p.stdout


class Lane:
    def __init__(self, name, dir, cmd, env, runs, libname="", base=0):
        self.name, self.dir, self._cmd, self._env, self.runs, self.libname, self.base = name, dir, cmd, env, runs, libname, base

    def cmd(self):
        return list(self._cmd)

    def env(self):
        e = dict(os.environ); e.pop("LD_PRELOAD", None)
        e.update(self._env)
        return e


# ------------------------------------------------------------------ C core
CF = ["-std=c99", "-ffp-contract=off", "-fPIC", '-DVERSION="sim"']
FLAV = {
    "plain": (["gcc", "-O3"], ["gcc"]),
    "asan": (["clang", "-O0", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"], ["clang", "-fsanitize=address,undefined"]),
    "msan": (["clang", "-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all"], ["clang", "-fsanitize=memory"]),
    "inst": (["clang", "-O1", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard"], ["clang"]),
}
ENV = {
    "plain": {}, "inst": {},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"},
    "msan": {"MSAN_OPTIONS": "poison_in_malloc=0:poison_in_free=0:intercept_memcmp=0:intercept_strlen=0:intercept_strchr=0:intercept_strcmp=0:strict_memcmp=0:exitcode=77"},
}


def build_core(repo, out, flavors):
    """The library in several flavours and the simulator linked for each."""
    srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c")))
    inc = ["-I" + os.path.join(repo, "include")]
    jobs = []
    for f in flavors:
        cc, _ = FLAV[f]
        os.makedirs(os.path.join(out, f), exist_ok=True)
        for s in srcs:
            jobs.append(cc + CF + inc + ["-c", s, "-o", os.path.join(out, f, os.path.basename(s)[:-2] + ".o")])
    hs = sorted(glob.glob(os.path.join(HERE, "core", "*.cpp")))
    cxx = ["clang++", "-std=c++17", "-O1"] + inc
    for h in hs:
        jobs.append(cxx + ["-c", h, "-o", os.path.join(out, os.path.basename(h)[:-4] + ".ho")])
    if "inst" in flavors:
        jobs.append(cxx + ["-DSIM_INST", "-c", os.path.join(HERE, "core", "lib.cpp"), "-o", os.path.join(out, "lib.inst.ho")])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda c: sh(c, cwd=out), jobs))
    objs = sorted(os.path.join(out, os.path.basename(h)[:-4] + ".ho") for h in hs)
    link = {"plain": [], "asan": ["-fsanitize=address,undefined"], "msan": ["-fsanitize=memory"], "inst": []}

    def ln(f):
        sh(FLAV[f][1] + ["-shared", "-o", os.path.join(out, "lib%s.so" % f)] + sorted(glob.glob(os.path.join(out, f, "*.o"))))
        o = [x if not (f == "inst" and x.endswith("/lib.ho")) else os.path.join(out, "lib.inst.ho") for x in objs]
        sh(["clang++", "-rdynamic"] + link[f] + o + ["-ldl", "-lpthread", "-o", os.path.join(out, "simcore." + f)])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(ln, flavors))


def core_lanes(prop, repo, out):
    lanes = CONFIG[prop]["lanes"]
    build_core(repo, out, sorted(set(l[0] for l in lanes)))
    res = []
    for i, (f, runs) in enumerate(lanes):
        env = dict(ENV[f]); env.update(SIM_FLAVOR=f, SIM_LIB=os.path.join(out, "lib%s.so" % f))
        res.append(Lane(f, out, [os.path.join(out, "simcore." + f)], env, runs, "lib%s.so" % f, 10000000 * i))
    return res


def build(prop, repo, out, log):
    eng = CONFIG[prop].get("engine", "core")
    if eng == "core":
        return core_lanes(prop, repo, out)
    import importlib
    return importlib.import_module(eng).lanes(prop, repo, out, log, CONFIG[prop])


def sample(lane, prop, seed, run, tier):
    p = subprocess.run(lane.cmd() + ["gen", prop, str(seed), str(run), tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=lane.env(), text=True)
    ls = p.stdout.splitlines()
    return ls[:14] + (["... %d more lines" % (len(ls) - 14)] if len(ls) > 14 else [])


def check_known(prop, cls, lanes, replay, verif):
    """Replays the scripted history of a listed finding; true if it still fails in the listed way."""
    path = os.path.join(verif, "known", "%s-%s.trace" % (prop, cls))
    if not os.path.exists(path):
        return False
    k, m, _, _ = replay(lanes[0], prop, path, alarm=20)
    return k in ("viol", "crash")


# ------------------------------------------------------------------ per property configuration
CORE_COMPONENTS = {
    "real": ["libspot C core: spot, tail, peaks, ubend, estimator, brent, p2, xmath, allocator (compiled from /repo/src)"],
    "simulated": ["sensor and transport producing the readings", "memory allocator", "contents of fresh memory and of the stack"],
    "stubbed": [],
}
INST_COMPONENTS = {
    "real": CORE_COMPONENTS["real"],
    "simulated": CORE_COMPONENTS["simulated"] + ["thread scheduler, process crash and restart, step counter (compiler instrumentation callbacks at every memory access and basic block)"],
    "stubbed": [],
}
MEAS = "distinct tuples (operation, answer, mode flags, wrap-around, retained excesses capped at 12, magnitude bucket of tail parameters, counters beyond 2^32)"
RULE = ("one evaluation is one simulated run: a seeded history over 1-3 detectors (configuration, training batches, readings with a random subset of fault kinds, queries, aging, "
        "allocation failures, re-initialisation) with every invariant checked after every operation; non-trivial: at least one training or decisive event took place, and its event log (hash) differs from all others")


def C(lanes, rule=RULE, measure=MEAS, components=CORE_COMPONENTS, **k):
    d = {"lanes": lanes, "rule": rule, "measure": measure, "components": components, "deadline": {"quick": 110, "thorough": 1500},
         "assumptions": ["sampling: a clean batch of runs is evidence, not proof", "compiled for x86-64 with gcc/clang, floating-point contraction off"]}
    d.update(k)
    return d


def n(q, t):
    return {"quick": q, "thorough": t}


PY_COMPONENTS = {
    "real": ["python/libspotmodule.c and the C core (compiled from /repo, memory seams linked in)", "the CPython interpreter"],
    "simulated": ["the program using the binding and the code its argument objects run while being converted", "malloc of the extension, allocators of the interpreter", "garbage collection times and object lifetimes"],
    "stubbed": [],
}
PY_MEAS = "distinct tuples (operation, failed or not, class of the detector, re-entrancy depth, kind of argument)"
PY_RULE = ("one evaluation is one simulated run in a forked interpreter: a seeded history over 1-3 Python detectors with arguments of many types, re-entrant conversions, bad arguments and failing allocations, "
           "compared after every operation with the same operations on the C library; non-trivial: more than six operations, distinct event log")

JS_COMPONENTS = {
    "real": ["wasm/index.ts (compiled by esbuild) and wasm/main.c", "the C core compiled to WebAssembly (clang)", "the JavaScript engine and its WebAssembly implementation"],
    "simulated": ["the program using the binding", "the loader and heap Emscripten would provide: malloc, free, memory growth", "the garbage collector: which unreachable detector is finalised when"],
    "stubbed": ["emscripten.h, stdio.h, stdlib.h (declarations only)"],
}
JS_MEAS = "distinct tuples (operation, failed or not, kind of view, live detectors, unreachable detectors waiting for finalisation capped at 3, memory grown or not)"
JS_RULE = ("one evaluation is one simulated run in a fresh instance of the module: a seeded history over 1-3 JavaScript detectors with many kinds of views, refused calls, memory growth inside calls, finalisations in any order and failing allocations, "
           "compared after every operation with the same operations on the C core in an instance of its own; non-trivial: more than six operations, distinct event log")

CONFIG = {
    "C01": C([("asan", n(40000, 300000)), ("msan", n(24000, 200000))]),
    "C02": C([("plain", n(140000, 1000000))]),
    "C03": C([("plain", n(48000, 600000))]),
    "C04": C([("plain", n(80000, 1000000))]),
    "C05": C([("plain", n(80000, 1000000))]),
    "C06": C([("plain", n(80000, 1000000))]),
    "C07": C([("plain", n(80000, 1000000))]),
    "C08": C([("plain", n(48000, 600000))]),
    "C09": C([("plain", n(48000, 600000))]),
    "C10": C([("plain", n(80000, 1000000))]),
    "C11": C([("plain", n(80000, 1000000))]),
    "C12": C([("plain", n(48000, 600000))]),
    "C13": C([("inst", n(12000, 60000))], components=INST_COMPONENTS, measure="distinct interleavings: hash of the sequence of (thread switched to, number of library memory accesses executed so far)",
             rule="one evaluation is one simulated run: 2-4 threads with their own detectors and one shared read-only detector, every switch decided by the trace at library memory accesses; non-trivial: more than three operations per thread, distinct event log"),
    "C14": C([("inst", n(9000, 120000))], components=INST_COMPONENTS, rule=RULE + "; here with checkpoints and crashes between and inside calls"),
    "C15": C([("plain", n(48000, 600000))], components={"real": CORE_COMPONENTS["real"], "simulated": CORE_COMPONENTS["simulated"] + ["frexp/ldexp replacements: six correct variants"], "stubbed": []}),
    "C16": C([("inst", n(3900, 100000))], components=INST_COMPONENTS),
    "C17": C([("plain", n(18000, 400000))]),
    "C22": C([("plain", n(48000, 600000))]),
    "C23": C([("plain", n(9000, 200000))]),
    "C18": C([("plain", n(27200, 400000))], engine="pyengine", components=PY_COMPONENTS, measure=PY_MEAS, rule=PY_RULE),
    "C19": C([("plain", n(14000, 250000)), ("asan", n(2800, 40000))], engine="pyengine", components=PY_COMPONENTS, measure=PY_MEAS, rule=PY_RULE + "; every run is executed twice in its process, the second time with every block obtained inside a call tracked to its release"),
    "C20": C([("node", n(32000, 400000))], engine="jsengine", components=JS_COMPONENTS, measure=JS_MEAS, rule=JS_RULE, assumptions=["sampling: a clean batch of runs is evidence, not proof", "compiled with clang for wasm32 instead of Emscripten"]),
    "C21": C([("node", n(16800, 300000))], engine="jsengine", components=JS_COMPONENTS, measure=JS_MEAS, rule=JS_RULE + "; every run is executed twice in its module, blocks that remain in addition after the second pass have leaked", assumptions=["sampling: a clean batch of runs is evidence, not proof", "compiled with clang for wasm32 instead of Emscripten"]),
}
