"""Builds the JavaScript binding and its WebAssembly module from the repository, and the reference module."""
import glob, os, shutil
import engines, pyengine

HERE = os.path.dirname(os.path.abspath(__file__))
EXPORTS = "spot_size spot_new spot_init spot_fit spot_step spot_quantile spot_probability spot_free libspot_error libspot_version set_allocators".split()
REFX = "ref_setup ref_new ref_sizeof ref_anomaly ref_excess ref_sigma ref_low spot_init spot_fit spot_step spot_quantile spot_probability spot_free libspot_error libspot_version".split()


def esbuild():
    for p in ("/opt/veriftools/node/node_modules/.bin/esbuild", "/opt/veriftools/node/node_modules/esbuild/bin/esbuild"):
        if os.path.exists(p):
            return p
    return shutil.which("esbuild") or "esbuild"


def lanes(prop, repo, out, log, cfg):
    src = pyengine.scratch_copy(repo, out, ("src", "include", "wasm"))
    flags = ["clang", "--target=wasm32", "-O2", "-std=c99", "-ffp-contract=off", "-w", "-nostdlib", "-ffreestanding", '-DVERSION="%s"' % pyengine.version(src),
             "-I" + os.path.join(src, "include"), "-isystem", os.path.join(HERE, "js", "stubs")]
    core = sorted(glob.glob(os.path.join(src, "src", "*.c")))
    extra = [f for f in sorted(glob.glob(os.path.join(src, "wasm", "*.c")))]
    rt = os.path.join(HERE, "js", "rt.c")

    def link(files, exports, target, defs):
        objs = []
        d = target + ".o"; os.makedirs(d, exist_ok=True)
        for c in files:
            o = os.path.join(d, os.path.basename(c) + ".o"); objs.append(o)
            engines.sh(flags + (defs if c in extra else []) + ["-c", c, "-o", o])
        engines.sh(["wasm-ld", "--no-entry", "--allow-undefined", "--global-base=1024", "-z", "stack-size=65536", "--initial-memory=196608", "--max-memory=134217728", "--export=__heap_base"] + ["--export=" + e for e in exports] + objs + ["-o", target])
    wasm, ref = os.path.join(out, "libspot.wasm"), os.path.join(out, "ref.wasm")
    link(core + extra + [rt], EXPORTS + ["spot_main_"], wasm, ["-Dmain=spot_main_"])
    link(core + [os.path.join(HERE, "js", "ref.c"), rt], REFX, ref, [])
    js = os.path.join(out, "index.mjs")
    engines.sh([esbuild(), os.path.join(src, "wasm", "index.ts"), "--bundle", "--format=esm", "--target=esnext", "--external:*libspot.core.js", "--outfile=" + js, "--log-level=warning"])
    env = {"SIM_JS": js, "SIM_WASM": wasm, "SIM_REF": ref, "NODE_OPTIONS": ""}
    return [engines.Lane(f, out, ["node", "--experimental-vm-modules", "--no-warnings", "--expose-gc", os.path.join(HERE, "js", "jssim.mjs")], env, runs, "libspot.wasm", 10000000 * i) for i, (f, runs) in enumerate(cfg["lanes"])]
