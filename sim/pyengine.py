"""Builds the Python extension from the repository, with the memory seams linked in, and the reference library."""
import glob, os, shutil, subprocess
import engines

HERE = os.path.dirname(os.path.abspath(__file__))


def python():
    p = "/opt/vp/venv/bin/python"
    return p if os.path.exists(p) else "/usr/bin/python3"


def scratch_copy(repo, out, dirs=("src", "include", "python")):
    """The sources, with dist/spot.h made the way the Makefile makes it (without its reformatting)."""
    src = os.path.join(out, "tree")
    os.makedirs(os.path.join(src, "dist"))
    for d in dirs:
        shutil.copytree(os.path.join(repo, d), os.path.join(src, d), ignore=shutil.ignore_patterns("build", "dist", "*.so", "*.egg-info", "__pycache__", "node_modules", "types"))
    shutil.copy(os.path.join(repo, "Makefile"), src)
    api = []
    for h in ("structs.h", "spot.h"):
        text = open(os.path.join(src, "include", h)).read()
        head = text.find("*/")
        body = text[text.index("\n", head) + 1:] if head >= 0 else text
        api += [l for l in body.split("\n") if not l.startswith("#")]
    with open(os.path.join(src, "dist", "spot.h"), "w") as f:
        f.write("\n".join(api) + "\n")
    return src


def version(src):
    for l in open(os.path.join(src, "Makefile")):
        if l.startswith("VERSION"):
            return l.split("=", 1)[1].strip()
    return "unknown"


def lanes(prop, repo, out, log, cfg):
    src = scratch_copy(repo, out)
    py = python()
    inc = subprocess.run([py, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    ver = ['-DVERSION="%s"' % version(src)]
    csrc = sorted(glob.glob(os.path.join(src, "src", "*.c")))
    I = ["-I" + os.path.join(src, "include")]
    engines.sh(["gcc", "-O2", "-std=c99", "-ffp-contract=off", "-w", "-shared", "-fPIC"] + ver + I + csrc + [os.path.join(HERE, "py", "ref.c"), "-o", os.path.join(out, "libref.so")])
    res = []
    for i, (f, runs) in enumerate(cfg["lanes"]):
        cc = ["gcc", "-O2"] if f == "plain" else ["clang", "-O0", "-g", "-shared-libasan", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function", "-DPAD=0"]
        d = os.path.join(out, f); os.makedirs(d, exist_ok=True)
        objs = []
        for c in csrc + [os.path.join(src, "python", "libspotmodule.c")]:
            o = os.path.join(d, os.path.basename(c)[:-2] + ".o"); objs.append(o)
            engines.sh(cc + ["-std=c99", "-ffp-contract=off", "-fPIC", "-w", "-finstrument-functions", "-DPy_LIMITED_API=0x03060000"] + ver + I + ["-I" + os.path.join(src, "dist"), "-I" + inc, "-c", c, "-o", o])
        seam = os.path.join(d, "seam.o")
        engines.sh([x for x in cc if not x.startswith("-fsanitize")] + ["-O1", "-fPIC", "-w", "-I" + inc, "-c", os.path.join(HERE, "py", "seam.c"), "-o", seam])
        ext = os.path.join(d, "libspot.abi3.so")
        engines.sh(cc + ["-shared", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=PyEval_SaveThread,--wrap=PyEval_RestoreThread"] + objs + [seam, "-o", ext])
        env = {"SIM_EXT": ext, "SIM_REF": os.path.join(out, "libref.so"), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        if f == "asan":
            rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            env.update(LD_PRELOAD=rt, PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:exitcode=77:use_sigaltstack=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
        res.append(engines.Lane(f, out, [py, "-X", "utf8", os.path.join(HERE, "py", "pysim.py")], env, runs, "libspot.abi3.so", 10000000 * i))
    return res
