"""Simulates programs using the Python binding: one seeded trace is one exactly repeatable execution.

pysim.py gen PROP SEED RUN TIER | run PROP SEED FROM TO STRIDE TIER STATUS DEADLINE | replay PROP FILE
Every run is executed in a child forked from the same pristine parent.  Environment: SIM_EXT (extension), SIM_REF (reference).
"""
import array, collections, ctypes, decimal, fractions, gc, hashlib, importlib.machinery, importlib.util, json, math, mmap, os, random, re, signal, struct, sys, time

try:
    import numpy as np
except Exception:           # the numpy containers are then left out
    np = None

NSLOT = 4
FIELDS_D = ["q", "level", "anomaly_threshold", "excess_threshold", "gamma", "sigma", "e", "e2", "min", "max", "last_erased_data", "up_down"]
FIELDS_U = ["Nt", "n", "low", "discard_anomalies", "cursor", "capacity", "filled", "data"]


class Boom(Exception):
    pass


def hexf(x):
    return x.hex() if x == x and abs(x) != math.inf else repr(x)


def unhex(s):
    return float.fromhex(s)


def same(a, b):
    return a == b or (a != a and b != b)


# ------------------------------------------------------------------ generation
GOODTOK = ["f", "f", "f", "i", "b", "fr", "de", "sf", "ix", "nf", "n64", "ni", "ff"]
BADTOK = ["N", "s", "c", "o", "big", "L", "R", "W", "Wi", "by"]
GENERIC = ["list", "list", "tuple", "deque", "getitem", "gen", "iterobj", "map"]
TYPED = ["arrd", "arrf", "arri", "range", "npd", "npf", "npi", "np2", "dictk", "bytes", "mview", "npbe", "nprev", "npcol", "nph", "npu8", "npbool", "npobj", "npsub", "mvf", "mvrev", "arrq", "arrB", "lsub", "tsub", "asub", "set", "npro"]
BADCONT = ["None", "int", "obj", "iterfail", "getfail", "str", "noniter"]


def rnd(x):
    return struct.unpack("f", struct.pack("f", max(-3e38, min(3e38, x))))[0]


def gen(prop, seed, run, tier):
    r = random.Random("%s/%s/%s" % (prop, seed, run))
    faults = prop == "C19"
    T = []
    nslots = r.randint(1, 3)
    evil = r.random() < 0.45
    f_mem, f_bad, f_life = faults and r.random() < 0.6, faults and r.random() < 0.6, faults and r.random() < 0.6
    f_thr, f_age = r.random() < 0.4, r.random() < 0.3
    big = r.random() < 0.06
    scripts = []

    def tok(kind=None, val=None, bad=0.0, ev=0.0):
        if faults and r.random() < bad:
            return r.choice(BADTOK) + (":%d" % r.randrange(3))
        v = val if val is not None else rnd(r.gauss(0, 3)) if r.random() < 0.9 else rnd(r.choice([-1, 1]) * 10 ** r.uniform(-20, 25))
        if evil and r.random() < ev:
            k = len(scripts)
            scripts.append(k)
            return "E%d:%s" % (k, hexf(v))
        k = kind or r.choice(GOODTOK)
        return "%s:%s" % (k, hexf(v))

    def xtok(bad):
        if r.random() < 0.55 and not (faults and r.random() < bad):
            z = r.random()
            if z < 0.15:
                return "T:%d" % r.randint(-1, 1)
            if z < 0.5:
                return "Q:" + hexf(rnd(r.random()))
            if z < 0.85:
                return "S:" + hexf(rnd(r.expovariate(1)))
            return "f:" + r.choice(["nan", "inf", "-inf", "0x1.0p+1000", "0x0.0p+0", "-0x1.0p+0"])
        return tok(bad=bad, ev=0.25)

    def cfg(bad):
        level = r.choice([0.0, 0.5, 0.8, 0.9, 0.98, 0.99]) if r.random() < 0.8 else rnd(r.random())
        q = min(10.0 ** -r.randint(1, 7), (1 - level) / 3)
        a = [tok(kind=None if r.random() < 0.3 else "f", val=q, bad=bad / 4, ev=0.15)]
        a.append("-" if r.random() < 0.5 else r.choice(["z:0", "z:1", "z:1", "z:7", "b:1", "ixi:1", "z:256", "z:-65536"]))
        a.append("-" if r.random() < 0.5 else r.choice(["z:0", "z:0", "z:1", "b:0", "z:512", "z:-1"]))
        a.append("-" if level == 0.98 and r.random() < 0.5 else tok(kind="f" if r.random() < 0.7 else None, val=level, ev=0.1))
        a.append("-" if r.random() < 0.25 else "z:%d" % r.choice([1, 2, 3, 5, 8, 20, 50] + [600, 1500] * big))
        if r.random() < bad:
            i = r.randrange(6)
            if i == 0: a[0] = r.choice(["f:nan", "f:0x0.0p+0", "f:0x1.0p+0", "f:-0x1.0p-3", "f:inf"])
            if i == 1: a[3] = r.choice(["f:nan", "f:0x1.0p+0", "f:-0x1.0p-3", "f:inf"])
            if i == 2: a[4] = r.choice(["z:0", "z:%d" % (2**61), "z:%d" % (2**64 - 1), "z:%d" % (2**60), "z:%d" % (2**31 + 5), "z:%d" % (2**32 + r.randrange(9)), "z:-1", "z:-5"])
            if i == 3 and faults: a[1] = r.choice(["N:0", "f:0x1.8p+0", "s:0", "hugei:0", "R:0"])
            if i == 4 and faults: a[4] = r.choice(["N:0", "f:0x1.8p+0", "s:0", "R:0"])
            if i == 5 and faults: a[2] = r.choice(["o:0", "hugei:0"])
        return a

    def fit(s, bad):
        n = r.choice([5, 6, 8, 10, 20, 30, 60, 100]) if r.random() < 0.93 else r.randint(0, 4)
        if big and r.random() < 0.5:
            n = r.choice([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2000, 2049, 4097])
            if r.random() < 0.03: n = r.choice([8193, 16385, 33000, 66000])
        if faults and r.random() < bad * 0.4:
            return ["fit", s, r.choice(BADCONT), r.randrange(1 << 20), n, "gauss", hexf(1.0), hexf(0.0)]
        c = r.choice(TYPED if r.random() < 0.35 else GENERIC)
        o = ["fit", s, c, r.randrange(1 << 20), n, r.choice(["gauss", "expo", "unif", "cauchy", "ints"]), hexf(rnd(10 ** r.uniform(-3, 4)) if r.random() < 0.3 else 1.0), hexf(rnd(r.uniform(-50, 50)) if r.random() < 0.4 else 0.0)]
        if c in GENERIC and n:
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                o.append("%d@%s" % (r.randrange(n), tok(bad=0, ev=0.6)))
            if r.random() < bad * 0.5:
                o.append("%d@%s:0" % (r.randrange(n), r.choice(BADTOK)))
            if r.random() < 0.1:
                o.append("%d@f:%s" % (r.randrange(n), r.choice(["nan", "inf", "-inf"])))
        return o

    def op(depth):
        s = r.randrange(nslots)
        z = r.random()
        bad = 0.35 if f_bad else 0.05
        if z < 0.40: return ["step", s, xtok(bad * 0.3)]
        if z < 0.50: return ["quant", s, tok(val=r.choice([0.0, -0.0, 1.0, 2.0, -1.0, float("nan"), float("inf"), -float("inf"), 5e-324, 1e-300, 0.5, 2.0 ** 70]) if r.random() < 0.12 else 10.0 ** -r.randint(1, 6), bad=bad * 0.5, ev=0.2)]
        if z < 0.60: return ["prob", s, xtok(bad * 0.5)]
        if z < 0.72: return fit(s, bad)
        if z < 0.84: return ["view", s, r.choice(["dict", "dict", "exc", "exc", "raw", "attr", "attr", "module"])]
        if z < 0.88: return ["init", s] + cfg(bad)
        if z < 0.91: return ["gc"]
        if z < 0.94 and depth and r.random() < 0.8: return ["mut", r.choice(["clear", "pop", "append", "swap", "grow"])]
        if f_age and z < 0.955:
            big = [2**15, 2**16, 2**31, 2**32, 10**10, 2**53, 2**62]
            return ["age", s, r.choice(big) - r.randrange(4), r.choice([0, 0] + big[:5])]
        if z < 0.96 and faults: return r.choice([["setattr", s, r.choice(["q", "n", "gamma", "bogus"])], ["arity", s, r.choice(["step0", "step2", "fitkw", "new0", "newpos", "newkw", "rawarg", "other"])]])
        if f_life and z < 0.985: return ["drop", s]
        if faults and z < 0.992: return ["import", r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25, 30, 35, 40, 45, 50, 60, 80]) if r.random() < 0.7 else r.randint(1, 70)]
        return ["new", s, r.choice(["base", "base", "sub", "slots", "noinit", "cyc", "fin"] if f_life else ["base", "base", "sub"])] + cfg(bad)

    for s in range(nslots):
        c = cfg(0.05)
        T.append(["new", s, "base" if not f_life else r.choice(["base", "base", "sub", "slots", "noinit", "cyc", "fin"])] + c)
        T.append(fit(s, 0.02))
    for _ in range(r.randint(6, 60 if tier == "quick" else 120)):
        if f_mem and r.random() < 0.35:
            if r.random() < 0.65:
                T.append(["failp", r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40])])
            else:
                T.append(["failm", r.choice([1, 1, 1, 2])])
        if f_thr and r.random() < 0.3:
            T.append(["gil", r.choice([1, 1, 2, 3, 5, 8, 13, 25, 50, 100, 300])])
        T.append(op(0))
    if f_thr:
        for _ in range(r.randint(1, 4)):
            T.append(["n", "g"] + op(1))
    k = 0
    while k < len(scripts) and k < 12:
        for _ in range(r.randint(0, 3)):
            T.append(["n", k] + op(1))
        k += 1
    return [" ".join(str(x) for x in o) for o in T]


# ------------------------------------------------------------------ the real thing
class Env:
    pass


E = Env()


def load():
    ext, ref = os.environ["SIM_EXT"], os.environ["SIM_REF"]
    loader = importlib.machinery.ExtensionFileLoader("libspot", ext)
    spec = importlib.util.spec_from_file_location("libspot", ext, loader=loader)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    E.mod = m
    s = ctypes.PyDLL(ext)
    s.sim_call.restype = ctypes.py_object
    s.sim_call.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.py_object, ctypes.c_int, ctypes.c_long, ctypes.c_long]
    s.sim_import.restype = ctypes.py_object
    s.sim_import.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long]
    for f in ("sim_pfailed", "sim_mfailed", "sim_tracked", "sim_pcount"):
        getattr(s, f).restype = ctypes.c_long
    s.sim_error.restype = ctypes.c_char_p
    s.sim_install.restype = None
    s.sim_forget.restype = None
    s.sim_sched.argtypes = [ctypes.py_object]; s.sim_sched.restype = None
    s.sim_switch.argtypes = [ctypes.c_int]; s.sim_switch.restype = None
    E.seam = s
    L = ctypes.CDLL(ref)
    L.ref_sizeof.restype = ctypes.c_ulong
    L.spot_init.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_ulong]
    L.spot_free.argtypes = [ctypes.c_void_p]; L.spot_free.restype = None
    L.spot_fit.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_ulong]
    L.spot_step.argtypes = [ctypes.c_void_p, ctypes.c_double]
    L.spot_quantile.argtypes = [ctypes.c_void_p, ctypes.c_double]; L.spot_quantile.restype = ctypes.c_double
    L.spot_probability.argtypes = [ctypes.c_void_p, ctypes.c_double]; L.spot_probability.restype = ctypes.c_double
    L.ref_window.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_ulong]; L.ref_window.restype = ctypes.c_ulong
    L.ref_decode.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p]; L.ref_decode.restype = None
    L.libspot_error.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_ulong]; L.libspot_error.restype = None
    L.libspot_version.argtypes = [ctypes.c_char_p, ctypes.c_ulong]; L.libspot_version.restype = None
    L.ref_age.argtypes = [ctypes.c_void_p, ctypes.c_ulong, ctypes.c_ulong]
    L.ref_setup()
    E.L = L
    E.size = L.ref_sizeof()
    E.Spot = m.Spot

    class Sub(m.Spot):
        pass

    class SubSlots(m.Spot):
        __slots__ = ()

    class NoInit(m.Spot):
        def __init__(self, *a, **k):
            pass

    class Cyc(m.Spot):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.me = self

    class Fin(m.Spot):
        def __del__(self):
            o = E.seam.sim_pause(1)
            self.excesses(); self.as_dict(); self.raw()
            try:
                self.step(0.0)
            except RuntimeError:
                pass
            E.seam.sim_pause(o)
    E.cls = {"base": m.Spot, "sub": Sub, "slots": SubSlots, "noinit": NoInit, "cyc": Cyc, "fin": Fin}


_D, _U = (ctypes.c_double * 12)(), (ctypes.c_ulong * 8)()
_W = (ctypes.c_double * 4096)()


def decode(img):
    E.L.ref_decode(bytes(img), _D, _U)
    return list(_D), [u if u < 2**63 else u - 2**64 for u in _U]


class Ref:
    """The twin: the same operations on the C library."""

    def __init__(self):
        self.buf = ctypes.create_string_buffer(E.size)
        self.own = False

    def __del__(self):
        if self.own:
            E.L.spot_free(self.buf)

    def image(self):
        return self.buf.raw

    def window(self):
        n = E.L.ref_window(self.buf, _W, 4096)
        return list(_W[:n])


def errtext(code):
    b = ctypes.create_string_buffer(256)
    E.L.libspot_error(code, b, 256)
    return b.value.decode()


class SF(float):
    pass


class FF:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class IX:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v


class Raises:
    def __float__(self): raise Boom("float")
    def __index__(self): raise Boom("index")


class Wrong:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class GetItem:
    def __init__(self, l, fail=-1): self.l, self.fail = l, fail
    def __len__(self): return len(self.l)
    def __getitem__(self, i):
        if i == self.fail: raise Boom("item")
        return self.l[i]


class IterObj:
    def __init__(self, l, fail=-1): self.l, self.fail = l, fail
    def __iter__(self):
        for i, x in enumerate(self.l):
            if i == self.fail: raise Boom("iteration")
            yield x


def ident(x):
    return x


class LSub(list):
    """A list that iterates over other values than it stores."""
    def __iter__(self): return (x + 1.0 for x in list.__iter__(self))


class TSub(tuple):
    def __iter__(self): return (x * 2.0 for x in tuple.__iter__(self))


class ASub(array.array):
    def __iter__(self): return (x - 1.0 for x in array.array.tolist(self))


if np is not None:
    class NSub(np.ndarray):
        def __iter__(self): return (float(x) + 3.0 for x in np.asarray(self))


class Evil:
    """A number whose conversion runs other operations first."""

    def __init__(self, sim, k, v): self.sim, self.k, self.v = sim, k, v

    def __float__(self):
        o = E.seam.sim_pause(1)
        try:
            self.sim.nested(self.k)
        finally:
            E.seam.sim_pause(o)
        return self.v


class Thread:
    """The other thread: its operations happen where the extension lets go of the interpreter lock."""
    sim = None

    def __call__(self):
        if self.sim is not None:
            self.sim.c("thread-switch")
            self.sim.nested("g")


THREAD = Thread()


class Det:
    __slots__ = ("py", "ref", "cls")


class Stop(Exception):
    pass


# no interpreter allocation fails where our own Python code runs, nor in list(x) of a list or tuple: CPython 3.12 itself then forgets a reference
PYLEVEL = re.compile(r"(\d+@)?(E\d+|fr|ff|ix|ixi|R|W|Wi):.*|getitem|gen|iterobj|map|iterfail|getfail|noinit|cyc|fin|list|tuple|lsub|tsub|asub|npsub|npobj")


class Sim:
    def __init__(self, prop, lines, status=None):
        self.prop, self.lines, self.status = prop, lines, status
        self.slots = [None] * NSLOT
        self.viol = None
        self.cnt = {}
        self.states = set()
        self.h = hashlib.blake2b(digest_size=8)
        self.steps = 0
        self.scripts = {}
        self.depth = 0
        self.args = []
        self.pf = self.mf = 0
        self.pylevel = False
        self.stop = False
        self.cur = 0
        for l in lines:
            w = l.split()
            if w and w[0] == "n" and len(w) > 2:
                self.scripts.setdefault(w[1], []).append(w[2:])

    def log(self, *a):
        self.h.update(repr(a).encode())

    def c(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1

    def bad(self, prop, msg):
        if not self.viol and not self.stop:
            if prop == self.prop or prop == "*":
                self.viol = (self.prop, msg, self.cur)
            else:
                self.c("p:diverged")
        self.stop = True

    # ---- arguments
    def tok(self, t, det=None):
        """(object, ('v', float) or ('x', exception type))"""
        k, _, v = t.partition(":")
        if k == "N": return None, ("x", TypeError)
        if k == "s": return "3.5", ("x", TypeError)
        if k == "by": return b"3.5", ("x", TypeError)
        if k == "c": return complex(1, 2), ("x", TypeError)
        if k == "o": return object(), ("x", TypeError)
        if k == "big": return 10 ** 400, ("x", OverflowError)
        if k == "L": return [1.0], ("x", TypeError)
        if k == "R": return Raises(), ("x", Boom)
        if k == "W": return Wrong("1.0"), ("x", TypeError)
        if k == "Wi": return Wrong(3), ("x", TypeError)
        if k in ("T", "Q", "S"):
            t0 = z0 = sg = 1.0
            lo = 1.0
            if det is not None and det.ref is not None:
                d, u = decode(det.ref.image())
                t0, z0, sg, lo = d[3], d[2], d[5], -1.0 if u[2] else 1.0
                if not math.isfinite(t0): t0 = 0.0
                if not math.isfinite(z0): z0 = t0 + lo
                if not (math.isfinite(sg) and sg > 0): sg = 1.0
            if k == "T":
                n = int(v); x = t0
                for _ in range(abs(n)): x = math.nextafter(x, math.inf if n * lo > 0 else -math.inf)
            elif k == "Q": x = t0 + (z0 - t0) * unhex(v)
            else: x = t0 + lo * sg * unhex(v)
            return x, ("v", x)
        x = unhex(v)
        fin = math.isfinite(x)
        if k[0] == "E": return Evil(self, k[1:], x), ("v", x)
        if k == "i" and fin: return int(x), ("v", float(int(x)))
        if k == "b": return x > 0, ("v", float(x > 0))
        if k == "fr" and fin: return fractions.Fraction(x), ("v", x)
        if k == "de" and fin: return decimal.Decimal(x), ("v", float(decimal.Decimal(x)))
        if k == "sf": return SF(x), ("v", x)
        if k == "ff": return FF(x), ("v", x)
        if k == "ix" and fin: return IX(int(x)), ("v", float(int(x)))
        if np is not None:
            if k == "nf": return np.float32(rnd(x)), ("v", float(np.float32(rnd(x))))
            if k == "n64": return np.float64(x), ("v", x)
            if k == "ni" and fin: return np.int64(int(max(-1e9, min(1e9, x)))), ("v", float(int(max(-1e9, min(1e9, x)))))
        return x, ("v", x)

    def itok(self, t):
        k, _, v = t.partition(":")
        if k == "z": return int(v), ("v", int(v))
        if k == "b": return bool(int(float.fromhex(v))), ("v", int(float.fromhex(v)))
        if k == "ixi": return IX(int(v)), ("v", int(v))
        if k == "hugei": return 2 ** 70, ("x", OverflowError)
        if k == "R": return Raises(), ("x", Boom)
        o, e = self.tok(t)
        return o, ("x", TypeError)

    def batch(self, w):
        cont, seed, n, dist, scale, off = w[2], int(w[3]), int(w[4]), w[5], unhex(w[6]), unhex(w[7])
        r = random.Random(seed)
        vals = []
        for _ in range(n):
            if dist == "gauss": v = r.gauss(0, 1)
            elif dist == "expo": v = r.expovariate(1)
            elif dist == "unif": v = r.random()
            elif dist == "cauchy": v = math.tan(1.5 * (r.random() - 0.5) * 2)
            else: v = float(r.randint(-8, 8))
            vals.append(rnd(v * scale + off))
        elems = list(vals); exp = [("v", v) for v in vals]
        kinds = set()
        for x in w[8:]:
            i, _, t = x.partition("@")
            i = int(i)
            if i < n and cont in GENERIC:
                elems[i], exp[i] = self.tok(t)
                kinds.add(t.partition(":")[0].rstrip("0123456789"))
        objs = elems
        if cont == "list": c = elems
        elif cont == "tuple": c = tuple(elems)
        elif cont == "deque": c = collections.deque(elems)
        elif cont == "getitem": c = GetItem(elems)
        elif cont == "gen": c = (x for x in elems)
        elif cont == "iterobj": c = IterObj(elems)
        elif cont == "map": c = map(ident, elems)
        elif cont == "arrd": c = array.array("d", vals)
        elif cont == "arrf": c = array.array("f", vals)
        elif cont == "mview": c = memoryview(array.array("d", vals))
        elif cont == "arri" or cont == "npi" or cont == "bytes":
            iv = [int(max(-1e6, min(1e6, v))) for v in vals]
            if cont == "bytes": iv = [abs(v) % 256 for v in iv]
            exp = [("v", float(v)) for v in iv]
            c = array.array("i", iv) if cont == "arri" else bytes(iv) if cont == "bytes" else (np.array(iv, dtype=np.int64) if np is not None else iv)
        elif cont in ("arrq", "arrB", "npu8", "npbool"):
            iv = [abs(int(max(-1e6, min(1e6, v)))) % 256 if cont != "arrq" else int(max(-1e15, min(1e15, v * 1e3))) for v in vals]
            if cont == "npbool": iv = [v & 1 for v in iv]
            exp = [("v", float(v)) for v in iv]
            if cont in ("arrq", "arrB"): c = array.array(cont[3], iv)
            else: c = np.array(iv, dtype=np.uint8 if cont == "npu8" else bool) if np is not None else iv
        elif cont == "mvf": c = memoryview(array.array("f", vals))
        elif cont == "mvrev": c = memoryview(array.array("d", vals))[::-1]; exp = exp[::-1]
        elif cont == "lsub": c = LSub(vals); exp = [("v", v + 1.0) for v in vals]
        elif cont == "tsub": c = TSub(vals); exp = [("v", v * 2.0) for v in vals]
        elif cont == "asub": c = ASub("d", vals); exp = [("v", v - 1.0) for v in vals]
        elif cont == "set":
            c = frozenset(vals); exp = [("v", v) for v in c]
        elif cont in ("npbe", "nprev", "npcol", "nph", "npobj", "npsub", "npro"):
            if np is None: c = vals
            elif cont == "npbe": c = np.array(vals, dtype=">f8")
            elif cont == "nprev": c = np.array(vals[::-1])[::-1]
            elif cont == "npcol": c = np.stack([np.array(vals), np.zeros(n)], axis=1)[:, 0] if n else np.array(vals)
            elif cont == "nph":
                hv = [max(-6e4, min(6e4, v)) for v in vals]
                c = np.array(hv, dtype=np.float16); exp = [("v", float(v)) for v in c]
            elif cont == "npobj": c = np.array(vals, dtype=object)
            elif cont == "npro": c = np.array(vals); c.flags.writeable = False
            else: c = np.array(vals).view(NSub); exp = [("v", v + 3.0) for v in vals]
        elif cont == "range": c = range(-(n // 2), n - n // 2); exp = [("v", float(v)) for v in c]
        elif cont == "dictk": c = dict.fromkeys(vals); exp = [("v", v) for v in c]
        elif cont == "npd": c = np.array(vals) if np is not None else vals
        elif cont == "npf": c = np.array(vals, dtype=np.float32) if np is not None else vals
        elif cont == "np2": c = np.repeat(np.array(vals), 2)[::2] if np is not None else vals
        elif cont == "None": return None, [], [("x", TypeError)], kinds
        elif cont == "int": return 5, [], [("x", TypeError)], kinds
        elif cont == "obj" or cont == "noniter": return object(), [], [("x", TypeError)], kinds
        elif cont == "str": return "abcdefgh"[:max(1, min(n, 8))], [], [("x", TypeError)], kinds
        elif cont == "iterfail": return IterObj(vals, max(0, n // 2 - 1) if n else 0) if n else None, [], [("x", Boom if n else TypeError)], kinds
        elif cont == "getfail": return GetItem(vals, n // 2) if n else None, [], [("x", Boom if n else TypeError)], kinds
        else: c = elems
        return c, objs, exp, kinds

    # ---- native calls
    def call(self, f, args, kw=None):
        s = E.seam
        p0, m0 = s.sim_pfailed(), s.sim_mfailed()
        pf, mf = (self.pf, self.mf) if self.depth == 0 else (0, 0)
        if self.pylevel:
            pf = 0      # failures inside Python code of ours would be the interpreter's business, not the extension's
        if self.depth == 0:
            self.pf = self.mf = 0
        try:
            res = ("ok", s.sim_call(f, args, kw, self.cur if self.depth == 0 else self.cur, pf, mf))
        except BaseException as e:       # noqa
            res = ("exc", type(e), re.sub("0x[0-9a-f]+", "ADDR", str(e)))
            e.__traceback__ = e.__context__ = e.__cause__ = None
        inj = (s.sim_pfailed() - p0) + (s.sim_mfailed() - m0)
        if res[0] == "exc" and res[1] is SystemError and s.sim_pfailed() > p0 and res[2].startswith("<function "):
            res = ("exc", MemoryError, "")     # the interpreter lost the failure inside a Python-level method of ours
        if s.sim_pfailed() > p0: self.c("pyalloc-failure")
        if s.sim_mfailed() > m0: self.c("malloc-failure")
        err = s.sim_error()
        if err:
            if err.startswith(b"HARNESS"):
                raise RuntimeError(err)
            self.bad("C19", err.decode())
        return res, inj

    def show(self, res):
        if res[0] == "ok": return "returned " + re.sub("0x[0-9a-f]+", "ADDR", repr(res[1]))
        return "raised %s(%s)" % (res[1].__name__, res[2][:80])

    def expect_exc(self, what, res, types, msg, inj, extra=()):
        """the call had to fail; returns True if it did so properly"""
        ok = res[0] == "exc" and (res[1] in types and (msg is None or res[1] is not RuntimeError or res[2] == msg or (inj and res[2] == errtext(1000))) or (inj and res[1] is MemoryError) or res[1] in extra)
        if not ok:
            self.bad("*" if res[0] == "ok" and what.endswith("refused by the library") else "C19", "%s should raise %s but %s" % (what, "/".join(t.__name__ for t in types) + ("(%s)" % msg if msg else ""), self.show(res)))
        return ok

    def failed_ok(self, what, res, inj, init=False):
        """the call should succeed: True if it did; False if it failed legitimately (injected)"""
        if res[0] == "ok":
            return True
        if inj and (res[1] is MemoryError or (init and res[1] is RuntimeError and res[2] == errtext(1000))):
            self.c("p:injected-failure-raised")
            return False
        if inj:
            self.bad("C19", "%s hit by an allocation failure %s" % (what, self.show(res)))
        else:
            self.bad("C18", "%s %s although the C library accepts it" % (what, self.show(res)))
            if not self.viol and self.prop == "C19" and res[1] in (SystemError, MemoryError):
                self.stop = False
                self.bad("C19", "%s %s without any cause" % (what, self.show(res)))
        return False

    def equal(self, det):
        """None if the Python detector shows exactly the state of its twin, else what differs"""
        img = det.py.raw()
        if len(img) != E.size:
            return "raw() has %d bytes instead of %d" % (len(img), E.size)
        a, b = decode(img), decode(det.ref.image())
        for i, k in enumerate(FIELDS_D):
            if not same(a[0][i], b[0][i]): return "%s is %r instead of %r" % (k, a[0][i], b[0][i])
        for i, k in enumerate(FIELDS_U):
            if a[1][i] != b[1][i]: return "%s is %r instead of %r" % (k, a[1][i], b[1][i])
        w, v = det.py.excesses(), det.ref.window()
        if len(w) != len(v) or not all(same(x, y) for x, y in zip(w, v)):
            return "the retained excesses differ: %s... instead of %s..." % (w[:3], v[:3])
        return None

    def check_all(self, op, failed):
        for i, d in enumerate(self.slots):
            if d is None or d.ref is None or d.py is None:
                continue
            x = self.equal(d)
            if x:
                self.bad("C19" if failed else "C18", "after %s%s: %s" % ("a failing " if failed else "", op, x))
                return
        if not E.seam.sim_canaries():
            self.bad("*", "%s wrote outside the memory it allocated" % op)

    def refs(self, objs):
        return [sys.getrefcount(o) for o in objs]

    def nested(self, k):
        if self.depth >= 3 or self.stop:
            return
        self.depth += 1
        try:
            for w in self.scripts.get(k, ()):
                if self.stop:
                    break
                self.c("reentrant-" + w[0])
                self.op(w)
        finally:
            self.depth -= 1

    # ---- operations
    def drop(self, s):
        # an operation in progress keeps its detector alive, and with it the twin
        self.slots[s] = None

    def cfg(self, w):
        """arguments of Spot(...) from five words: (args, kw, expected)"""
        q, eq = self.tok(w[0])
        kw, vals, exc = {}, [0, 1, 0.98, 500], []
        if eq[0] == "x": exc.append(eq[1])
        for i, (name, t) in enumerate(zip(("low", "discard_anomalies", "level", "max_excess"), w[1:5])):
            if t == "-":
                continue
            o, e = self.itok(t) if name != "level" else self.tok(t)
            kw[name] = o
            if e[0] == "x": exc += [e[1]] if name == "level" else [TypeError, OverflowError, ValueError, Boom]
            else: vals[i] = e[1]
        return q, kw, exc, (eq[1], *vals)

    def op(self, w):
        k = w[0]
        s = d = None
        if len(w) > 1 and k not in ("gc", "mut", "failp", "failm", "gil", "import"):
            s = int(w[1]) % NSLOT
            d = self.slots[s]
        self.steps += 1
        failed = False
        L = E.L
        self.pylevel = any(PYLEVEL.fullmatch(x) for x in w[2:]) or (d is not None and d.cls == "fin" if s is not None else False)
        if k == "gil": E.seam.sim_switch(int(w[1])); return
        if k == "failp": self.pf = int(w[1]); return
        if k == "failm": self.mf = int(w[1]); return
        if k == "gc":
            gc.collect(); return
        if k == "import":
            if self.depth == 0:
                self.imp(int(w[1]), self.cur)
                if not self.stop: self.imp(int(w[1]), self.cur + (1 << 20))
            return
        if k == "mut":
            for c in reversed(self.args):
                if isinstance(c, (list, collections.deque)):
                    self.mutated = True
                    if w[1] == "clear": c.clear()
                    elif w[1] == "pop" and c: c.pop()
                    elif w[1] == "append": c.append(1e9)
                    elif w[1] == "swap" and len(c) > 1: c[0], c[-1] = c[-1], 7e7
                    elif w[1] == "grow": c.extend([5e5] * 2000)
                    break
            return
        if k == "drop":
            self.drop(s); self.c("drop"); self.check_all("drop", False); return
        if k == "new":
            self.new(s, w); return
        if d is None or d.py is None:
            return
        if k == "age":
            if d.ref is not None:
                at = id(d.py) + object.__basicsize__
                if ctypes.string_at(at, E.size) == bytes(d.py.raw()) and E.L.ref_age(d.ref.buf, int(w[2]), int(w[3])):
                    E.L.ref_age(at, int(w[2]), int(w[3]))
                    self.c("age")
                    self.check_all("age", False)
            return
        if k == "init":
            q, kw, exc, vals = self.cfg(w[2:7])
            objs = [q] + list(kw.values())
            rc = self.refs(objs)
            a = (d.py, q)
            self.args.append(None)
            res, inj = self.call(E.Spot.__init__, a, kw)
            self.args.pop()
            failed = self.init_result(d, "__init__", res, inj, exc, vals)
            del a
            self.refcheck(objs, rc, k)
        elif k == "fit":
            c, objs, exp, kinds = self.batch(w)
            for x in kinds: self.c("p:elem-" + x)
            self.c("p:cont-" + w[2])
            own = objs if isinstance(objs, list) and objs is not c else list(objs)
            if w[2] in ("gen", "map", "iterobj"): own = list(objs)
            base = self.refs(own)
            crc = sys.getrefcount(c)
            self.args.append(c)
            mut0 = getattr(self, "mutated", False); self.mutated = False
            f = d.py.fit
            fresh = d.ref is None
            res, inj = self.call(f, (c,))
            del f
            mutated, self.mutated = self.mutated, mut0 or self.mutated
            self.args.pop()
            exc = next((e[1] for e in exp if e[0] == "x"), None)
            what = "fit(%s)" % w[2]
            if fresh and d.ref is not None and res[0] == "exc" and res[1] is RuntimeError and self.equal(d) is None:
                failed = True       # initialised by the code that ran meanwhile: the check may have come before
            elif d.ref is None:
                failed = True
                self.expect_exc(what + " on a detector that is not initialised", res, [RuntimeError] + ([exc] if exc else []), None, inj)
            elif exc:
                failed = True
                self.c("p:bad-fit")
                self.expect_exc(what + " with an unusable value", res, [exc], None, inj)
            else:
                b = (ctypes.c_double * (len(exp) + 1))(*[e[1] for e in exp])
                memerr = res[0] == "exc" and res[1] is MemoryError and inj
                if memerr and self.equal(d) is None:
                    failed = True
                    self.c("p:injected-failure-raised")
                else:
                    pre = None
                    code = L.spot_fit(d.ref.buf, b, len(exp))
                    if code < 0:
                        self.c("p:refused-fit")
                        self.expect_exc(what + " refused by the library", res, [RuntimeError], errtext(-code), inj)
                    else:
                        if self.failed_ok(what, res, inj):
                            if res[1] is not None: self.bad("C18", "fit returned %r" % (res[1],))
                        else: failed = True
            if res[0] == "ok" and res[1] is None: res = ("ok",)
            if not mutated and not self.stop:
                del res
                a = sys.getrefcount(c)
                if a != crc: self.bad("C19", "fit changes the reference count of its argument (%s) by %d" % (w[2], a - crc))
                now = self.refs(own)
                if now != base and w[2] not in ("gen", "map"): self.bad("C19", "fit changes the reference counts of the values (%s)" % w[2])
        elif k in ("step", "quant", "prob"):
            o, e = self.tok(w[2], d)
            rc = self.refs([o])
            f = {"step": d.py.step, "quant": d.py.quantile, "prob": d.py.probability}[k]
            self.args.append(None)
            fresh = d.ref is None
            res, inj = self.call(f, (o,))
            self.args.pop()
            del f
            what = {"step": "step", "quant": "quantile", "prob": "probability"}[k]
            if e[0] == "x":
                failed = True
                self.c("p:bad-" + k)
                self.expect_exc("%s(%s)" % (what, w[2]), res, [e[1]] + ([RuntimeError] if fresh or d.ref is None else []), None, inj)
            elif fresh and d.ref is not None and res[0] == "exc" and res[1] is RuntimeError and self.equal(d) is None:
                failed = True
            elif d.ref is None:
                failed = True
                if k == "step": self.expect_exc("step on a detector that is not initialised", res, [RuntimeError], None, inj)
                elif res[0] == "exc" and res[1] is not RuntimeError and not (inj and res[1] is MemoryError): self.bad("C19", "%s on a detector that is not initialised %s" % (what, self.show(res)))
            else:
                memerr = res[0] == "exc" and res[1] is MemoryError and inj
                if memerr and self.equal(d) is None:
                    failed = True
                    self.c("p:injected-failure-raised")
                elif k == "step":
                    v = L.spot_step(d.ref.buf, e[1])
                    self.c("v:%d" % v)
                    if memerr and v < 0: failed = True
                    elif self.failed_ok("step(%r)" % e[1], res, inj):
                        if type(res[1]) is not int or res[1] != v: self.bad("C18", "step(%r) returned %r but C returns %d" % (e[1], res[1], v))
                        self.log(res[1])
                    else: failed = True
                else:
                    v = (L.spot_quantile if k == "quant" else L.spot_probability)(d.ref.buf, e[1])
                    if self.failed_ok("%s(%r)" % (what, e[1]), res, inj):
                        if type(res[1]) is not float or not same(res[1], v): self.bad("C18", "%s(%r) returned %r but C returns %r" % (what, e[1], res[1], v))
                        self.log(hexf(v))
                    else: failed = True
            if not self.stop:
                del res
                self.refcheck([o], rc, k)
        elif k == "view":
            failed = self.view(d, w[2])
        elif k == "setattr":
            res, inj = self.call(setattr, (d.py, w[2], 1.0))
            if not (w[2] == "bogus" and d.cls in ("sub", "noinit", "cyc", "fin") and res[0] == "ok"):
                failed = True
                self.expect_exc("setting %s" % w[2], res, [AttributeError, TypeError], None, inj)
        elif k == "arity":
            failed = True
            self.arity(d, w[2])
        self.states.add((k, failed, d.cls, self.depth, w[2].partition(":")[0] if len(w) > 2 and k != "init" else ""))
        self.log(k, failed)
        if not self.stop:
            self.check_all(k, failed)

    def refcheck(self, objs, rc, k):
        now = self.refs(objs)
        if now != rc:
            self.bad("C19", "%s changes the reference counts of its arguments: %s to %s" % (k, rc, now))

    def init_result(self, d, what, res, inj, exc, vals):
        L = E.L
        if exc:
            self.c("p:bad-init")
            self.expect_exc(what + " with an unusable argument", res, exc, None, inj)
            return True
        t = Ref()
        q, low, disc, level, cap = vals
        code = L.spot_init(t.buf, q, low, disc, level, cap & (2**64 - 1))
        if code < 0:
            self.c("p:refused-init")
            self.expect_exc(what + " refused by the library", res, [RuntimeError] + ([MemoryError] if code == -1000 else []), errtext(-code), inj)
            return True
        t.own = True
        if not self.failed_ok(what, res, inj, init=True):
            return True
        if d.ref is not None:
            self.c("p:reinit")
        d.ref = t
        return False

    def new(self, s, w):
        cls = w[2] if w[2] in E.cls else "base"
        q, kw, exc, vals = self.cfg(w[3:8])
        objs = [q] + list(kw.values())
        rc = self.refs(objs)
        self.drop(s)
        self.args.append(None)
        res, inj = self.call(E.cls[cls], (q,), kw)
        self.args.pop()
        d = Det(); d.py = None; d.ref = None; d.cls = cls
        self.c("p:new-" + cls)
        if cls == "noinit":
            failed = not self.failed_ok("Spot.__new__", res, inj)
        else:
            failed = self.init_result(d, "Spot()", res, inj, exc, vals)
        if res[0] == "ok" and not self.stop:
            d.py = res[1]
            # the slot may have been used by code that ran during the conversion
            self.drop(s)
            self.slots[s] = d
        else:
            d.ref = None
        del res
        if not self.stop and cls != "cyc" and cls != "noinit": self.refcheck(objs, rc, "new")
        self.states.add(("new", failed, cls, self.depth))
        self.log("new", failed)
        if not self.stop: self.check_all("new", failed)

    def view(self, d, kind):
        py = d.py
        if kind == "module":
            m = E.mod
            b = ctypes.create_string_buffer(64); E.L.libspot_version(b, 64)
            if (m.NORMAL, m.EXCESS, m.ANOMALY) != (0, 1, 2): self.bad("C18", "module constants are %r" % ((m.NORMAL, m.EXCESS, m.ANOMALY),))
            if m.__version__ != b.value.decode(): self.bad("C18", "__version__ is %r" % m.__version__)
            return False
        if kind == "attr":
            if d.ref is None: return False
            dd, uu = decode(d.ref.image())
            for i, k in enumerate(("q", "level", "anomaly_threshold", "excess_threshold", "gamma", "sigma")):
                res, inj = self.call(getattr, (py, k))
                if not self.failed_ok("reading " + k, res, inj): return True
                if type(res[1]) is not float or not same(res[1], dd[i]): self.bad("C18", "%s is %r but C has %r" % (k, res[1], dd[i]))
            for i, k in enumerate(("Nt", "n")):
                v = getattr(py, k)
                if type(v) is not int or v != uu[i] % 2**64: self.bad("C18", "%s is %r but C has %r" % (k, v, uu[i]))
            return False
        f = {"dict": py.as_dict, "exc": py.excesses, "raw": py.raw}[kind]
        res, inj = self.call(f, ())
        del f
        if d.ref is None:
            if res[0] == "exc" and res[1] is not RuntimeError and not (inj and res[1] is MemoryError): self.bad("C19", "%s on a detector that is not initialised %s" % (kind, self.show(res)))
            return True
        if not self.failed_ok(kind, res, inj): return True
        v = res[1]
        dd, uu = decode(d.ref.image())
        if kind == "raw":
            if type(v) is not bytearray: self.bad("C18", "raw() returned %r" % type(v))
        elif kind == "exc":
            if type(v) is not list or len(v) != len(d.ref.window()) or not all(type(x) is float and same(x, y) for x, y in zip(v, d.ref.window())): self.bad("C18", "excesses() returned %r" % (v[:5],))
            v.append(3.0)           # our own copy: changing it must not matter
        else:
            try:
                p, ub = v["tail"]["peaks"], v["tail"]["peaks"]["container"]
                got = [v["q"], v["level"], v["anomaly_threshold"], v["excess_threshold"], v["tail"]["gamma"], v["tail"]["sigma"], p["e"], p["e2"], p["min"], p["max"], ub["last_erased_data"]]
                gu = [v["Nt"], v["n"], v["low"], v["discard_anomalies"], ub["cursor"], ub["capacity"], ub["filled"]]
                gd = ub["data"]
            except Exception as e:
                self.bad("C18", "as_dict() lacks %s" % e); return False
            for x, y, k in list(zip(got, dd, FIELDS_D)) + list(zip(gu, uu, FIELDS_U)):
                if not same(x, y): self.bad("C18", "as_dict() gives %s=%r but C has %r" % (k, x, y))
            if len(gd) != len(d.ref.window()) or not all(same(x, y) for x, y in zip(gd, d.ref.window())): self.bad("C18", "as_dict() gives other excesses than C has")
            self.log(repr(gu))
        return False

    def imp(self, pf, at):
        """The module initialised once more (as when a failed import is repeated), an allocation failing on the way."""
        p0 = E.seam.sim_pfailed()
        gc.collect()
        try:
            res = ("ok", E.seam.sim_import(at, pf, 0))
        except BaseException as e:       # noqa
            res = ("exc", type(e), str(e))
            e.__traceback__ = e.__context__ = e.__cause__ = None
        inj = E.seam.sim_pfailed() - p0
        self.c("p:import")
        if inj: self.c("pyalloc-failure")
        if res[0] == "ok":
            m = res[1]
            try:
                ok = (m.NORMAL, m.EXCESS, m.ANOMALY) == (0, 1, 2) and m.__version__ == E.mod.__version__ and m.Spot(1e-3).q == 1e-3
                why = "" if ok else "with wrong constants"
            except Exception as e:
                why = "without %s" % e
            if why: self.bad("C19", "the module was imported %s%s" % (why, " although an allocation failed" if inj else ""))
            del m
        elif not (inj and (res[1] is MemoryError or res[1] is SystemError)):     # PyType_FromSpec of CPython 3.12 may fail without an exception
            self.bad("C19", "importing the module %s%s" % ("hit by an allocation failure " if inj else "", self.show(res)))
        else: self.c("p:injected-failure-raised")
        del res
        gc.collect()
        self.log("import", inj)

    def arity(self, d, kind):
        py = d.py
        f, a, kw = {"step0": (py.step, (), None), "step2": (py.step, (1.0, 2.0), None), "fitkw": (py.fit, (), {"data": [1.0]}), "new0": (E.Spot, (), None),
                    "newpos": (E.Spot, (1e-3, 1), None), "newkw": (E.Spot, (1e-3,), {"bogus": 1}), "rawarg": (py.raw, (1,), None), "other": (E.Spot.step, (3.0, 1.0), None)}[kind]
        res, inj = self.call(f, a, kw)
        self.expect_exc("a call with wrong arguments (%s)" % kind, res, [TypeError], None, inj)

    def execute(self):
        for i, l in enumerate(self.lines):
            w = l.split()
            if not w or w[0] in ("n", "#"):
                continue
            self.cur = i
            if self.status is not None:
                self.status[8:16] = struct.pack("q", i)
            self.op(w)
            if self.stop:
                break

    def cleanup(self):
        self.cur = len(self.lines)
        for s in range(NSLOT):
            self.drop(s)
        self.args = []


def run_trace(prop, lines, status=None):
    gc.disable()
    gc.collect()
    sim = Sim(prop, lines, status)
    THREAD.sim = sim
    sim.execute()
    sim.cleanup()
    THREAD.sim = None
    res = {"viol": sim.viol, "cnt": sim.cnt, "states": [int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=8).digest(), "little") for s in sorted(sim.states, key=repr)], "hash": sim.h.hexdigest(), "steps": sim.steps}
    if prop == "C19" and not sim.viol and not sim.stop:
        # again, now that every cache is warm: what is still allocated at the end has leaked
        del sim
        gc.collect(); gc.collect()
        E.seam.sim_forget()
        types = list(E.cls.values())
        live0 = E.seam.sim_live()
        t0 = [sys.getrefcount(t) for t in types]
        sim = Sim(prop, lines, status)
        THREAD.sim = sim
        sim.execute(); sim.cleanup()
        THREAD.sim = None
        v, stop, cur = sim.viol, sim.stop, sim.cur
        if sim.h.hexdigest() != res["hash"] and not v:
            res["second"] = sim.h.hexdigest()
        del sim
        gc.collect(); gc.collect()
        t1 = [sys.getrefcount(t) for t in types]
        res["cnt"]["p:leak-checked"] = 1

        def opname(i):
            return lines[i].split()[0] if 0 <= i < len(lines) else "?"
        if v: res["viol"] = v
        elif stop: pass
        elif E.seam.sim_live(): res["viol"] = (prop, "memory allocated by the extension during '%s' is never released" % opname(E.seam.sim_live_op()), E.seam.sim_live_op())
        elif E.seam.sim_tracked_op() >= 0: res["viol"] = (prop, "an object created during '%s' is never released" % opname(E.seam.sim_tracked_op()), E.seam.sim_tracked_op())
        elif t0 != t1: res["viol"] = (prop, "the reference count of the type changed from %s to %s although every detector is gone" % (t0, t1), cur)
        elif E.seam.sim_error(): res["viol"] = (prop, E.seam.sim_error().decode(), cur)
    return res


def signame(rc):
    try: return signal.Signals(rc).name
    except Exception: return str(rc)


def fork_run(prop, lines, limit, status):
    r, w = os.pipe()
    er, ew = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r); os.close(er)
            os.dup2(ew, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, limit)    # processor time: a loaded machine is not a hang
            signal.alarm(4 * limit)
            res = run_trace(prop, lines, status)
            os.write(w, json.dumps(res).encode())
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        os._exit(code)
    os.close(w); os.close(ew)
    out, err = [], []
    import select
    fds = [r, er]
    while fds:
        for fd in select.select(fds, [], [])[0]:
            b = os.read(fd, 65536)
            if not b: fds.remove(fd)
            else: (out if fd == r else err).append(b)
    os.close(r); os.close(er)
    _, st = os.waitpid(pid, 0)
    err = b"".join(err).decode(errors="replace")
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return json.loads(b"".join(out))
    at = struct.unpack("q", status[8:16])[0]
    where = " during '%s'" % " ".join(lines[at].split()[:3]) if 0 <= at < len(lines) else ""
    import re
    m = re.search(r"SUMMARY: \w+: (\S+)[^\n]*?(?: in (\w+))?\n", err + "\n")
    u = re.search(r"runtime error: ([^\n]*)", err)
    if u: why = "undefined behaviour: " + re.sub(r"0x[0-9a-f]+", "ADDR", u[1])
    elif m: why = "memory error: %s%s" % (m[1], " in " + m[2] if m[2] else "")
    elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGALRM, signal.SIGPROF): why = "a call does not return"
    elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGKILL, signal.SIGTERM): raise RuntimeError("HARNESS child killed: " + err[-1500:])
    elif os.WIFSIGNALED(st): why = "the interpreter died with " + signame(os.WTERMSIG(st))
    else: raise RuntimeError("HARNESS " + err[-3000:])
    return {"viol": (prop, why + where, at), "cnt": {}, "states": [], "hash": hashlib.blake2b((why + where).encode(), digest_size=8).hexdigest(), "steps": at}


def main():
    cmd, prop = sys.argv[1], sys.argv[2]
    if cmd == "gen":
        print("\n".join(gen(prop, sys.argv[3], int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "quick")))
        return 0
    load()
    E.seam.sim_install()
    E.seam.sim_sched(THREAD)
    limit = int(os.environ.get("SIM_ALARM", "20"))
    gc.collect(); gc.freeze()
    if cmd == "replay":
        lines = [l.rstrip("\n") for l in open(sys.argv[3]) if l.strip() and not l.startswith("#")]
        st = mmap.mmap(-1, 64)
        res = fork_run(prop, lines, limit, st)
        if res["viol"]:
            print("VIOL run=0 op=%d prop=%s :: %s" % (res["viol"][2], res["viol"][0], res["viol"][1].replace("\n", " ")))
        print("HASH %s steps=%d" % (res["hash"], res["steps"]))
        return 1 if res["viol"] else 0
    seed, frm, to, stride, tier, stf, dl = sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), sys.argv[7], sys.argv[8], float(sys.argv[9])
    with open(stf, "w+b") as f:
        f.write(b"\0" * 64); f.flush()
        st = mmap.mmap(f.fileno(), 64)
    end = time.monotonic() + dl
    done = steps = 0
    cnt, states, traces = {}, set(), set()
    rc = 0
    for run in range(frm, to, stride):
        if time.monotonic() > end: break
        st[0:16] = struct.pack("qq", run, 0)
        lines = gen(prop, seed, run, tier)
        res = fork_run(prop, lines, limit, st)
        done += 1; steps += res["steps"]
        for k, v in res["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
        if "second" in res: cnt["p:second-pass-differs"] = cnt.get("p:second-pass-differs", 0) + 1
        states.update(res["states"])
        if res["steps"] > 6: traces.add(int(res["hash"], 16))
        if os.environ.get("SIM_HASHES"): print("RH %d %s" % (run, res["hash"]))
        if res["viol"]:
            print("VIOL run=%d op=%d prop=%s :: %s" % (run, res["viol"][2], res["viol"][0], res["viol"][1].replace("\n", " ")))
            rc = 1
            break
    print("DONE runs=%d nontrivial=%d steps=%d hash=0 states=%d" % (done, len(traces), steps, len(states)))
    for k, v in cnt.items(): print("CNT %s %d" % (k, v))
    for env, data in (("SIM_STATES", states), ("SIM_TRACES", traces)):
        if os.environ.get(env):
            with open(os.environ[env], "wb") as f:
                f.write(struct.pack("%dQ" % len(data), *data))
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except RuntimeError as e:
        print("HARNESS", e)
        code = 3
    sys.stdout.flush()
    os._exit(code)
