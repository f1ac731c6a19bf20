#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py PROP [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the code under test from /repo's working tree into /verif/build/PROP, runs many seeded
simulations (every choice is a function of VERIF_SEED and the run number), minimises the first
failing one and writes it as a replay file.  Exit 0: held; 1: violated (VIOLATION line); else: error.
"""
import argparse, glob, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
REPO = os.environ.get("VERIF_REPO", "/repo")
import engines  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Fail(Exception):
    pass


# ------------------------------------------------------------------ running the simulator
def parse_out(text):
    d = {"viol": [], "cnt": {}, "rh": {}, "done": None, "hash": None, "hang": False}
    for l in text.splitlines():
        if l.startswith("VIOL "):
            m = re.match(r"VIOL run=(\d+) op=(-?\d+) prop=(\S+) :: (.*)", l)
            if m:
                d["viol"].append((int(m[1]), m[3], m[4]))
        elif l.startswith("CNT "):
            _, k, v = l.rsplit(None, 2) if l.count(" ") == 2 else (None, *l[4:].rsplit(None, 1))
            d["cnt"][k] = d["cnt"].get(k, 0) + int(v)
        elif l.startswith("RH "):
            _, r, h = l.split()
            d["rh"][int(r)] = h
        elif l.startswith("DONE "):
            d["done"] = {k: v for k, v in (x.split("=") for x in l.split()[1:])}
        elif l.startswith("HASH "):
            d["hash"] = l.split()[1]
        elif l.startswith("HANG"):
            d["hang"] = True
    return d


def read_status(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16)
        return struct.unpack("qq", b)
    except Exception:
        return (-1, 0)


def crash_summary(lane, rc, text):
    """What killed a simulator process, or None if it was the harness."""
    if rc == 3 or "HARNESS" in text:
        return None
    if rc == 86 or "\nHANG" in text:
        return "a call does not return"
    m = re.search(r"(runtime error: [^\n]*)", text)
    if m:
        return "undefined behaviour: " + re.sub(r"0x[0-9a-f]+", "ADDR", m[1])
    if "MemorySanitizer" in text:
        i = text.index("MemorySanitizer")
        frames = re.findall(r"#\d+ [^\n]*", text[i:])[:3]
        if not any(lane.libname in f or re.search(r"/src/\w+\.c:\d+", f) for f in frames):
            return None
        m = re.search(r"in (\w+)", frames[0] if frames else "")
        return "use of an uninitialised value" + (" in " + m[1] if m else "")
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+)[^\n]*?(?: in (\w+))?\n", text + "\n")
    if m:
        return "memory error: " + m[1] + (" in " + m[2] if m[2] else "")
    if rc < 0:
        try:
            return "the process died with " + signal.Signals(-rc).name
        except Exception:
            return "the process died with signal %d" % -rc
    if rc == 134 or rc == 139:
        return "the process died (%d)" % rc
    return "the process ended unexpectedly (%d)" % rc


def viol_class(msg):
    """The kind of a violation: its words without numbers, so that shrinking keeps the kind."""
    m = re.sub(r"'[^']*'", "", msg)
    m = re.sub(r"-?(0x)?[0-9][0-9a-fx.+\-p]*|\bnan\b|\binf\b", "", m)
    return " ".join(m.split()[:5])


class Outcome:
    def __init__(self, lane, kind, run, msg):
        self.lane, self.kind, self.run, self.msg = lane, kind, run, msg   # kind: viol | crash


def run_batch(lane, prop, seed, runs, tier, deadline, workers, out, alarm=20):
    """Runs `runs` simulations over `workers` processes; returns (outcome or None, stats)."""
    procs = []
    for w in range(workers):
        st = os.path.join(out, "status.%s.%d" % (lane.name, w))
        env = lane.env()
        env.update(SIM_ALARM=str(alarm), SIM_STATES=st + ".states", SIM_TRACES=st + ".traces")
        f = open(st + ".out", "w+")
        p = subprocess.Popen(lane.cmd() + ["run", prop, str(seed), str(lane.base + w), str(lane.base + runs), str(workers), tier, st, str(deadline)],
                             stdout=f, stderr=subprocess.STDOUT, env=env, cwd=out)
        procs.append((w, p, f, st))
    end = time.time() + deadline + 60
    results, first, stopped = [], None, set()
    pending = list(procs)
    while pending:
        for it in list(pending):
            w, p, f, st = it
            rc = p.poll()
            if rc is None:
                if time.time() > end:
                    p.kill(); p.wait(); rc = 86
                else:
                    continue
            pending.remove(it)
            f.seek(0); text = f.read(); f.close()
            d = parse_out(text)
            results.append((st, d))
            o = None
            if d["viol"]:
                o = Outcome(lane, "viol", d["viol"][0][0], d["viol"][0][2])
            elif rc != 0 and w not in stopped:
                why = crash_summary(lane, rc, text)
                if why is None or rc in (-signal.SIGKILL, -signal.SIGTERM) or read_status(st)[0] < 0:
                    for q in pending:
                        q[1].kill()
                    raise Fail("simulator error in lane %s: rc=%s\n%s" % (lane.name, rc, text[-3000:]))
                o = Outcome(lane, "crash", read_status(st)[0], why)
            if o:
                first = o if first is None or o.run < first.run else first
                for q in pending:       # one failure is enough
                    q[1].kill(); q[1].wait()
                    stopped.add(q[0])
        time.sleep(0.02)
        if first:
            for w, p, f, st in pending:
                p.kill(); p.wait(); f.close()
            break
    stats = {"runs": 0, "steps": 0, "cnt": {}, "states": set(), "traces": set()}
    for st, d in results:
        if d["done"]:
            stats["runs"] += int(d["done"]["runs"]); stats["steps"] += int(d["done"]["steps"])
        for k, v in d["cnt"].items():
            stats["cnt"][k] = stats["cnt"].get(k, 0) + v
        for key in ("states", "traces"):
            try:
                b = open(st + "." + key, "rb").read()
                stats[key].update(struct.unpack("%dQ" % (len(b) // 8), b))
            except OSError:
                pass
    for st, d in results:
        for s in ("", ".out", ".states", ".traces"):
            try:
                os.unlink(st + s)
            except OSError:
                pass
    return first, stats


def replay(lane, prop, path, alarm=10, timeout=None):
    env = lane.env(); env["SIM_ALARM"] = str(alarm)
    try:
        p = subprocess.run(lane.cmd() + ["replay", prop, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           timeout=timeout or 4 * alarm + 20, cwd=lane.dir, errors="replace")
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, text = 86, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    d = parse_out(text)
    if d["viol"]:
        return "viol", d["viol"][0][2], d["hash"], text
    if rc != 0:
        why = crash_summary(lane, rc, text)
        return ("crash" if why else "error"), why, None, text
    return "ok", None, d["hash"], text


# ------------------------------------------------------------------ minimisation
def write_trace(path, lines, header=()):
    with open(path, "w") as f:
        for h in header:
            f.write("# " + h.replace("\n", " ") + "\n")
        f.write("\n".join(lines) + "\n")


def minimise(lane, prop, lines, outcome, scratch, budget):
    end = time.time() + budget
    cls = viol_class(outcome.msg)
    tmp = os.path.join(scratch, "min.trace")
    tries = [0]
    best = {"msg": outcome.msg}

    def fails(ls):
        if time.time() > end:
            return False
        tries[0] += 1
        write_trace(tmp, ls)
        k, m, _, _ = replay(lane, prop, tmp, alarm=4)
        if k == outcome.kind and m and viol_class(m) == cls:
            best["msg"] = m
            return True
        return False

    n = 2
    while len(lines) >= 2 and time.time() < end:
        size = max(1, len(lines) // n)
        chunks = [lines[i:i + size] for i in range(0, len(lines), size)]
        done = False
        for i in range(len(chunks)):
            rest = [l for j, c in enumerate(chunks) if j != i for l in c]
            if rest and fails(rest):
                lines, n, done = rest, max(n - 1, 2), True
                break
        if not done:
            if size == 1:
                break
            n = min(len(lines), n * 2)
    # shrink arguments: sizes of batches and bursts, slices of the schedule
    for i, l in enumerate(lines):
        w = l.split()
        for kind, pos in (("fitg", 4), ("burst", 4), ("sched", 2), ("crashat", 1)):
            if kind in w:
                pos += w.index(kind)
                while pos < len(w) and w[pos].isdigit() and int(w[pos]) > 1 and time.time() < end:
                    v = list(w); v[pos] = str(int(w[pos]) // 2)
                    cand = lines[:i] + [" ".join(v)] + lines[i + 1:]
                    if not fails(cand):
                        break
                    w, lines = v, cand
        # drop decorations
        if any(x.startswith("#") for x in w) and time.time() < end:
            v = [x for x in w if not x.startswith("#")]
            cand = lines[:i] + [" ".join(v)] + lines[i + 1:]
            if v and fails(cand):
                lines = cand
    return lines, best["msg"], tries[0]


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=\"([^\"]*)\" (.*)", l.strip())
            if m and m[1] == prop:
                res.append((m[2], m[3]))
    return res


OUT = None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    cfg = engines.CONFIG[prop]
    out = os.path.join(VERIF, "build", prop + ("" if REPO == "/repo" else "-" + str(abs(hash(REPO)) % 10**6)))
    global OUT
    OUT = out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    lanes = engines.build(prop, REPO, out, log)
    log("built", ", ".join(l.name for l in lanes))

    if a.replay:
        txt = open(a.replay).read()
        m = re.search(r"^# lane: (\S+)", txt, re.M)
        lane = next((l for l in lanes if m and l.name == m[1]), lanes[0])
        r1 = replay(lane, prop, os.path.abspath(a.replay), alarm=20)
        r2 = replay(lane, prop, os.path.abspath(a.replay), alarm=20)
        log("replay:", r1[:3], "again:", r2[:3], "identical" if r1[:3] == r2[:3] else "DIFFERENT")
        if r1[0] in ("viol", "crash"):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0 if r1[0] == "ok" else 3

    workers = os.cpu_count() or 4
    # determinism first: the same runs in separate processes, at other worker counts, must be identical
    det = {"runs": 0, "mismatches": []}
    for lane in lanes:
        k = cfg.get("det", 32)
        got = {}
        procs = []
        for rep in range(2):
            nw = 4 if rep == 0 else 3
            for w in range(nw):
                env = lane.env(); env.update(SIM_HASHES="1", SIM_ALARM="20")
                if rep:
                    env["MALLOC_PERTURB_"] = "90"; env["PYTHONHASHSEED"] = "77"
                st = os.path.join(out, "det.%d.%d" % (rep, w))
                procs.append((rep, subprocess.Popen(lane.cmd() + ["run", prop, str(seed), str(w), str(k), str(nw), tier, st, "60"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=out, errors="replace")))
        for rep, p in procs:
            o, _ = p.communicate()
            for r, h in parse_out(o)["rh"].items():
                got.setdefault(r, {})[rep] = h
        for r, hs in got.items():
            if len(hs) == 2:
                det["runs"] += 1
                if hs[0] != hs[1]:
                    det["mismatches"].append("%s:%d" % (lane.name, r))
    if det["mismatches"]:
        log("note: %d of %d repeated runs differ: %s" % (len(det["mismatches"]), det["runs"], det["mismatches"][:5]))
    else:
        log("determinism: %d runs repeated in other processes, all identical" % det["runs"])

    total = {"runs": 0, "steps": 0, "cnt": {}, "states": set(), "traces": set()}
    per_lane = {}
    known = known_findings(prop)
    outcome = None
    tsim = time.time()
    tried = set()
    for lane in lanes:
        runs = a.runs or lane.runs[tier]
        o, st = run_batch(lane, prop, seed, runs, tier, cfg["deadline"][tier], workers, out)
        per_lane[lane.name] = {"runs": st["runs"], "simulated_operations": st["steps"]}
        for k in ("runs", "steps"):
            total[k] += st[k]
        for k, v in st["cnt"].items():
            total["cnt"][k] = total["cnt"].get(k, 0) + v
        total["states"] |= st["states"]; total["traces"] |= st["traces"]
        log("lane %s: %d runs, %d simulated operations, %d states%s" % (lane.name, st["runs"], st["steps"], len(st["states"]), ", failure in run %d: %s" % (o.run, o.msg) if o else ""))
        if o:
            outcome = o
            break
    wall_sim = max(time.time() - tsim, 1e-3)
    if not outcome and prop == "C14" and det["mismatches"]:
        lname, r = det["mismatches"][0].split(":")
        outcome = Outcome(next(l for l in lanes if l.name == lname), "viol", int(r), "running the same history twice gives different results")

    violations = 0
    rc = 0
    for cls, text in known:
        # a known finding is demonstrated by its own scripted history on every run
        r = engines.check_known(prop, cls, lanes, replay, VERIF)
        if r:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if outcome:
        lane = outcome.lane
        gen = subprocess.run(lane.cmd() + ["gen", prop, str(seed), str(outcome.run), tier], stdout=subprocess.PIPE, env=lane.env(), text=True)
        lines = [l for l in gen.stdout.splitlines() if l.strip()]
        path = os.path.join(out, "full.trace")
        write_trace(path, lines)
        reps = [replay(lane, prop, path, alarm=20) for _ in range(3)]
        bad = [r for r in reps if r[0] in ("viol", "crash")]
        if not bad and det["mismatches"]:
            reps += [replay(lane, prop, path, alarm=20) for _ in range(12)]
            bad = [r for r in reps if r[0] in ("viol", "crash")] or [(outcome.kind, outcome.msg, None, "")]
            log("the code under test is itself not deterministic")
        if not bad:
            raise Fail("run %d of lane %s failed (%s) but does not replay: %r" % (outcome.run, lane.name, outcome.msg, [r[:3] for r in reps]))
        exact = all(r[:3] == reps[0][:3] for r in reps)
        outcome.kind, outcome.msg = bad[0][0], bad[0][1]
        log("reproduced in %d of 3 fresh processes%s; minimising %d lines" % (len(bad), "" if exact else " (not identically)", len(lines)))
        small, msg, tries = minimise(lane, prop, lines, outcome, out, cfg.get("min_s", 60))
        rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-run%d.trace" % (prop, seed, outcome.run))
        write_trace(rp, small, ["property: " + prop, "lane: " + lane.name, "seed: %d run: %d tier: %s" % (seed, outcome.run, tier), "violation: " + msg,
                                "minimised from %d to %d lines in %d replays" % (len(lines), len(small), tries),
                                "replay: python3 check.py %s --replay %s" % (prop, rp)])
        r1, r2 = replay(lane, prop, rp, alarm=20), replay(lane, prop, rp, alarm=20)
        if r1[0] not in ("viol", "crash"):
            write_trace(rp, lines, ["property: " + prop, "lane: " + lane.name, "violation: " + outcome.msg, "not minimised"])
        log("minimised to %d lines in %d replays; fresh-process replays %s" % (len(small), tries, "identical" if r1[:3] == r2[:3] else "differ"))
        for l in small[:25]:
            print("    " + l[:200])
        print("  " + msg)
        violations = 1
        rc = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": total["runs"], "distinct_nontrivial": len(total["traces"]),
            "rule": cfg["rule"],
            "samples": [{"run": r, "trace": engines.sample(lanes[0], prop, seed, r, tier)} for r in (0, 1)],
            "simulated_operations": total["steps"],
            "simulated_time": "%d simulated operations; the code has no clock, time is the number of operations, aged by time warps of up to 2^53 readings where listed" % total["steps"],
            "runs_per_hour": int(total["runs"] / wall_sim * 3600),
            "seeds_per_hour": int(total["runs"] / wall_sim * 3600),
            "faults_injected": {k: v for k, v in sorted(total["cnt"].items()) if not k.startswith(("p:", "v:"))},
            "probes": {k: v for k, v in sorted(total["cnt"].items()) if k.startswith(("p:", "v:"))},
            "distinct_states": len(total["states"]), "state_measure": cfg["measure"],
            "lanes": per_lane,
            "determinism": {"runs_repeated_in_other_processes": det["runs"], "differing": len(det["mismatches"])},
            "components": cfg["components"],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        log("held on everything explored")
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except Fail as e:
        print("ERROR", e)
        code = 3
    finally:
        if OUT and REPO != "/repo" and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(OUT, ignore_errors=True)
    sys.exit(code)
