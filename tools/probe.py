#!/usr/bin/env python3
"""probe.py FILE [names...]: quick adversarial probing. FILE defines PROBES = [(name, property, [(path, old, new), ...]), ...];
each change is applied to a scratch copy of /repo and the property's check (quick tier) run on it."""
import os, shutil, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(sys.argv[1])["PROBES"]
want = sys.argv[2:]
test = os.environ.get("PROBE_TEST")
for name, prop, edits in P:
    if want and name not in want: continue
    wt = "/tmp/pr/" + name
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree(os.environ.get("PROBE_BASE", "/repo"), wt, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    ok = True
    for f, a, b in edits:
        p = os.path.join(wt, f); s = open(p).read()
        if s.count(a) != 1: print(name, "EDIT MATCHES", s.count(a), "TIMES IN", f, repr(a[:50])); ok = False; break
        open(p, "w").write(s.replace(a, b))
    if ok:
        for pr in prop.split("+"):
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", pr], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = r.stdout.splitlines()
            why = ""
            for i, l in enumerate(ls):
                if l.startswith("VIOLATION"): why = ls[i - 1].strip()[:150]
            if r.returncode not in (0, 1): why = " / ".join(ls[-3:])[:300]
            print("%-22s %s %s %4.0fs %s" % (name, pr, {0: "MISSED <<<<", 1: "caught"}.get(r.returncode, "rc=%d ????" % r.returncode), time.time() - t, why), flush=True)
    shutil.rmtree(wt, ignore_errors=True)
