#!/usr/bin/env python3
"""Test the checkers both ways on scratch copies: mutants that must be reported, refactorings that must not.
usage: mut.py FILE.py [NAME...]   (FILE defines M = [(name, mode, expect, [(file, old, new), ...]), ...])
expect: rule name, tuple of rule names, or None for "quiet"."""
import sys, os, subprocess, json, shutil, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = {}
REPO = os.environ.get("SDB_REPO", "/repo")
def base(mode):
    d = "/tmp/mut-base"
    if not os.path.isdir(d): subprocess.run(["bash", H + "/bc.sh", d, REPO], capture_output=True)
    j = json.loads(subprocess.run([H + "/build/sdbcheck", "--mode", mode] + sorted(d + "/" + x for x in os.listdir(d)), capture_output=True, text=True).stdout)
    return set((f["rule"], f["key"]) for f in j["findings"])
def one(m):
    name, mode, expect, eds = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(REPO + "/src", d + "/src"); shutil.copytree(REPO + "/include", d + "/include")
        for f, a, b in eds:
            p = d + "/" + f; s = open(p).read()
            if s.count(a) < 1: return (name, "BADEDIT", "%s: %d matches of %r" % (f, s.count(a), a[:60]))
            if s.count(a) > 1: return (name, "BADEDIT", "%s: %d matches of %r" % (f, s.count(a), a[:60]))
            open(p, "w").write(s.replace(a, b))
        r = subprocess.run(["bash", H + "/bc.sh", d + "/bc", d], capture_output=True, text=True)
        if r.returncode: return (name, "NOCOMPILE", r.stderr[-800:])
        bcs = sorted(d + "/bc/" + x for x in os.listdir(d + "/bc"))
        r = subprocess.run([H + "/build/sdbcheck", "--mode", mode] + bcs, env=dict(os.environ, SDB_DEADLINE="300"), capture_output=True, text=True, timeout=500)
        if r.returncode: return (name, "TOOLFAIL", r.stderr[-500:])
        j = json.loads(r.stdout)
        j["findings"] = [f for f in j["findings"] if (f["rule"], f["key"]) not in BASE[mode]]
        rules = sorted(set(f["rule"] for f in j["findings"]))
        det = "; ".join("%s %s:%d %s" % (f["rule"], f["file"], f["line"], f["message"][:110]) for f in j["findings"][:3])
        if j["broken"]: det += " BROKEN " + str(j["broken"])
        if expect is None: return (name, "ok-quiet" if not rules and not j["broken"] else "FALSE-ALARM", det)
        ex = (expect,) if isinstance(expect, str) else expect
        return (name, "ok-caught" if any(e in rules for e in ex) else "MISSED", det)
    except subprocess.TimeoutExpired: return (name, 'TIMEOUT', '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = runpy.run_path(sys.argv[1])["M"]
if len(sys.argv) > 2: ms = [m for m in ms if any(a in m[0] for a in sys.argv[2:])]
shutil.rmtree("/tmp/mut-base", ignore_errors=True)
for md in set(m[1] for m in ms): BASE[md] = base(md)
shutil.rmtree("/tmp/mut-base", ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    bad = 0
    for r in ex.map(one, ms):
        print("%-12s %-38s %s" % (r[1], r[0], r[2])); sys.stdout.flush()
        bad += not r[1].startswith("ok")
print("not ok:", bad)
