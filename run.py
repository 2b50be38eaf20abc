#!/usr/bin/env python3
"""Run the static checks of one property against the current tree of /repo.

usage: run.py PROPERTY [--tier quick|thorough]
Builds the analyser if needed, compiles every unit of /repo to bitcode in a
scratch directory (nothing is executed or linked), runs the analysis modes of the
property and writes evidence/<PROPERTY>.json.
exit 0: no violation; exit 1: VIOLATION line printed; exit 2: the analysis itself
is broken (does not compile, or a rule lost its instances)."""
import json, os, re, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SDB_REPO", "/repo")
sys.path.insert(0, HERE)
from rules import PROPS  # property -> modes, rules, rule texts


def die(msg):
    print("ANALYSIS-BROKEN: " + msg)
    sys.exit(2)


def build_tool():
    r = subprocess.run(["make", "-C", os.path.join(HERE, "tool"), "-j8"], capture_output=True, text=True)
    if r.returncode:
        die("analyser does not build:\n" + r.stdout[-2000:] + r.stderr[-4000:])


def bitcode(out, flags):
    r = subprocess.run(["bash", os.path.join(HERE, "bc.sh"), out, REPO, flags], capture_output=True, text=True)
    if r.returncode:
        die("the tree does not compile:\n" + r.stderr[-4000:])
    return sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".bc"))


def known_findings():
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m:
            res[(m.group(1), m.group(2))] = m.group(3)
    return res


def ident(f):
    return "%s@%s:%s" % (f["rule"], f["file"], f["key"].replace(" ", "_"))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if prop not in PROPS:
        die("no such property " + prop)
    spec = PROPS[prop]
    t0 = time.time()
    build_tool()
    tmp = tempfile.mkdtemp(prefix="sdb-")
    findings, counts, samples, broken = [], {}, [], []
    try:
        # the release build; the debug build has other code inside the assertion
        # macros and is analysed too in the thorough tier
        variants = [("release", "")] + ([("debug", "-DSPLINTER_DEBUG")] if tier == "thorough" else [])
        for name, flags in variants:
            bcs = bitcode(os.path.join(tmp, name), flags)
            for mode in spec["modes"]:
                r = subprocess.run([os.path.join(HERE, "build", "sdbcheck"), "--mode", mode] + bcs, capture_output=True, text=True,
                                   env=dict(os.environ, SDB_DEADLINE=str(max(60, 600 // len(spec["modes"])) if tier == "quick" else 7200)))
                if r.returncode:
                    die("analyser failed in mode %s: exit %d\n%s" % (mode, r.returncode, r.stderr[-3000:]))
                d = json.loads(r.stdout)
                pre = "" if name == "release" else name + "."
                counts[pre + mode + ".units"] = d["units"]
                counts[pre + mode + ".functions_in_program"] = d["functions"]
                for k, v in d["counts"].items():
                    counts[pre + mode + "." + k] = v
                samples += d["samples"]
                broken += [mode + ": " + b for b in d["broken"]]
                for f in d["findings"]:
                    if f["rule"] in spec["rules"]:
                        if not any(ident(f) == ident(g) and f["line"] == g["line"] for g in findings):
                            findings.append(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kn = known_findings()
    viol, known = [], []
    for f in findings:
        (known if (prop, ident(f)) in kn else viol).append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", prop + ".report.txt")
    with open(rep, "w") as o:
        for tag, l in (("VIOLATION", viol), ("KNOWN", known)):
            for f in l:
                o.write("%s %s\n  rule: %s\n  at:   %s:%d in %s\n  what: %s\n  path: %s\n  id:   %s\n" % (
                    tag, prop, f["rule"] + ": " + spec["rules"][f["rule"]], f["file"], f["line"], f["function"], f["message"], f["path"], ident(f)))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {"explanation": spec["explain"], "rules": spec["rules"], "counts": counts, "samples": samples[:40],
                     "known_findings": [ident(f) for f in known], "repo": REPO},
        "assumptions": spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in known:
        print("KNOWN-FINDING: property=%s %s:%d %s -- %s" % (prop, f["file"], f["line"], f["message"], kn[(prop, ident(f))]))
    for f in viol:
        print("%s:%d: [%s] %s\n    id %s\n    path: %s" % (f["file"], f["line"], f["rule"], f["message"], ident(f), f["path"]))
    for k in sorted(counts):
        print("analysed %s = %s" % (k, counts[k]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        sys.exit(1)
    if broken:
        die("; ".join(broken))
    print("OK property=%s (%d rule(s), %.1f s)" % (prop, len(spec["rules"]), time.time() - t0))
    sys.exit(0)


main()
