"""mkpatch.py FILE.py [ID..]: FILE defines S = {id: [(file, old, new), ...]}; writes seeded/ID/patch.diff"""
import sys, runpy, subprocess
S = runpy.run_path(sys.argv[1])["S"]
assert not subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout.strip()
for i, eds in S.items():
    if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
    for f, a, b in eds:
        p = "/repo/" + f; s = open(p).read(); assert s.count(a) == 1, (i, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open("/verif/seeded/%s/patch.diff" % i, "w").write(d)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
