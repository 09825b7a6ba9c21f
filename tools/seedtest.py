#!/usr/bin/env python3
"""seedtest.py ID...: confirms planted bugs and shows whether the property's check catches them.
Works on a scratch copy for demo and check, on /repo (restored afterwards) for the stable tests."""
import json, os, subprocess, sys, shutil, time
V = "/verif/seeded"
W = "/tmp/seedwt"
REPO = os.environ.get("SIM_REPO", "/repo")
def run(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return r.returncode, r.stdout
ids = sys.argv[1:]
opts = [i for i in ids if i.startswith("-")]
ids = [i for i in ids if not i.startswith("-")] or sorted(os.listdir(V))
for i in ids:
    d = os.path.join(V, i)
    meta = json.load(open(d + "/meta.json"))
    p = meta["property"]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", REPO, W])
    dd = "/tmp/seeddemo"; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    for f in ("patch.diff", "meta.json"): os.unlink(os.path.join(dd, f))
    res = []
    rc, o = run(["bash", dd + "/demo.sh"], cwd=W, t=300); res.append("demo-clean=%d" % rc)
    if rc: print(o[-1500:])
    rc, o = run(["git", "apply", d + "/patch.diff"], cwd=W)
    if rc: print(i, "DOES NOT APPLY", o); continue
    rc, o = run(["bash", dd + "/demo.sh"], cwd=W, t=300); res.append("demo-bug=%d" % rc)
    if rc == 0 or "-v" in opts: print(o[-800:])
    if "-t" in opts:
        try:
            run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            rc, o = run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
            j = json.load(open("/tmp/seed.json")); res.append("tests=%d/%d" % (len(j["passed"]), len(j["passed"]) + len(j["failed"])))
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
    t = time.time()
    rc, o = run(["python3", "/verif/run.py", "check", p], cwd="/verif", env={"SIM_REPO": W, "SIM_BUILD": "/tmp/seedbuild", "SIM_NOEV": "1"})
    viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    cls = [l for l in o.splitlines() if l.startswith("violation class")]
    res.append("check=%d%s %.0fs" % (rc, " CAUGHT" if rc == 1 and viol and "property=%s " % p in viol[0] else " MISSED", time.time() - t))
    print(i, p, *res, (cls or [o[-600:]])[0][:200], flush=True)
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
