#!/usr/bin/env python3
"""plant.py ID...: applies seeded/ID/patch.diff to /repo, builds, runs the stable tests and the demo, then the property's check
(or --checks C01,C02 / --all), and undoes the change.  Prints one line per bug."""
import sys, os, subprocess, json, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t=900): 
    try: r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="+"); ap.add_argument("--checks"); ap.add_argument("--nocheck", action="store_true"); a = ap.parse_args()
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))
for i in a.ids:
    d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json")); out = [i]
    assert not sh("git -C /repo status --porcelain")[1].strip(), "dirty /repo"
    rc, o = sh("bash /opt/vp/build.sh && cd /repo && bash %s/demo.sh" % d, 300); out.append("demo-clean=%d" % rc)
    if rc: out.append(o[-300:])
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc: print(i, "patch does not apply", o); continue
    try:
        rc, o = sh("bash /opt/vp/test.sh /tmp/plant.json")
        r = json.load(open("/tmp/plant.json")); bad = [t for t in base if t not in r["passed"]]; out.append("tests=%d/%d" % (len(r["passed"]), len(r["passed"]) + len(r["failed"])) + (" BROKEN " + ",".join(map(str, (bad or r["failed"])[:3])) if bad or r["failed"] or rc and not r["passed"] else ""))
        rc, o = sh("cd /repo && bash %s/demo.sh" % d, 300); out.append("demo-bug=%d" % rc)
        if not a.nocheck:
            for c in (a.checks.split(",") if a.checks else [m["property"]]):
                rc, o = sh("cd %s && timeout 890 python3 run.py %s" % (V, c)); out.append("%s=%s" % (c, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % c in o else "MISSED(rc=%d)" % rc))
                l = [x for x in o.splitlines() if x.startswith("  ")][:1]
                if rc == 1 and l: out.append(l[0].strip()[:110])
                if rc not in (0, 1): out.append(o[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" | ".join(out), flush=True)
sh("bash /opt/vp/build.sh")
