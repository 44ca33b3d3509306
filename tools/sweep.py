#!/usr/bin/env python3
"""Run planted bugs against checks: sweep.py [--all-missed] [-j N] [id ...].  Each seeded/<id>/patch.diff is
applied to a scratch copy of /repo and the quick check of its property is run there (MC_REPO).
Results are merged into tools/planted_results.json ({bug: {check: exit status}})."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(V, "tools/planted_results.json")
res = json.load(open(RES)) if os.path.exists(RES) else {}
args = sys.argv[1:]
extra = []
jobs = 1
ids = []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "-c":
        extra = args.pop(0).split(",")
    elif a == "--new":
        ids += [i for i in sorted(os.listdir(V + "/seeded")) if i not in res]
    else:
        ids.append(a)
ids = ids or sorted(os.listdir(V + "/seeded"))


def one(i):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    w = tempfile.mkdtemp(prefix="sweep_")
    try:
        t = w + "/repo"
        shutil.copytree("/repo", t, symlinks=True)
        subprocess.check_call(["git", "-C", t, "apply", "%s/seeded/%s/patch.diff" % (V, i)])
        out = {}
        for c in extra or [m["property"]]:
            r = subprocess.run(["timeout", "900", "python3", "check.py", c, "--tier", "quick"], cwd=V,
                               env=dict(os.environ, MC_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = r.returncode != 1 or "VIOLATION property=%s " % c in r.stdout
            out[c] = r.returncode if ok else -1
        return i, m["property"], out
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(jobs) as ex:
    for i, p, o in ex.map(one, ids):
        res.setdefault(i, {}).update(o)
        print(i, p, o, "" if o.get(p) == 1 else "   MISSED", flush=True)
        for k in [k for k in res if not os.path.isdir(V + "/seeded/" + k)]:
            del res[k]
        with open(RES, "w") as f:
            json.dump(res, f, indent=0, sort_keys=True)
            f.write("\n")
