"""Confirm and store a planted bug.  plant.py DEFS.py [id ...]
DEFS.py defines P = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new[, anchor before it])], demo=python source,
files={name: text} (optional), sh=demo.sh text (optional), checks=[...] (default [prop]))}.
For each: copy /repo, apply the edits (line ends kept), build, run the stable tests, run the demo on
the clean and the patched tree, run the checks against the patched tree, store in /verif/seeded."""
import json, os, shutil, subprocess, sys, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n' \
     'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(cwd):
    x = cwd + "/../junit.xml"
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "spherepy/tests"], cwd)
    return r.stdout.strip().splitlines()[-1] + ("" if r.returncode == 0 else "  FAILED:" + ",".join(
        l.split("::")[-1][:40] for l in r.stdout.splitlines() if l.startswith("FAILED"))[:300])


def main():
    P = runpy.run_path(sys.argv[1])["P"]
    for pid in sys.argv[2:] or P:
        d = P[pid]
        w = "/tmp/w/plant_" + pid
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        tree = w + "/repo"
        shutil.copytree("/repo", tree, symlinks=True)
        for f, old, new, *after in d["edits"]:
            p = tree + "/" + f
            s = open(p, newline="").read()
            nl = "\r\n" if "\r\n" in s else "\n"
            if nl == "\r\n" and s.count("\n") != s.count("\r\n"):
                old2, new2 = old, new
                o = old.replace("\n", nl)
                if o in s:
                    old2, new2 = o, new.replace("\n", nl)
            else:
                old2, new2 = old.replace("\n", nl), new.replace("\n", nl)
            head = ""
            if after:
                if after[0] not in s:
                    print(pid, "NO ANCHOR", after)
                    break
                i = s.index(after[0])
                head, s = s[:i], s[i:]
            n = s.count(old2)
            if n != 1 and not (after and n):
                print(pid, "EDIT MATCHES", n, "TIMES:", repr(old[:60]))
                break
            s = head + s.replace(old2, new2, 1)
            open(p, "w", newline="").write(s)
        else:
            out = w + "/seed"
            os.makedirs(out)
            diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE).stdout
            open(out + "/patch.diff", "wb").write(diff)
            open(out + "/demo.sh", "w").write(d.get("sh", SH))
            if "demo" in d:
                open(out + "/demo.py", "w").write(d["demo"].lstrip("\n"))
            for n, t in d.get("files", {}).items():
                open(out + "/" + n, "w").write(t.lstrip("\n"))
            json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            r = sh(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], "/repo")
            if r.returncode:
                print(pid, "PATCH DOES NOT APPLY", r.stdout)
            b = sh([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], tree)
            t = tests(tree) if b.returncode == 0 else "BUILD FAILED " + b.stdout[-500:]
            c = sh(["bash", out + "/demo.sh"], "/repo")
            m = sh(["bash", out + "/demo.sh"], tree)
            ok = b.returncode == 0 and "FAILED" not in t and c.returncode == 0 and m.returncode != 0
            print(f"== {pid} [{d['prop']}] tests: {t}; demo clean={c.returncode} patched={m.returncode}"
                  f" {'VALID' if ok else 'INVALID'}", flush=True)
            if c.returncode:
                print("   clean:", c.stdout[-600:])
            if not m.returncode or "-v" in os.environ.get("PLANT", ""):
                print("   patched:", m.stdout[-600:])
            if ok or os.environ.get("PLANT") == "force":
                for k in d.get("checks", [d["prop"]]):
                    r = subprocess.run(["timeout", "900", "python3", "check.py", k], cwd=HERE,
                                       env=dict(os.environ, MC_REPO=tree), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    print(f"   {k}: rc={r.returncode} {v[:1]}", flush=True)
                    if r.returncode == 1:
                        print("     ", r.stdout.strip().splitlines()[-1][:300])
                    elif r.returncode not in (0, 1):
                        print(r.stdout[-800:])
                if ok:
                    dst = HERE + "/seeded/" + pid
                    shutil.rmtree(dst, ignore_errors=True)
                    shutil.copytree(out, dst)
        shutil.rmtree(w, ignore_errors=True)


main()
