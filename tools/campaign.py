"""
tools/campaign.py check [ids...]   apply each planted bug to a scratch copy, run its property's quick check on the copy
tools/campaign.py tests [ids...]   run the repository's tests on the copies (unit + notebooks), demo with/without
tools/campaign.py write [ids...]   write seeded/<id>/
Scratch copies live under /tmp/camp and are removed.
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import MUT
import mutants2, mutants3, mutants4, mutants5, mutants6, mutants7, mutants8  # noqa: F401

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
C = "/tmp/camp"
BASE = os.environ.get("CAMP_BASE", "/repo")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def make(m):
    d = f"{C}/{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(C, exist_ok=True)
    shutil.copytree(BASE, d, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
    for f, a, b in m["edits"]:
        s = open(f"{d}/{f}").read()
        assert s.count(a) == 1, (m["id"], f, s.count(a))
        open(f"{d}/{f}", "w").write(s.replace(a, b))
    return d


def check(m, props=None):
    d = make(m)
    out = {}
    for p in props or [m["prop"]]:
        t = time.time()
        r = subprocess.run([f"{V}/bin/check", p, "quick"], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True)
        what = [l for l in r.stdout.splitlines() if l.startswith(("what:", "case:"))]
        out[p] = (r.returncode, round(time.time() - t, 1), " ".join(what)[:160] or r.stderr[-200:])
    shutil.rmtree(d, ignore_errors=True)
    return out


def demo(m, d):
    if not m["demo"]:
        return "none"
    with open(f"{C}/{m['id']}.py", "w") as f:
        f.write(m["demo"])
    r = subprocess.run([PY, f"{C}/{m['id']}.py"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=280)
    os.remove(f"{C}/{m['id']}.py")
    return r.returncode, r.stderr.strip().split("\n")[-1][:100]


def tests(m):
    d = make(m)
    env = dict(ENV, PYTHONPATH=d)
    u = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "refellips"], cwd=d, env=env, capture_output=True, text=True)
    res = [u.returncode, u.stdout.strip().split("\n")[-1][:120]]
    if u.returncode == 0:
        nb = [x for x in ("demos", "docs", "refellips") if os.path.isdir(f"{d}/{x}")]
        n = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=700", "--nbmake", "--nbmake-timeout=600",
                            "-o", "python_files=NONE.py", f"--rootdir={d}"] + nb, cwd=d, env=env, capture_output=True, text=True)
        res += [n.returncode, n.stdout.strip().split("\n")[-1][:120]]
    res += [demo(m, "/repo"), demo(m, d)]
    shutil.rmtree(d, ignore_errors=True)
    return res


def write(m):
    d = make(m)
    o = f"{V}/seeded/{m['id']}"
    os.makedirs(o, exist_ok=True)
    p = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(f"{o}/patch.diff", "w").write(p)
    open(f"{o}/demo.py", "w").write(m["demo"].lstrip())
    with open(f"{o}/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# cwd: the repository; exit 0 = the property holds here\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(f"{o}/demo.sh", 0o755)
    json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(f"{o}/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    sel = [m for m in MUT if not ids or m["id"] in ids or m["prop"] in ids]
    if mode == "check":
        for m in sel:
            for p, r in check(m).items():
                print("caught" if r[0] == 1 else "MISSED" if r[0] == 0 else "ERROR ", m["id"], p, *r[1:], flush=True)
    elif mode == "tests":
        with ThreadPoolExecutor(4) as ex:
            for m, r in zip(sel, ex.map(tests, sel)):
                print(m["id"], *r, flush=True)
    else:
        for m in sel:
            if m["demo"]:
                write(m)
