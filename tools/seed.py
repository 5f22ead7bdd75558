"""Make and validate planted bugs from tools/seeds/*.py (scratch copies only).

  seed.py make ID...     build patch, run stable tests, demo on clean/patched,
                         and write seeded/ID when all of that is as it should be
  seed.py check ID...    run the property's quick check against the patched copy
  seed.py list
Each spec: S(id, prop, file, [(old, new), ...], needs, breaks, demo)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", PYTHONHASHSEED="0", LANG="C.UTF-8")

def specs():
    out = {}
    d = os.path.join(VERIF, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
            for s in m.SEEDS:
                assert s["id"] not in out, s["id"]
                out[s["id"]] = s
    return out

def copy():
    t = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
    return t

def mutate(root, s):
    edits = s["edits"]
    for f, old, new in edits:
        p = os.path.join(root, f)
        raw = open(p, newline="").read()
        crlf = "\r\n" in raw
        t = raw.replace("\r\n", "\n")
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: pattern occurs {t.count(old)} times in {f}:\n{old}")
        t = t.replace(old, new)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)

HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import welleng as we
import welleng.survey
if hasattr(we.survey, "MAG_CALC"):
    we.survey.MAG_CALC = False   # no network here


def verdict(bad):
    sys.exit(1 if bad else 0)

'''

def write(s, d, diff):
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write(HEAD + s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def not_base(r, diff):
    """Removed lines that are not lines of the original repository."""
    out, f, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:].strip()
            b = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd=r, capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith("-") and not l.startswith("---"):
            if not b[n].startswith("^"):
                out.append(b[n])
            n += 1
        elif l.startswith(" "):
            n += 1
    return out

def make(s):
    t = copy()
    try:
        r = t + "/repo"
        d = t + "/demo"
        mutate(r, s)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True).stdout
        write(s, d, diff)
        foreign = not_base(r, diff.decode(errors="replace"))
        if foreign:
            return f"{s['id']}: NOT-BASE {foreign[:3]}"
        run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=300)
        bad = run()
        subprocess.run(["git", "stash", "-q"], cwd=r, check=True)
        good = run()
        subprocess.run(["git", "stash", "pop", "-q"], cwd=r, check=True)
        if good.returncode != 0 or bad.returncode == 0:
            return f"{s['id']}: DEMO clean={good.returncode} patched={bad.returncode}\n--clean\n{good.stdout[-800:]}{good.stderr[-1500:]}\n--patched\n{bad.stdout[-800:]}"
        x = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=300", "tests"], cwd=r, env=ENV, capture_output=True, text=True)
        last = [l for l in x.stdout.splitlines() if "passed" in l or "failed" in l][-1:]
        f = [l for l in x.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "test_known_location" not in l]
        if f:
            return f"{s['id']}: TESTS {f[:5]} {last}"
        dst = f"{VERIF}/seeded/{s['id']}"
        write(s, dst, diff)
        return f"{s['id']}: OK {last} | patched says: {(bad.stdout + bad.stderr).strip().splitlines()[-1:]}"
    finally:
        shutil.rmtree(t)

def check(s, tier="quick"):
    t = copy()
    try:
        mutate(t + "/repo", s)
        out = []
        for p in [s["prop"]]:
            x = subprocess.run(["bash", f"{VERIF}/run.sh", p, tier], env=dict(ENV, VERIF_REPO=t + "/repo", VERIF_SEED="1", VERIF_EVIDENCE_DIR=t), capture_output=True, text=True)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{s['id']} {p}: rc={x.returncode} {'CAUGHT' if x.returncode == 1 and v else 'MISSED'} {v[:1]} {x.stderr[-300:] if x.returncode not in (0,1) else ''}")
        return "\n".join(out)
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    S = specs()
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "list":
        for k, s in S.items():
            print(k, s["prop"], os.path.isdir(f"{VERIF}/seeded/{k}"))
        raise SystemExit
    if ids == ["all"]:
        ids = list(S)
    if ids == ["new"]:
        ids = [k for k in S if not os.path.isdir(f"{VERIF}/seeded/{k}")]
    if cmd == "make":
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: make(S[i]), ids):
                print(r, flush=True)
    elif cmd == "check":
        for i in ids:
            print(check(S[i]), flush=True)
