#!/usr/bin/env python3
"""Revert one fix at a time in a scratch copy of /repo; the mapped check must report it again.

  unfix.py [substring of the subject ...]   -> tools/unfix.tsv (subject, result)
"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TSV = os.path.join(V, "tools", "unfix.tsv")

def one(prop, commit, subject):
    t = tempfile.mkdtemp(prefix="unfix_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
        r = t + "/repo"
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
        x = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit],
                           cwd=r, capture_output=True, text=True)
        if x.returncode:
            return "later fixes build on it"
        env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_EVIDENCE_DIR=t)
        x = subprocess.run(["bash", f"{V}/run.sh", prop, "quick"], env=env, capture_output=True, text=True)
        v = any(l.startswith("VIOLATION") for l in x.stdout.splitlines())
        return "violation" if x.returncode == 1 and v else f"quiet (exit {x.returncode})"
    finally:
        shutil.rmtree(t)

done = dict(l.rstrip("\n").split("\t") for l in open(TSV)) if os.path.exists(TSV) else {}
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if not l.startswith("fixed:"):
        continue
    _, p, c, w = l.strip().split(" ", 3)
    if w in done and not sys.argv[1:] or sys.argv[1:] and not any(a in w for a in sys.argv[1:]):
        continue
    done[w] = one(p.split("=")[1], c, w)
    print(p, c, w, "->", done[w], flush=True)
    with open(TSV, "w") as f:
        f.writelines(f"{a}\t{b}\n" for a, b in sorted(done.items()))
