#!/usr/bin/env python3
"""Keep the `fixed:` lines of KNOWN_FINDINGS.txt in step with /repo's fix commits."""
import subprocess, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {l.rstrip("\n").split(" ", 1)[1]: l.split()[0] for l in open(os.path.join(HERE, "tools", "fix_map.txt")) if l.strip()}
path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
known = [l for l in (open(path) if os.path.exists(path) else []) if l.startswith("known:")]
with open(path, "w") as f:
    f.write("# fixed: property=<id> <commit> <what failed>   (suppresses nothing)\n"
            "# known: property=<id> finding=<key> <what fails>\n")
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            if s[5:] not in MAP:
                print("unmapped", l)
                continue
            f.write(f"fixed: property={MAP[s[5:]]} {h} {s[5:]}\n")
    f.writelines(known)
