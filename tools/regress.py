#!/usr/bin/env python3
"""Development aid. Runs each planted bug's property check (quick) against a scratch copy of /repo with the patch
applied, and prints one line per bug: caught or missed, with an input or by a failed obligation alone.
regress.py [--slot N] [ID ...]"""
import json, os, re, subprocess, sys
V = "/verif"
arg = sys.argv[1:]
slot = "r0"
if "--slot" in arg:
    i = arg.index("--slot"); slot = arg[i + 1]; del arg[i:i + 2]
T = f"/tmp/tr/{slot}"; R = T + "/repo"; W = T + "/verif"


def sh(c, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e)


sh(f"mkdir -p {T} {W}; [ -d {R} ] || cp -a /repo {R}; git -C {R} checkout -q -- src; cp -a {V}/. {W}/")
for s in arg or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{s}"
    pid = json.load(open(d + "/meta.json"))["property"]
    sh(f"git -C {R} checkout -q -- src")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        print(s, pid, "DOES NOT APPLY", flush=True); continue
    r = sh(f"cd {W} && python3 check.py {pid} quick", env={"VX_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    ob = sorted(set(re.findall(r"failed obligation: (\S+)", r.stdout)))
    how = "MISSED" if r.returncode != 1 or not v else "obligation only" if "no-failing" in v[0] else "input"
    print(s, pid, how, "|", " ".join(ob), flush=True)
    sh(f"git -C {R} checkout -q -- src")
