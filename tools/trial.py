#!/usr/bin/env python3
"""Development aid. Try changes to the library in scratch copies of /repo and /verif.

trial.py FILE.json [--slot N] [--only ID] [--no-tests]
An entry with "property" is a planted bug: it is built, tested, given to the property's check, and kept under
/verif/seeded with a demonstration made of the failing case found (or of the entry's own "cases" or "demo_files").
An entry with "quiet": [ids] is a behaviour-preserving edit: the listed checks must stay quiet.
"edits": [[file, old, new]...]; "append": [[file, text]...]."""
import json, os, re, subprocess, sys
V = "/verif"
arg = sys.argv[1:]
slot = arg[arg.index("--slot") + 1] if "--slot" in arg else "0"
only = arg[arg.index("--only") + 1] if "--only" in arg else None
T = f"/tmp/tr/{slot}"; R = T + "/repo"; W = T + "/verif"


def sh(c, t=1500, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", env=e)


DEMO = open(V + "/tools/demo.sh.txt").read()


def setup():
    sh(f"mkdir -p {T}; [ -d {R} ] || cp -a /repo {R}; cp -a /repo/src /repo/.git {R}/; git -C {R} checkout -q -- src; "
       f"mkdir -p {W}; cp -a {V}/. {W}/ 2>/dev/null; "
       f"sed 's#cd /repo#cd {R}#' /opt/vp/build.sh > {T}/build.sh; sed 's#cd /repo#cd {R}#' /opt/vp/test.sh > {T}/test.sh")


def check(pid):
    r = sh(f"cd {W} && python3 check.py {pid} quick", env={"VX_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    info = [l for l in r.stdout.split("\n") if re.search(r"failed obligation|input found|verus: ran|undecided|obligations|explored|KNOWN", l)]
    return r.returncode, v, info


def passed(x):
    return set(x.get("stable") or x.get("passed"))


def one(s):
    sh(f"git -C {R} checkout -q -- src")
    for f, old, new in s.get("edits", []):
        p = f"{R}/{f}"; t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "BAD EDIT", f, t.count(old), old); return
        open(p, "w").write(t.replace(old, new))
    for f, a in s.get("append", []):
        open(f"{R}/{f}", "a").write(a)
    diff = sh(f"git -C {R} diff").stdout
    for f in {e[0] for e in s.get("edits", [])}:
        base = sh(f"git -C {R} show c45122b:{f}").stdout.split("\n")
        gone = [l[1:] for l in sh(f"git -C {R} diff {f}").stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
        if any(g not in base for g in gone) and "quiet" not in s:
            print(s["id"], "CHANGES LINES OF OURS", [g for g in gone if g not in base], flush=True)
    if "--no-tests" not in arg:
        b = sh(f"bash {T}/build.sh")
        if b.returncode:
            print(s["id"], "BUILD FAILS", b.stdout[-800:], flush=True); return
        sh(f"bash {T}/test.sh {T}/t.json")
        miss = passed(json.load(open("/opt/vp/BASELINE.json"))) - passed(json.load(open(T + "/t.json")))
        if miss:
            print(s["id"], "TESTS FAIL", sorted(miss)[:5], flush=True); return
    if "quiet" in s:
        for pid in s["quiet"]:
            rc, v, info = check(pid)
            print(s["id"], pid, "QUIET" if rc == 0 and not v else f"ALARM {rc} {v}", flush=True)
            for i in info: print("    ", i[:400], flush=True)
        return
    pid = s["property"]
    rc, v, info = check(pid)
    print(s["id"], pid, "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}", v, flush=True)
    for i in info: print("    ", i[:500], flush=True)
    cases = [tuple(x) for x in s.get("cases", [])]
    if v and "no-failing-input" not in v[0]:
        rp = json.load(open(f"{W}/work/replay/{pid}.json"))
        if not cases: cases = [(rp["scenario"], rp["seed"])]
    d = f"{V}/seeded/{s['id']}"
    if not cases and "demo_files" not in s:
        print("    no demonstration: add cases or demo_files", flush=True); return
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": pid, "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo_files" in s:
        for n, c in s["demo_files"].items():
            open(d + "/" + n, "w").write(c)
    else:
        sh(f"tar -czf {d}/reader.tgz -C {W}/harness Cargo.toml Cargo.lock src")
        open(d + "/cases.txt", "w").write("".join(f"{a} {b}\n" for a, b in cases))
        open(d + "/demo.sh", "w").write(DEMO)
    r1 = sh(f"cd {R} && bash {d}/demo.sh")
    sh(f"git -C {R} checkout -q -- src")
    r0 = sh(f"cd {R} && bash {d}/demo.sh")
    good = r1.returncode != 0 and r0.returncode == 0
    print("    demo with", r1.returncode, "without", r0.returncode, "KEPT" if good else "BAD DEMO " + r1.stdout[-300:] + r0.stdout[-300:], flush=True)
    if not good: sh(f"/bin/rm -rf {d}")


specs = json.load(open(arg[0]))
setup()
for s in specs:
    if only and s["id"] != only: continue
    try:
        one(s)
    except Exception as e:
        print(s["id"], "TRIAL ERROR", repr(e), flush=True)
