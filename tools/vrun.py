"""Extract the current source, run Verus over it, and say what failed where."""
import json, os, re, subprocess, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VX = VERIF + "/vx/target/release/vx"
SPECS = VERIF + "/specs"


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                          timeout=timeout, stdin=subprocess.DEVNULL, **kw)


def build(crate, timeout=600):
    r = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=f"{VERIF}/{crate}", timeout=timeout)
    return r.returncode == 0, r.stderr


def pending():
    p = SPECS + "/pending.txt"
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.split("#")[0].strip()
            if l:
                out.append(l)
    return out


def fn_lines(path):
    """Line number -> key of the extracted function it lies in."""
    src = open(path).read().split("\n")
    res = [None] * (len(src) + 2)
    stack = []
    for i, l in enumerate(src, 1):
        first = stack[-1] if stack else None
        for m in re.finditer(r"/\*VX([BE]) (.*?)\*/", l):
            if m.group(1) == "B":
                stack.append(m.group(2).strip())
                first = stack[-1]
            elif stack:
                stack.pop()
        res[i] = first if first else (stack[-1] if stack else None)
    return res


def extract(src, out, stubs, extra=()):
    shutil.rmtree(out, ignore_errors=True)
    cmd = [VX, src, SPECS, out]
    for s in stubs:
        cmd += ["--stub", s]
    r = sh(cmd + list(extra))
    if r.returncode != 0:
        return None, r.stdout + r.stderr
    return json.load(open(out + "/report.json")), ""


def verus(out, args=(), timeout=400):
    cmd = ["verus", "lib.rs", "--crate-type=lib", "--edition", "2021", "--cfg", 'feature="std"',
           "--multiple-errors", "4", "--output-json", "--time-expanded"] + list(args) + ["--", "--error-format=json"]
    t = time.time()
    try:
        r = sh(cmd, cwd=out, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "wall": time.time() - t, "diags": [], "json": {}}
    diags = []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    j = {}
    i = r.stdout.find("{")
    if i >= 0:
        try:
            j = json.loads(r.stdout[i:])
        except ValueError:
            pass
    return {"timeout": False, "wall": time.time() - t, "diags": diags, "json": j, "rc": r.returncode,
            "cmd": " ".join(cmd), "stderr": r.stderr}


SAFETY = ("overflow", "division by zero", "bit shift", "unreachable", "out of bounds", "out of range")


def classify(msg, spans):
    if "decreases" in msg or "termination" in msg:
        return "termination"
    if any(s in msg for s in SAFETY):
        return "safety"
    if "precondition not satisfied" in msg:
        for s in spans:
            f = s.get("file_name", "")
            if not s.get("is_primary") and ("std_specs" in f or f.endswith("vx.rs") or "vstd" in f or "pervasive" in f):
                return "safety"
        return "precondition"
    if "postcondition" in msg:
        return "postcondition"
    if "invariant" in msg:
        return "invariant"
    if "assertion" in msg:
        return "assertion"
    if "rlimit" in msg or "Resource limit" in msg or "timed out" in msg or "canceled" in msg:
        return "resource"
    return "other"


def locate(run, out):
    """[(function key or None, message, kind, 'file:line', rendered)] of every error."""
    maps = {}
    res = []
    for d in run["diags"]:
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        key = None
        place = ""
        for s in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
            f = s["file_name"]
            p = os.path.join(out, f)
            if f.startswith("/") or "std_specs" in f or f.endswith("vx.rs") or not os.path.exists(p):
                continue
            if f not in maps:
                maps[f] = fn_lines(p)
            k = maps[f][s["line_start"]] if s["line_start"] < len(maps[f]) else None
            if not place:
                place = f"{f}:{s['line_start']}"
            if k:
                key = k
                place = f"{f}:{s['line_start']}"
                break
        res.append((key, d["message"], classify(d["message"], d.get("spans", [])), place, d.get("rendered") or ""))
    return res


def full(src, out, log=None, max_rounds=9, args=(), deadline=None, extra=()):
    """Extraction and verification, setting functions aside that Verus cannot take.

    Returns a dict: ok (verification ran), errors, stubs added, report, run."""
    pend = pending()
    added = []
    rounds = 0
    walls = 0.0
    res = {"pending": pend, "added": added, "ok": False, "why": "", "errors": []}
    res["rounds"] = 0
    while rounds < max_rounds:
        rounds += 1
        rep, err = extract(src, out, pend + added, extra)
        if rep is None:
            res["why"] = "extraction failed: " + err[-2000:]
            return res
        lost = [f["full_key"] for f in rep["functions"] if f["lost"] and f["full_key"] not in added and f["key"] not in added
                and f["status"] not in ("stubbed",)]
        nodec = [f["full_key"] for f in rep["functions"] if f.get("nodec") and f["status"] in ("verified", "safety-only")]
        if nodec:
            added += nodec
            continue
        run = verus(out, args)
        walls += run["wall"]
        res.update(report=rep, run=run, lost=lost, rounds=rounds, verus_wall=walls)
        if run["timeout"]:
            res["why"] = "verus timed out"
            return res
        vr = run["json"].get("verification-results", {})
        errs = locate(run, out)
        res["errors"] = errs
        ran = vr.get("verified", 0) > 0 and not vr.get("encountered-vir-error")
        if ran:
            res["ok"] = True
            return res
        # Compile or VIR errors: set aside the functions they lie in.
        static = [e for e in errs if not is_proof_error(e)]
        ks = []
        for e in static:
            if e[0] and e[0] not in ks and e[0] not in added:
                ks.append(e[0])
        if log:
            log(f"round {rounds}: set aside {ks} ({[(e[1][:80], e[3]) for e in static[:6]]})")
        if not ks:
            res["why"] = "verus cannot process the extracted crate: " + "; ".join(f"{e[1]} at {e[3]}" for e in static[:5]) + run.get("stderr", "")[-300:]
            return res
        added += ks
        if deadline and time.time() > deadline:
            res["why"] = "no time left to isolate unsupported code"
            return res
    res["why"] = "too many functions outside the verifier's reach"
    return res


def is_proof_error(e):
    m = e[1]
    return any(s in m for s in ("precondition not satisfied", "postcondition not satisfied", "assertion failed",
               "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
               "possible bit shift", "Resource limit", "rlimit", "unreachable", "recommendation not met",
               "could not prove termination", "not satisfied"))
