#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current tree.

V: the units of the property are extracted from /repo (vx), and Verus must accept every obligation;
   a second run with `assert(false)` at every function entry must be refused everywhere (vacuity).
K: (some properties) Kani proofs over the real crate, loop-free and over the full input domain.
R: a harness runs the real code against an independent oracle (bounded; looks for the failing input of
   a failed obligation, and tests the assumptions V leaves unchecked). Never counted as proved.
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", f"{V}/build")
sys.path.insert(0, f"{V}/tools")
from registry import CHECKS  # noqa: E402

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CFG = CHECKS[PID]
T0 = time.time()
OUT = f"{B}/run/{PID}"
os.makedirs(OUT, exist_ok=True)
os.makedirs(f"{V}/evidence", exist_ok=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"


RENV = {"RUSTUP_TOOLCHAIN": "1.83.0", "CARGO_TARGET_DIR": f"{B}/rt-target", "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(f"{B}/{name}.lock", "w")

    def __enter__(self):
        import fcntl
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    with Lock("vx"):
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], 600, {"RUSTUP_TOOLCHAIN": "1.83.0", "CARGO_TARGET_DIR": f"{B}/vx", "RUSTFLAGS": "-Awarnings"}, f"{V}/vx")
    if rc:
        print(e[-3000:])
        sys.exit("cannot build vx")


# ---------------------------------------------------------------- V
def diags(stderr):
    out = []
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


VAC = ["--multiple-errors", "0", "--rlimit", "3"]


def run_verus(src, extra=(), limits=None):
    cmd = ["verus", src, "--output-json", "--time-expanded"] + (limits or ["--multiple-errors", "5", "--rlimit", str(CFG.get("rlimit", 30))]) + list(extra) + ["--", "--error-format=json"]
    rc, o, e = sh(cmd, 800, cwd=OUT)
    try:
        j = json.loads(o)
    except ValueError:
        j = {}
    return rc, j, diags(e), " ".join(cmd), e


def trusted_scan(text):
    """Every place where the verifier is told rather than shown."""
    found = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if re.search(r"external_body|assume_specification|\badmit\(|\bassume\(|external_fn_specification|\baxiom\b|uninterp|external_type_specification|exec_allows_no_decreases_clause|rlimit|spinoff", code):
            ctx = code.strip()
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"(fn\s+[A-Za-z0-9_]+|struct\s+[A-Za-z0-9_]+)", lines[k])
                if m:
                    ctx = m.group(1) + " [" + re.sub(r"\s+", " ", code.strip())[:60] + "]"
                    break
            found.append(ctx)
    return found


def unit(u):
    r = {"unit": u, "state": "ok", "functions": [], "obligations": 0, "discharged": 0, "smt_ms": 0, "errors": [], "trusted": [], "raw": ""}
    src, mp = f"{OUT}/{u}.rs", f"{OUT}/{u}.map.json"
    for f in (src, mp):
        if os.path.exists(f):
            os.remove(f)
    rc, o, e = sh([f"{B}/vx/debug/vx", f"{V}/units/{u}.vx", "--repo", REPO, "--out", src, "--map", mp], 120)
    if rc:
        r["state"] = "lost"
        r["why"] = (o.strip().splitlines() or [e.strip()[-400:]])[-1][:500]
        return r
    m = json.load(open(mp))["functions"]
    text = open(src).read()
    r["trusted"] = trusted_scan(text)
    r["contract_clauses"] = len(re.findall(r"^\s*(requires|ensures|invariant|invariant_except_break|decreases)\b", text, re.M))
    vsrc = f"{OUT}/{u}_vac.rs"
    sh([f"{B}/vx/debug/vx", f"{V}/units/{u}.vx", "--repo", REPO, "--out", vsrc, "--map", mp + ".vac", "--vacuity"], 120)
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_verus, src)
        b = ex.submit(run_verus, vsrc, (), VAC)
        rc, j, ds, cmd, raw = a.result()
        vrc, vj, vds, _, _ = b.result()
    r["cmd"] = cmd
    vr = j.get("verification-results", {})
    r["functions"] = [{"function": f["name"], "file": f["file"], "lines": [f["src_line"], f["src_end"]], "loops": f["loops"], "rewrites": f["rules"]} for f in m]
    errs = [d for d in ds if d.get("level") == "error" and not d.get("message", "").startswith("aborting")]
    try:
        r["smt_ms"] = j["times-ms"]["verification"]["total"] if isinstance(j["times-ms"].get("verification"), dict) else j["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        r["smt_ms"] = 0
    r["raw"] = "\n".join(d.get("rendered") or d.get("message", "") for d in errs)[:20000]
    if not vr or vr.get("encountered-vir-error") or ("verified" not in vr) or any(d.get("code") for d in errs) or vr["verified"] + vr["errors"] == 0:
        r["state"] = "lost"
        r["why"] = "the extracted text is outside the verifier's dialect: " + (errs[0]["message"] if errs else raw[-300:])[:400]
        return r
    r["discharged"] = vr["verified"]
    r["obligations"] = vr["verified"] + vr["errors"]
    hard = []
    soft = []
    for d in errs:
        spans = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        fn = None
        at = None
        for s in spans + d.get("spans", []):
            for f in m:
                if f["out_start"] <= s["line_start"] <= f["out_end"]:
                    fn = f
                    at = s
                    break
            if fn:
                break
        at = at or (spans[0] if spans else None)
        labels = [{"line": s["line_start"], "label": s.get("label"), "text": (s["text"][0]["text"].strip() if s.get("text") else "")} for s in d.get("spans", [])]
        ent = {"message": d["message"], "function": fn["name"] if fn else "(lemma or declaration of the unit)", "file": fn["file"] if fn else f"units/{u}.vx",
               "repo_lines": [fn["src_line"], fn["src_end"]] if fn else None, "at": labels}
        if re.search(r"[Rr]esource limit|rlimit|timed? ?out", d["message"]):
            soft.append(ent)
        else:
            hard.append(ent)
    r["errors"] = hard + soft
    if vr["errors"] or errs:
        r["state"] = "failed" if hard else "undecided"
        if not hard:
            r["why"] = "the solver ran out of resources on " + (soft[0]["function"] if soft else "?")
        return r
    # Vacuity: each function with an inserted assert(false) must be refused.
    vm = json.load(open(mp + ".vac"))["functions"]
    vtext = open(vsrc).read().splitlines()
    vlines = {}
    out_of = []
    for d in vds:
        for s in d.get("spans", []):
            vlines[s["line_start"]] = 1
            if re.search(r"[Rr]esource limit|rlimit|timed? ?out", d.get("message", "")):
                out_of.append(s["line_start"])  # nothing proved there either
    vac = []
    n = 0
    for f in vm:
        mark = [i + 1 for i in range(f["out_start"] - 1, f["out_end"]) if "// VACUITY" in vtext[i]]
        if mark:
            n += 1
            if not any(k in vlines for k in mark) and not any(f["out_start"] <= k <= f["out_end"] for k in out_of):
                vac.append(f["name"])
    r["vacuity_checked"] = n
    if vac:
        r["state"] = "vacuous"
        r["why"] = "contradictory precondition in " + ", ".join(vac)
    return r


# ---------------------------------------------------------------- R
def harness(h):
    if not h:
        return None
    ws = f"{B}/rt"
    with Lock("rt"):
        rc, o, e = sh(["python3", f"{V}/rt/sync.py", ws, REPO], 60)
        if rc:
            return {"state": "nobuild", "why": e[-1500:]}
        # Parts that reach private items sit behind `priv`: when a private item is renamed they are dropped.
        rc, priv = 1, 'feature = "priv"' in open(f"{V}/rt/h/{h}/main.rs").read()
        for flags in ([["--features", "priv"]] if priv else []) + [[]]:
            rc, o, e = sh(["cargo", "build", "--offline", "-q", "-p", h] + flags, 850, {**RENV, "VX_REPO": REPO}, ws)
            if not rc:
                break
        privok = priv and flags != []
        if rc:
            return {"state": "nobuild", "why": (e or "")[-3000:]}
        exe = f"{OUT}/{h}.exe"
        shutil.copy(f"{B}/rt-target/debug/{h}", exe)
    rep = f"{OUT}/harness.json"
    if os.path.exists(rep):
        os.remove(rep)
    lim = 240 if TIER == "quick" else 3000
    scratch = f"{OUT}/scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rc, o, e = sh([exe, "--seed", str(SEED), "--tier", TIER, "--out", rep], lim, {"VX_SCRATCH": scratch, "TMPDIR": scratch, **CFG.get("env", {})}, scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        j = json.load(open(rep))
    except (OSError, ValueError):
        j = None
    if rc == 0 and j:
        return {"state": "ok", "priv": (privok if priv else None), **j}
    if rc == 1 and j:
        return {"state": "violation", **j}
    if rc == 124:
        # The harness has known running time: not coming back is a hang of the code under test.
        return {"state": "violation", "case": "the harness did not finish within %d s" % lim, "error": "the code under test hangs", "evaluations": 0, "distinct_nontrivial": 0, "samples": ["(hang)"], "rule": ""}
    if rc < 0 or rc >= 128 or rc == 101 or (rc == 1 and not j):
        return {"state": "violation", "case": "process ended abnormally (status %d)" % rc, "error": (e or o)[-2000:], "evaluations": 0, "distinct_nontrivial": 0, "samples": ["(crash)"], "rule": ""}
    return {"state": "nobuild", "why": f"harness status {rc}: {(e or o)[-800:]}"}


def run_special(fn):
    import importlib
    mod, f = fn.split(":")
    return getattr(importlib.import_module(mod), f)(dict(V=V, B=B, OUT=OUT, REPO=REPO, TIER=TIER, SEED=SEED, sh=sh, Lock=Lock))


def main():
    build_vx()
    with cf.ThreadPoolExecutor(8) as ex:
        fr = ex.submit(harness, CFG.get("harness"))
        fus = [ex.submit(unit, u) for u in CFG.get("units", [])]
        fk = ex.submit(run_special, CFG["special"]) if CFG.get("special") else None
        us = [f.result() for f in fus]
        if fk:
            us += fk.result()
        R = fr.result()
    kf = known(PID)
    failed = [u for u in us if u["state"] == "failed"]
    weak = [u for u in us if u["state"] in ("lost", "undecided", "vacuous")]
    viol = None
    rep = f"{B}/replay/{PID}.json"
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if R and R["state"] == "violation":
        viol = {"property": PID, "kind": "failing input against the real code", "case": R.get("case"), "observed": R.get("error"), "harness": CFG["harness"], "seed": SEED, "tier": TIER,
                "rerun": f"{V}/tools/check.py {PID}", "failed_obligations": [e for u in failed for e in u["errors"]]}
        tail = ""
    elif failed:
        viol = {"property": PID, "kind": "failed obligation", "failed_obligations": [dict(e, unit=u["unit"]) for u in failed for e in u["errors"]],
                "verifier_output": "\n".join(u["raw"] for u in failed), "verifier_cmd": [u.get("cmd") for u in failed], "seed": SEED, "tier": TIER,
                "note": "the harness found no failing input within its bounds" if R and R["state"] == "ok" else "no harness result: " + (R or {}).get("why", "none")[:500]}
        tail = " no-failing-input-found"
    ob = sum(u["obligations"] for u in us)
    di = sum(u["discharged"] for u in us)
    proved = us and all(u["state"] == "ok" for u in us) and ob == di and ob > 0
    level = CFG.get("level", "proof") if proved else "exploration" if R else "other"
    cov = {
        "proved_this_run": bool(proved),
        "obligations": ob, "discharged": di,
        "checker_cmd": "; ".join(sorted({u.get("cmd", "") for u in us if u.get("cmd")})),
        "back_end": "Verus 0.2026.09.13 with its bundled Z3" + ("; Kani 0.68 (CBMC)" if CFG.get("special") else ""),
        "solver_time_ms": sum(u["smt_ms"] for u in us),
        "trusted_base": sorted(set(t for u in us for t in u["trusted"])) + CFG.get("trust", []) + COMMON_TRUST,
        "functions_under_contract": [f for u in us for f in u["functions"]],
        "functions_count": sum(len(u["functions"]) for u in us),
        "vacuity_checked_functions": sum(u.get("vacuity_checked", 0) for u in us),
        "contract_sections": sum(u.get("contract_clauses", 0) for u in us),
        "units": [{k: u.get(k) for k in ("unit", "state", "why", "obligations", "discharged", "smt_ms", "bounded")} for u in us],
    }
    if R:
        cov["evaluations"] = R.get("evaluations", 0)
        cov["distinct_nontrivial"] = R.get("distinct_nontrivial", 0)
        cov["rule"] = R.get("rule", "") + " (bounded run of the real code; not counted as proved)"
        cov["samples"] = R.get("samples", []) or ["none"]
        cov["harness_state"] = R["state"]
        if R["state"] == "nobuild":
            cov["harness_why"] = R["why"]
    if weak:
        cov["not_proved_because"] = [f"{u['unit']}: {u.get('why')}" for u in weak]
    if not R and not proved:
        cov["explanation"] = "nothing decided on this tree"
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": CFG.get("assume", []) + COMMON_ASSUME, "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(f"{V}/evidence/{PID}.json", "w"), indent=1)
    for u in us:
        print(f"[{u['unit']}] {u['state']} obligations={u['obligations']} discharged={u['discharged']} functions={len(u['functions'])} {u.get('why','')}")
        for e in u["errors"][:5]:
            print("   ", e["message"], "in", e["function"], "|", "; ".join(f"{a['line']}: {a['text']}" for a in e["at"])[:300])
    if R:
        print(f"[harness {CFG['harness']}] {R['state']} evaluations={R.get('evaluations')} distinct={R.get('distinct_nontrivial')} {R.get('why','')}")
    for line in kf:
        if line.startswith("KNOWN-FINDING"):
            print(line)
    if viol:
        json.dump(viol, open(rep, "w"), indent=1)
        if R and R["state"] == "violation":
            print("  case:", str(R.get("case"))[:1500])
            print("  observed:", str(R.get("error"))[:1500])
        print(f"VIOLATION property={PID} replay={rep}{tail}")
        sys.exit(1)
    if not proved and not (R and R["state"] == "ok"):
        print("no answer: neither the verifier nor the harness could be applied to this tree")
        sys.exit(2)
    sys.exit(0)


COMMON_TRUST = ["Verus, its vstd specifications of the standard library, rustc and Z3", "vx extraction (tools: /verif/vx): see DESIGN.md for exactly what it drops and rewrites; the rewrites applied this run are listed per function"]
COMMON_ASSUME = ["allocation succeeds (no out-of-memory)", "logging macros have no effect on state (dropped by the extraction)"]


def known(pid):
    out = []
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l)
    return out


main()
