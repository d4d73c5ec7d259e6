#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property (see DESIGN.md, "The driver")."""
import concurrent.futures as cf, json, os, re, resource, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS

def sh(cmd, cwd=None, env=None, timeout=None, mem=None):
    e = dict(os.environ); e.update(env or {})
    def lim():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), er.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, er = p.communicate()
        return -999, o.decode(errors="replace"), er.decode(errors="replace")

def build_vx():
    t = os.path.join(B, "vx")
    rc, o, e = sh(["cargo", "+stable", "build", "--offline", "-q"], cwd=os.path.join(V, "tools/vx"),
                  env={"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true"}, timeout=600)
    if rc != 0:
        print("cannot build the extractor:\n" + e[-3000:]); sys.exit(3)
    return os.path.join(t, "debug/vx")

def enclosing(lines, ln, report):
    for f in report.get("functions", []):
        if f["start"] <= ln <= f["end"]:
            return f"{f['name']} ({f['file']}:{f['line']})"
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m: return m.group(1)
    return "?"

def run_unit(vx, unit, prop, canary=False):
    """Extracts one unit from the current source and has Verus decide every obligation of it.
    The solver's search depends on its seed: what it does not find with one it is given two more tries at
    (a proof found with any seed is a proof)."""
    r = run_once(vx, unit, prop, canary)
    if not canary and (r["status"] == "failed" or r["why"].startswith("resource limit")) and r.get("wall_s", 999) < 150:
        with cf.ThreadPoolExecutor(2) as ex:
            for seed, x in zip((7, 23), ex.map(lambda s: run_once(vx, unit, prop, seed=s), (7, 23))):
                if x["status"] == "ok":
                    x["why"] = f"proved with solver seed {seed}"
                    return x
    return r

def run_once(vx, unit, prop, canary=False, seed=None):
    d = os.path.join(B, "units", prop + ("-canary" if canary else "") + (f"-seed{seed}" if seed else "")); os.makedirs(d, exist_ok=True)
    rs, js = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    r = {"unit": unit, "status": "undecided", "verified": 0, "errors": 0, "failed": [], "functions": [], "why": "", "solver_s": 0.0, "output": ""}
    rc, o, e = sh([vx, os.path.join(V, "units", unit + ".vx"), REPO, os.path.join(V, "units/lib"), rs, js], timeout=120,
                  env=dict({"VX_OFF": ",".join(PROPS[prop].get("off", []))}, **({"VX_CANARY": "1"} if canary else {})))
    if rc != 0:
        r["why"] = ("extraction: " + (e.strip().splitlines() or ["exit %d" % rc])[-1])[:500]
        return r
    rep = json.load(open(js)); r["report"] = rep
    src = open(rs).read(); lines = src.split("\n")
    r["functions"] = [f"{f['name']} ({f['file']}:{f['line']})" for f in rep["functions"]]
    t0 = time.time()
    cmd = ["verus", unit + ".rs", "--output-json", "--time", "--multiple-errors", "40" if canary else "4", "--num-threads", "4", "--triggers-mode", "silent"] + (["--smt-option", f"smt.random_seed={seed}"] if seed else [])
    r["cmd"] = " ".join(cmd)
    rc, o, e = sh(cmd, cwd=d, timeout=600)
    r["wall_s"] = round(time.time() - t0, 1)
    r["output"] = e[-12000:]
    try: j = json.loads(o[o.index("{"):])
    except Exception:
        r["why"] = "verifier gave no result (exit %s)" % rc; return r
    v = j.get("verification-results") or {}
    if v.get("encountered-vir-error") or "verified" not in v:
        m = re.search(r"error(\[E\d+\])?: .*", e)
        r["why"] = "the extracted text is outside the verifier's language: " + (m.group(0) if m else "")[:300]
        return r
    if v["verified"] + v["errors"] == 0 and not v.get("success"):
        m = re.search(r"error(\[E\d+\])?: .*", e)
        r["why"] = "the extracted text does not compile: " + (m.group(0) if m else "")[:300]
        return r
    r["verified"], r["errors"] = v["verified"], v["errors"]
    try: r["solver_s"] = round(sum(x.get("time-micros", 0) for m in j["times-ms"]["smt"]["smt-run-module-times"] for x in m.get("function-breakdown", [])) / 1e6, 2)
    except Exception: pass
    for blk in re.split(r"\n(?=error)", e):
        if not blk.startswith("error"): continue
        m = re.search(r"--> [^\n:]*:(\d+):\d+", blk)
        if not m or "aborting due to" in blk[:60]: continue
        if re.search(r"resource limit|rlimit", blk[:200]): r.setdefault("rlimit", []).append(enclosing(lines, int(m.group(1)), rep)); continue
        r["failed"].append({"obligation": blk.splitlines()[0], "in": enclosing(lines, int(m.group(1)), rep), "text": blk[:1500]})
    # several locations: the function whose body fails is the one that contains the "at this exit"/call site
    for f in r["failed"]:
        nums = [int(x) for x in re.findall(r"^(\d+) *\|", f["text"], re.M)]
        for n in nums:
            w = enclosing(lines, n, rep)
            if "(" in w: f["in"] = w
    r["status"] = "ok" if v["errors"] == 0 and v.get("success") else "failed"
    if r["status"] == "failed" and not r["failed"] and r.get("rlimit"):
        r["status"], r["why"] = "undecided", "resource limit in " + ", ".join(r["rlimit"])
    r["trusted"] = sorted(set(trusted(src, rep)))
    return r

def trusted(src, rep):
    elsewhere = {n.split("::")[-1] for n, _ in rep.get("proved_elsewhere", [])}
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct|const fn)\s+(\w+)", src):
        if m.group(2) in elsewhere: continue
        out.append(("assumed contract: " if m.group(1) != "struct" else "opaque type: ") + m.group(2))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", src): out.append("axiom: " + m.group(1))
    for m in re.finditer(r"assume_specification[^;]*?\[\s*([^\]]+)\]", src): out.append("assumed specification: " + m.group(1).strip())
    for m in re.finditer(r"\b(assume|admit)\s*\(([^;]*)\)\s*;", src): out.append("assume: " + m.group(2).strip()[:160])
    return out

def build_replay(crate):
    t = os.path.join(B, "replay_" + crate)
    env = {"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true"}
    if crate == "lsp": env["RUSTFLAGS"] = "--cfg verif_hooks"
    d = os.path.join(V, "replay", crate)
    if REPO != "/repo":  # development only: against a scratch copy
        d2 = os.path.join(B, "replay_src_" + crate); sh(["rm", "-rf", d2]); sh(["cp", "-a", os.path.join(V, "replay"), d2]); d = os.path.join(d2, crate)
        p = os.path.join(d, "Cargo.toml"); s = open(p).read().replace('"/repo/', '"' + REPO + "/"); open(p, "w").write(s)
    rc, o, e = sh(["cargo", "+stable", "build", "--offline", "-q"], cwd=d, env=env, timeout=800)
    if rc != 0: return None, e[-3000:]
    return os.path.join(t, "debug", "replay_" + crate), ""

def build_server():
    """the server itself, from the current tree"""
    t = os.path.join(B, "server")
    rc, o, e = sh(["cargo", "+stable", "build", "--offline", "-q", "-p", "move_language_server", "--bin", "move_language_server", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                  cwd=REPO, env={"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true"}, timeout=800)
    b = os.path.join(t, "debug", "move_language_server")
    if rc == 0 and os.path.exists(b): os.environ["VERIF_SERVER"] = b

def run_assume(seed, secs):
    """the contracts the proofs assume of std and of the dependencies, tried against the real ones (no code of the repository)"""
    r = {"contracts": 0, "evaluations": 0, "refuted": [], "note": ""}
    t = os.path.join(B, "replay_assume")
    rc, o, e = sh(["cargo", "+stable", "build", "--offline", "-q"], cwd=os.path.join(V, "replay/assume"), env={"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true"}, timeout=600)
    if rc != 0: r["note"] = "the test of the assumptions did not build"; return r
    rc, o, e = sh([os.path.join(t, "debug/assume"), str(seed), str(secs)], timeout=secs * 3 + 120, mem=8 << 30)
    for l in o.split("\n"):
        if l.startswith("ASSUMED "): r["contracts"] += 1; r["evaluations"] += int(l.split()[-1])
        if l.startswith("REFUTED "): r["refuted"].append(l[8:300])
    if rc not in (0, 1): r["note"] = "the test of the assumptions ended with %s" % rc
    locks = []
    for f in (os.path.join(V, "replay/assume/Cargo.lock"), os.path.join(REPO, "Cargo.lock")):
        try: locks.append(set(re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"', open(f).read())))
        except OSError: locks.append(set())
    other = sorted(n + " " + v for n, v in locks[0] - locks[1] if n != "assume")
    if other: r["note"] = (r["note"] + "; versions the repository does not use: " + ", ".join(other[:10])).strip("; ")
    return r

def run_replay(binary, prop, seed, tier, secs, tag=""):
    d = os.path.join(B, "replay_run", prop); os.makedirs(d, exist_ok=True)
    mem = 16 << 30
    out = {"violation": None, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "", "groups": {}, "notes": [], "seed": seed}
    known = os.path.join(V, "known-findings.json")
    rc, o, e = sh([binary, prop, str(seed), tier, str(secs), "--known", known], cwd=d, timeout=secs * 3 + 60, mem=mem)
    m = [l for l in o.split("\n") if l.startswith("REPLAY ")]
    if m and rc in (0, 1):
        out.update(json.loads(m[-1][7:])); return out
    if rc == 2 or rc == -999:
        out["notes"] = ["replay gave no answer: exit %s %s" % (rc, e[-300:])]; out["noanswer"] = True; return out
    # the process died (stack overflow, abort, memory): repeat with a trace of the input being evaluated
    tr = os.path.join(d, "trace" + tag)
    rc2, o2, e2 = sh([binary, prop, str(seed), tier, str(secs), "--known", known, "--trace", tr], cwd=d, timeout=secs * 3 + 60, mem=mem)
    if rc2 in (0, 1):
        m = [l for l in o2.split("\n") if l.startswith("REPLAY ")]
        if m: out.update(json.loads(m[-1][7:])); return out
    inp = open(tr, errors="replace").read() if os.path.exists(tr) else ""
    if not inp:
        out["notes"] = ["replay process died with %s outside any case: %s" % (rc, e[-300:])]; out["noanswer"] = True; return out
    out["violation"] = {"input": inp, "detail": "the process died with status %s while evaluating this input: %s" % (rc2, e2[-300:])}
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    quick = tier == "quick"
    secs = P.get("seconds", (15, 240))[0 if quick else 1]
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    units, crate = P.get("units", []), P["crate"].split("+")
    with cf.ThreadPoolExecutor(8) as ex:
        fb = [ex.submit(build_replay, c) for c in crate]
        fs = ex.submit(build_server) if P.get("server") else None
        fv = ex.submit(build_vx) if units else None
        vx = fv.result() if fv else None
        fu = [ex.submit(run_unit, vx, u, prop) for u in units]
        fa = ex.submit(run_assume, seed, 2 if quick else 20) if units else None
        built = [f.result() for f in fb]
        bins = [b for b, _ in built]; binary = bins[0]
        if None in bins:
            print("cannot build the replay program against the current source:\n" + "".join(e for _, e in built))
            for f in fu: f.result()
            sys.exit(3)
        if fs: fs.result()
        reps = list(ex.map(lambda b: run_replay(b, prop, seed, tier, secs, os.path.basename(b)), bins))
        rep = next((x for x in reps if x["violation"]), reps[0])
        us = [f.result() for f in fu]
        asm = fa.result() if fa else None
        if asm and asm["refuted"]:  # what a proof takes for granted does not hold: the proof says nothing
            for u in us:
                if u["status"] != "undecided": u["status"], u["why"], u["failed"] = "undecided", "an assumption is refuted: " + asm["refuted"][0], []
        failed = [u for u in us if u["status"] == "failed"]
        undecided = [u for u in us if u["status"] == "undecided"]
        if not rep["violation"] and (failed or undecided or any(x.get("noanswer") for x in reps)):
            # counterexample search / bounded fallback: more seeds in parallel
            n, s2 = 6, (60 if quick else 200)
            reps += list(ex.map(lambda i: run_replay(bins[i % len(bins)], prop, seed * 1000 + 17 * i + 1, "thorough", s2, str(i)), range(n)))
        can = []
        if not quick and units and not failed and not undecided:
            can = list(ex.map(lambda u: run_unit(vx, u, prop, canary=True), units))
    viol = next((r["violation"] for r in reps if r["violation"]), None)
    evals = sum(r["evaluations"] for r in reps)
    vac = []
    for c in can:
        hit = {f["in"] for f in c["failed"]}
        for f in c["functions"]:
            if f not in hit: vac.append(f"{c['unit']}: {f}")
    obligations = sum(u["verified"] + u["errors"] for u in us) + len(undecided)
    discharged = sum(u["verified"] for u in us)
    tb = ["Verus 0.2026.09.13 and its Z3; rustc; the extraction rules of tools/vx (listed in DESIGN.md), applied on this run: "
          + "; ".join(sorted({f"{k} x{v}" for u in us for k, v in u.get("report", {}).get("rules", {}).items()}))] if us else []
    tb += sorted({t for u in us for t in u.get("trusted", [])})
    cov = {
        "evaluations": evals, "distinct_nontrivial": max([r["distinct_nontrivial"] for r in reps] or [0]),
        "rule": "; ".join(dict.fromkeys(r["rule"] for r in reps if r["rule"])), "samples": [x for r in reps[:len(crate)] for x in r["samples"]] or ["none"], "groups": {k: v for r in reps[:len(crate)] for k, v in r["groups"].items()}, "replay_notes": [x for r in reps[:len(crate)] for x in r["notes"]],
        "bounded_part": P.get("bounded", ""),
    }
    if us:
        cov.update({
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(u.get("cmd", "verus (not reached: %s)" % u["why"]) for u in us), "trusted_base": tb,
            "functions_under_contract": sorted({f for u in us for f in u["functions"]}),
            "contracts_from_other_units": sorted({f"{a} (proved in unit {b})" for u in us for a, b in u.get("report", {}).get("proved_elsewhere", [])}),
            "extraction_dropped": sorted({x for u in us for x in u.get("report", {}).get("dropped", [])}),
            "inlined_without_contract": sorted({x for u in us for x in u.get("report", {}).get("inlined", [])}),
            "units": [{"unit": u["unit"], "status": u["status"], "verified": u["verified"], "errors": u["errors"], "back_end": "Verus/Z3",
                       "solver_s": u["solver_s"], "wall_s": u.get("wall_s"), "why": u["why"], "failed": [{"in": f["in"], "obligation": f["obligation"]} for f in u["failed"]]} for u in us],
        })
        if asm: cov["assumptions_tested"] = asm
        if P.get("off"): cov["aspects_left_out"] = P["off"]
        if can: cov["vacuity"] = {"functions_probed": sum(len(c["functions"]) for c in can), "vacuous": vac}
        cov["verdict_of_the_proof"] = "all obligations discharged" if not failed and not undecided else ("failed" if failed else "no verdict on this run: bounded part only")
    nviol = 0
    replay_path = os.path.join(V, "evidence", prop + ".violation.json")
    line = None
    if viol:
        nviol = 1
        json.dump({"property": prop, "kind": "failing input on the real code", "input": viol["input"], "detail": viol["detail"],
                   "rerun": f"{binary} {prop} {seed} {tier} {secs} --input FILE (where the property has a single-input mode)",
                   "failed_obligations": [f for u in failed for f in u["failed"]]}, open(replay_path, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={replay_path}"
    elif failed or vac:
        nviol = 1
        json.dump({"property": prop, "kind": "obligation not discharged", "failed_obligations": [dict(f, unit=u["unit"]) for u in failed for f in u["failed"]],
                   "vacuous": vac, "verifier_output": {u["unit"]: u["output"] for u in failed}}, open(replay_path, "w"), indent=1)
        line = f"VIOLATION property={prop} replay={replay_path} no-failing-input-found"
    elif os.path.exists(replay_path):
        os.remove(replay_path)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []) + [f"unit {u['unit']}: no verdict ({u['why']})" for u in undecided],
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for u in us:
        print(f"unit {u['unit']}: {u['status']} ({u['verified']} verified, {u['errors']} errors) {u['why']}")
        for f in u["failed"][:6]: print(f"  {f['in']}: {f['obligation']}")
    print(f"replay: {evals} evaluations, {cov['distinct_nontrivial']} distinct non-trivial" + "".join("; " + n for r in reps for n in r["notes"]))
    if us and asm: print(f"assumptions of std and the dependencies: {asm['contracts']} tried, {asm['evaluations']} evaluations, {len(asm['refuted'])} refuted {asm['note']}")
    if viol: print("  failing input: " + repr(viol["input"][:600]) + "\n  " + viol["detail"][:600])
    if vac: print("  vacuous: " + ", ".join(vac))
    try: kf = json.load(open(os.path.join(V, "known-findings.json")))
    except FileNotFoundError: kf = {}
    for k in kf.get("findings", []):
        if k["property"] == prop: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if line: print(line); sys.exit(1)
    if all(r.get("noanswer") for r in reps) and (undecided or not us):
        print("no verdict from either the proof or the replay"); sys.exit(3)
    sys.exit(0)

main()
