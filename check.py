#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of nom-exif on /repo's current working tree:
 (P) Verus on functions extracted from /repo/src on this run (contracts/*.vrs);
 (K) Kani on the real crate for loop-free functions over their full domain;
 (E) the executable contract of the property run against the real crate, the
     labelled bounded stand-in for what lies outside (P) and (K) and the search
     for a concrete failing input when an obligation fails.
Exit 0: held.  Exit 1: "VIOLATION property=<id> replay=<path>".
"""
import argparse, concurrent.futures as cf, fcntl, json, os, re, resource, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import props, vrun, kani_run

def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=cwd, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")

ENV = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"}
def toolchain():
    try:
        m = re.search(r"RUSTUP_TOOLCHAIN=(\S+)", open("/opt/vp/env.sh").read())
        return m.group(1).strip('"') if m else None
    except OSError: return None
t = toolchain()
if t: ENV["RUSTUP_TOOLCHAIN"] = t

def build_replay():
    b = os.path.join(V, ".build"); os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "replay.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, o = sh([sys.executable, os.path.join(V, "tools", "gen_tags.py"), os.path.join(V, "replay", "src", "tags_gen.rs")], 60)
        if rc: return None, o
        td = os.path.join(b, "replay")
        rc, o = sh(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(V, "replay"), dict(ENV, CARGO_TARGET_DIR=td, RUSTFLAGS="-Awarnings"))
        if rc: return None, o
        return os.path.join(td, "debug", "replay"), o

def run_replay(binary, prop, seed, scale, seconds, only=None, hang=30):
    d = os.path.join(V, ".build", "run"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{prop}-{os.getpid()}.json"); st = out + ".status"
    for f in (out, st):
        if os.path.exists(f): os.unlink(f)
    cmd = [binary, prop, "--seed", str(seed), "--scale", str(scale), "--seconds", str(seconds), "--out", out, "--status", st, "--hang", str(hang)]
    if only: cmd += ["--only", only]
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds + 3 * hang + 60, preexec_fn=lim)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = 124, "timeout"
    try: r = json.load(open(out))
    except Exception:
        case = open(st).read().strip() if os.path.exists(st) else "?"
        r = {"property": prop, "evaluations": 0, "distinct": 0, "tallies": {}, "crashed": True,
             "violations": [{"case": case, "key": "crash", "detail": f"the process ended (status {rc}) while running this case: {err[-1500:]}", "input_len": 0, "input_hex": ""}]}
    r["wall_s"] = round(time.time() - t0, 2)
    for f in (out, st):
        if os.path.exists(f): os.unlink(f)
    return r

def known_findings():
    r = []
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) case=(\S+) key=(\S+) (.*)", l)
        if m: r.append({"property": m.group(1), "case": m.group(2), "key": m.group(3), "text": m.group(4)})
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop = a.property; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    cfg = props.PROPS[prop]; t0 = time.time()
    thorough = tier == "thorough"
    ev_dir = os.path.join(V, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    work = os.path.join(V, ".build", "verus", prop)
    with cf.ThreadPoolExecutor(8) as ex:
        # the units that decide the property, and those that prove the contracts they call
        deps = vrun.deps_of(cfg["units"])
        fu = {u: ex.submit(vrun.run_unit, u, REPO, work, None, (), u in cfg["units"] and not cfg.get("safety")) for u in cfg["units"] + deps}
        fk = ex.submit(kani_run.run, cfg["kani"], REPO) if cfg["kani"] else None
        fb = ex.submit(build_replay)
        binary, blog = fb.result()
        if binary:
            scale = cfg.get("scale", 100) * (cfg.get("deep", 20) if thorough else 1)
            secs = 420 if thorough else 75
            e = run_replay(binary, prop, seed, scale, secs)
        else:
            e = None
        units = []
        for u, f in fu.items():
            try: units.append(f.result())
            except Exception as x:
                units.append({"unit": u, "verified": 0, "errors": 0, "errs": [], "lost": [("unit", repr(x))], "fns": [], "vac_err": None, "stubs": [], "trusted": [], "smt_ms": 0, "wall_s": 0, "cmd": "", "stderr": repr(x), "vacuous": []})
        kani = fk.result() if fk else None

    # --- obligations
    proved, undecided, failed = [], [], []
    obligations = discharged = 0
    for u in units:
        n = u["verified"] + u["errors"]
        bad = vrun.classify(u)   # (failed [err], undecided [text])
        if u["unit"] in deps:
            # not this property's own contract: what was proved on top of it no longer stands
            bad["undecided"] += [f"{u['unit']}: {f['fn']}: {f['msg']} (a contract the proof of {prop} calls)" for f in bad["failed"]]; bad["failed"] = []
        if cfg.get("safety"):
            # only what says that the code may panic, overflow or not end is this property's
            bad["undecided"] += [f"{u['unit']}: {f['fn']}: {f['msg']} (not about safety)" for f in bad["failed"] if not vrun.is_safety(f)]
            bad["failed"] = [f for f in bad["failed"] if vrun.is_safety(f)]
        base = props.BASE_OBLIGATIONS.get(u["unit"])
        if base and n < base and not bad["undecided"] and not bad["failed"]:
            bad["undecided"].append(f"{u['unit']}: only {n} obligations generated, {base} on the reference tree")
        obligations += max(n, base or 0)
        discharged += u["verified"]
        failed += bad["failed"]; undecided += bad["undecided"]
    if kani:
        obligations += len(kani["harnesses"])
        discharged += sum(1 for h in kani["harnesses"] if h["status"] == "SUCCESS")
        for h in kani["harnesses"]:
            if h["status"] == "FAILED": failed.append({"fn": h["name"], "msg": h["detail"], "text": h["detail"], "unit": "kani"})
            elif h["status"] != "SUCCESS": undecided.append(f"kani {h['name']}: {h['detail']}")

    # --- bounded executable contract
    known = [k for k in known_findings() if k["property"] == prop]
    new, seen = [], []
    if e:
        for v in e["violations"]:
            k = next((k for k in known if k["case"] == v["case"] and k["key"] == v["key"]), None)
            (seen.append((k, v)) if k else new.append(v))
        if new and binary and new[0]["key"] in ("hang", "crash"):
            # a slow machine must not raise an alarm: the case has to fail again on its own
            r = run_replay(binary, prop, seed, scale, 120, only=new[0]["case"], hang=90)
            if not r["violations"]: new = new[1:]
        if not new and failed and binary:
            # an obligation failed: search longer for a concrete input
            e2 = run_replay(binary, prop, seed + 1000, cfg.get("scale", 100) * 4, 150)
            e["evaluations"] += e2["evaluations"]
            for v in e2["violations"]:
                if not any(k["case"] == v["case"] and k["key"] == v["key"] for k in known) and v["key"] not in ("hang",): new.append(v)

    # --- evidence
    assumptions = list(cfg["assumptions"])
    trusted = sorted({t for u in units for t in u["trusted"]})
    fns = sorted({f["fn"] + " (" + f.get("file", "") + ")" for u in units for f in u["fns"] if not u["lost"] or f})
    level = cfg["level"]
    cov = {}
    if units or kani:
        cov.update({
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join([u["cmd"] for u in units] + ([kani["cmd"]] if kani else [])) ,
            "trusted_base": trusted + props.TRUSTED_ALWAYS + (kani_run.TRUSTED if kani else []),
            "functions_under_contract": fns,
            "units": [{k: u.get(k) for k in ("unit", "verified", "errors", "smt_ms", "wall_s", "vacuity_checked", "rules_applied")} for u in units],
            "backend": "Verus (Z3) on functions extracted from /repo/src on this run" + ("; Kani (CBMC) on the compiled crate" if kani else ""),
            "contracts_called_and_proved_in": deps,
            "lost_anchors": [f"{u['unit']}: {n}: {w}" for u in units for n, w in u["lost"]],
            "undecided": undecided,
        })
        if kani: cov["kani"] = [{k: h[k] for k in ("name", "status", "wall_s", "kind")} for h in kani["harnesses"]]
    if e:
        b = {"evaluations": e["evaluations"], "distinct_nontrivial": e["distinct"],
             "rule": cfg["rule"], "tallies": e["tallies"], "wall_s": e["wall_s"],
             "samples": e.get("samples") or cfg["samples"]}
        if level == "exploration" or not (units or kani): cov.update(b)
        else:
            cov["bounded_stand_in"] = dict(b, label="bounded: generated inputs, never counted as proved", scale=scale)
            cov["evaluations"] = e["evaluations"]; cov["distinct_nontrivial"] = e["distinct"]; cov["rule"] = b["rule"]; cov["samples"] = b.pop("samples"); b.pop("rule")
    else:
        assumptions.append("the replay crate did not build on this tree; only the proofs were checked: " + blog[-600:])
    if level == "other": cov["explanation"] = cfg["explanation"]
    viol = bool(new) or bool(failed)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new) + (len(failed) if not new else 0)}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)

    for k, v in seen: print(f"KNOWN-FINDING: property={prop} {k['text']}")
    for u in undecided: print("undecided:", u[:300])
    if binary is None: print("replay crate did not build:", blog[-2000:])
    if viol:
        rp = os.path.join(ev_dir, f"{prop}.replay.json")
        body = {"property": prop, "failed_obligations": [{k: f.get(k) for k in ("unit", "fn", "msg", "text")} for f in failed],
                "failing_inputs": new, "reproduce": f"{binary} {prop} --only <case>" if new else None,
                "verifier_output": {u["unit"]: u["stderr"][-6000:] for u in units if u["errors"]}}
        json.dump(body, open(rp, "w"), indent=1)
        for f in failed: print(f"failed obligation: {f['fn']}: {f['msg']}")
        for v in new[:3]: print(f"failing input: {v['case']} [{v['key']}] {v['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if new else " no-failing-input-found"))
        sys.exit(1)
    if binary is None and not units: sys.exit(2)
    print(f"{prop}: held; obligations {discharged}/{obligations} discharged" + (f", {e['evaluations']} bounded evaluations" if e else ""))
    sys.exit(0)

if __name__ == "__main__": main()
