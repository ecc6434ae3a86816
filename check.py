#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree.

1. extract the real functions named in contracts/<unit>.rs from /repo and attach their contracts
2. Verus discharges every obligation of every unit; a second run with assert(false) planted at the
   head of every extracted body must fail in every one of them (no contradictory precondition)
3. the driver runs the real crate against executable oracles (bounded; finds failing inputs)
Exit 0 / exit 1 + VIOLATION line; other exits mean the check itself could not run.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO = os.environ.get("JUNO_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()

VC = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero", "invariant not satisfied",
    "decreases not satisfied", "could not prove termination", "possible bit shift", "unreachable",
    "constructed value may fail to meet its declared type invariant", "assertion not satisfied",
    "split precondition failure", "split assertion failure", "split postcondition failure", "requires not satisfied",
    "cannot show", "failed precondition", "unable to prove", "may fail to meet", "recommendation not met but",
]


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
    e.setdefault("HOME", "/root")
    e.pop("RUSTC_WRAPPER", None)
    return e


def build_extract():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    d = os.path.join(HERE, "extract")
    e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("extractor does not build:\n" + p.stderr[-3000:])
    return os.path.join(d, "target/debug/extract")


def build_driver():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "1.79.0"
    d = os.path.join(HERE, "driver")
    e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e, capture_output=True, text=True)
    if p.returncode:
        log("driver does not build against /repo:\n" + p.stderr[-3000:])
        return None
    return os.path.join(d, "target/debug/driver")


def run_verus(path, extra):
    cmd = ["verus", path, "--output-json", "--error-format=json", "--multiple-errors", "4", "--time", *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), env=env(), capture_output=True, text=True, timeout=500)
    except subprocess.TimeoutExpired:
        return {"errors": [{"level": "error", "message": "verifier timeout", "spans": []}], "verified": 0, "failed": 0, "ms": 500000, "smt_ms": 0, "cmd": " ".join(cmd)}
    errs = []
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            if l.strip():
                errs.append({"level": "raw", "message": l, "spans": [], "rendered": l})
            continue
        if m.get("level") == "error" and not m.get("message", "").startswith("aborting due to"):
            errs.append(m)
    res, smt = {}, 0
    try:
        o = json.loads(p.stdout)
        res = o.get("verification-results", {})
        smt = o.get("times-ms", {}).get("smt", {}).get("total", 0)
    except ValueError:
        pass
    return {"errors": [x for x in errs if x["level"] == "error"], "verified": res.get("verified", 0), "failed": res.get("errors", 0),
            "success": res.get("success", False) and p.returncode == 0, "smt_ms": smt, "ms": int(1000 * (time.time() - t)), "cmd": " ".join(cmd)}


def is_vc(m):
    return any(k in m["message"] for k in VC)


def where(m, items, text):
    """name of the extracted function (or lemma) a diagnostic is in, and the clause"""
    spans = m.get("spans", [])
    prim = [s for s in spans if s.get("is_primary")] or spans
    out = []
    for s in prim + spans:
        for it in items:
            if it["first_line"] <= s["line_start"] <= it["last_line"]:
                out.append(f"{it['file']} {it['name']}")
                break
        if out:
            break
    if not out and prim:
        ln = prim[0]["line_start"]
        for i in range(ln, 0, -1):
            g = re.search(r"\bfn (\w+)", text[i - 1])
            if g:
                out.append("lemma/spec " + g.group(1))
                break
    clause = ""
    for s in spans:
        if s.get("label") and ("failed" in s["label"]):
            clause = " ".join(x.strip() for x in text[s["line_start"] - 1: s["line_end"]])[:300]
    if not clause and prim:
        clause = text[prim[0]["line_start"] - 1].strip()[:300]
    return (out[0] if out else "?"), clause


def trusted_scan(text):
    out = []
    text = re.sub(r"/\*@DEP\*/#\[verifier::external_body\]", "", text)  # contracts discharged in another unit
    for m in re.finditer(r"#\[verifier::external_body\][^;{]*?\b(fn|struct) (\w+)", text):
        out.append(f"external_body {m.group(1)} {m.group(2)}")
    for m in re.finditer(r"\baxiom fn (\w+)", text):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", text):
        out.append("assume_specification " + m.group(1).strip())
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append("!! " + m.group(1))
    return sorted(set(out))


def expand(work):
    """the crate after macro expansion (the text of the derived Chromosome implementations); None if it does not build"""
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "1.79.0"
    e["RUSTC_BOOTSTRAP"] = "1"
    e["CARGO_TARGET_DIR"] = os.path.join(work, "expand")
    out = os.path.join(work, "expanded.rs")
    p = subprocess.run(["cargo", "rustc", "--offline", "-q", "-p", "juno", "--lib", "--profile", "check", "--", "-Zunpretty=expanded"],
                       cwd=REPO, env=e, capture_output=True, text=True)
    if p.returncode or not p.stdout.strip():
        log("macro expansion failed:\n" + p.stderr[-2000:])
        return None
    open(out, "w").write(p.stdout)
    return out


def run_unit(ex, unit, work):
    u = {"unit": unit, "status": "?", "problems": [], "failed": []}
    tpl = os.path.join(HERE, "contracts", unit + ".rs")
    rs, meta = os.path.join(work, unit + ".rs"), os.path.join(work, unit + ".json")
    p = subprocess.run([ex, tpl, REPO, rs, meta], capture_output=True, text=True)
    if p.returncode != 0:
        u["status"] = "undecided"
        u["problems"] = ["extraction: " + x for x in p.stderr.strip().splitlines()[-12:]]
        return u
    items = json.load(open(meta))["items"]
    u["functions"] = [f"{i['file']}:{i['src_line']} {i['name']}" + (f" (inlined: {', '.join(i['inlined'])})" if i["inlined"] else "")
                      for i in items if i["kind"] == "fn"]
    u["callee_contracts"] = [f"{i['file']} {i['name']}" for i in items if i["kind"] == "extern"]
    u["loops"] = sum(i.get("loops", 0) for i in items)
    text = open(rs).read()
    u["trusted"] = trusted_scan(text)
    if any(t.startswith("!!") for t in u["trusted"]):
        u["status"] = "undecided"
        u["problems"] = ["assume/admit in unit"]
        return u
    crs = os.path.join(work, unit + "_canary.rs")
    subprocess.run([ex, tpl, REPO, crs, os.path.join(work, unit + "_canary.json"), "--canary"], capture_output=True)
    with cf.ThreadPoolExecutor(2) as tp:
        a = tp.submit(run_verus, rs, ["--rlimit", "30"])
        b = tp.submit(run_verus, crs, ["--rlimit", "30"])
        v, c = a.result(), b.result()
    tl = text.splitlines()
    if not v["success"]:
        # the same obligations again with other solver seeds and more fuel, before anything is reported:
        # every obligation is a separate query, one accepted in any of the runs is discharged
        t0, runs = time.time(), [v]
        fns = lambda x: {where(m, items, tl)[0] for m in x["errors"]}
        for o in (["--rlimit", "120", "--smt-option", "smt.random_seed=11"], ["--rlimit", "60", "--smt-option", "smt.random_seed=23", "-V", "spinoff-all"],
                  ["--rlimit", "60", "--smt-option", "smt.random_seed=47"]):
            if len(fns(v)) > 12 or not v["verified"] or time.time() - t0 > 150:
                break
            v2 = run_verus(rs, o)
            u["retry"] = u.get("retry", 0) + 1
            runs.append(v2)
            if v2["success"]:
                v = v2
                break
            still = set.intersection(*[fns(x) for x in runs])
            if not v2["verified"]:
                break
            if not still and all(is_vc(m) for x in runs for m in x["errors"]):
                v = dict(v2, verified=v2["verified"] + v2["failed"], failed=0, errors=[], success=True)
                break
            keep = [m for m in v2["errors"] if where(m, items, tl)[0] in still]
            if keep and all(is_vc(m) for m in v2["errors"]):
                v = dict(v2, errors=keep, verified=v2["verified"] + len(fns(v2) - still), failed=max(1, v2["failed"] - len(fns(v2) - still)))
    u.update(verified=v["verified"], obligations=v["verified"] + v["failed"], smt_ms=v["smt_ms"], ms=v["ms"], cmd=v["cmd"])
    vcs = [m for m in v["errors"] if is_vc(m)]
    rest = [m for m in v["errors"] if not is_vc(m)]
    for m in vcs:
        w, cl = where(m, items, tl)
        u["failed"].append({"function": w, "obligation": m["message"], "clause": cl, "rendered": m.get("rendered", "")[:2500]})
    if v["success"] and v["verified"] > 0 and not v["errors"]:
        u["status"] = "proved"
    elif vcs and not [m for m in rest if "rlimit" not in m["message"]]:
        # a body that lost the anchor of a proof hint says nothing when it is not accepted
        lost = {f"{i['file']} {i['name']}": i["dropped"] for i in items if i.get("dropped")}
        sure = [f for f in u["failed"] if f["function"] not in lost]
        if sure:
            u["status"], u["failed"] = "failed", sure
        else:
            u["status"], u["problems"] = "undecided", [f"{f['function']}: {f['obligation']} (proof hints without an anchor: {', '.join(lost[f['function']])})" for f in u["failed"]]
            u["failed"] = []
    else:
        u["status"] = "undecided"
        u["problems"] = [m.get("rendered", m["message"])[:1500] for m in (rest or v["errors"])[:4]] or ["no obligations generated"]
    # canary: every extracted body must be reachable
    if u["status"] == "proved":
        cl = open(crs).read().splitlines()
        citems = json.load(open(os.path.join(work, unit + "_canary.json")))["items"]
        hit = set()
        for m in c["errors"]:
            for s in m.get("spans", []):
                for it in citems:
                    # refuted, or given up on after the full resource limit: not accepted either way
                    if it["first_line"] <= s["line_start"] <= it["last_line"] and \
                            ("assert(false)" in cl[s["line_start"] - 1] or "rlimit" in m["message"] or "Resource limit" in m["message"]):
                        hit.add((it["file"], it["name"], it["first_line"]))
        dead = [f"{i['file']} {i['name']}" for i in citems if i["kind"] == "fn" and not i.get("uncallable") and (i["file"], i["name"], i["first_line"]) not in hit]
        u["canary_reached"] = len(hit)
        if dead:
            u["status"] = "undecided"
            u["problems"] = ["vacuous: assert(false) at the head of " + ", ".join(dead) + " was not refuted"]
    return u


def load_known(pid):
    keys, fixed = {}, []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
            if l.startswith("fixed: property=" + pid + " "):
                fixed.append(l.strip())
    return keys, fixed


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    work = os.path.join(HERE, "work", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    known, _fixed = load_known(pid)
    with cf.ThreadPoolExecutor(8) as tp:
        fd = tp.submit(build_driver)
        fx = tp.submit(expand, work) if cfg.get("expand") else None
        ex = build_extract()
        if fx and fx.result():
            os.environ["EXPANDED"] = fx.result()
        fu = [tp.submit(run_unit, ex, u, work) for u in cfg["units"]]
        fdeps = [tp.submit(run_unit, ex, u, work) for u in cfg.get("deps", [])]
        drv = fd.result()
        budget = cfg.get("budget", 60) * (4 if TIER == "thorough" else 1)
        dcmd = [drv or "driver", cfg.get("driver", pid), "--seed", str(SEED), "--tier", TIER, "--budget", str(budget), "--known", ",".join(known)]
        try:
            if drv is None:
                raise FileNotFoundError
            p = subprocess.run(dcmd, capture_output=True, text=True, timeout=budget + 240)
            hang = False
        except subprocess.TimeoutExpired as te:
            hang, p = True, te
        except FileNotFoundError:
            hang, p = False, None
        units = [f.result() for f in fu]
        deps = [f.result() for f in fdeps]
    if p is None:
        # the public API changed under the driver: only the proof can speak
        d = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the driver did not build against this tree", "samples": [], "failure": None, "known": []}
    elif hang:
        d = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "-", "samples": [], "failure": {"index": -1, "case": "see driver", "message": "the driver did not terminate (a call into juno hangs)"}, "known": []}
    else:
        try:
            d = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            # e.g. stack overflow or abort inside the code under test
            d = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "-", "samples": [], "known": [],
                 "failure": {"index": -1, "case": "driver process", "message": f"driver died with {p.returncode}: {p.stderr[-500:]}"}}
    proved = all(u["status"] == "proved" for u in units) and units
    failed = [dict(f, unit=u["unit"]) for u in units if u["status"] == "failed" for f in u["failed"]]
    # callee contracts used here are discharged in other units: without them nothing is proved here
    for u in deps:
        if u["status"] != "proved":
            units.append({"unit": u["unit"], "status": "undecided", "failed": [], "problems": ["callee contracts not discharged: " + "; ".join(f["function"] + ": " + f["obligation"] for f in u["failed"]) + " ".join(u["problems"])]})
            proved = False
        else:
            units.append(u)
    undecided = [u for u in units if u["status"] == "undecided"]
    obligations = sum(u.get("obligations", 0) for u in units)
    verified = sum(u.get("verified", 0) for u in units)
    cov = {
        "obligations": obligations, "discharged": verified,
        "checker_cmd": "; ".join(u.get("cmd", "") for u in units),
        "trusted_base": sorted({t for u in units for t in u.get("trusted", [])}) + ["Verus 0.2026.09.13 and its Z3", "extract (rewrites listed in DESIGN.md)"],
        "functions_under_contract": [f for u in units for f in u.get("functions", [])],
        "callee_contracts_discharged_in_another_unit": sorted({f for u in units for f in u.get("callee_contracts", [])}),
        "loops_with_invariants": sum(u.get("loops", 0) for u in units),
        "reachability_canaries_refuted": sum(u.get("canary_reached", 0) for u in units),
        "solver": "z3 (via verus)", "solver_ms": sum(u.get("smt_ms", 0) for u in units), "verifier_ms": sum(u.get("ms", 0) for u in units),
        "unit_status": {u["unit"]: u["status"] for u in units},
        "undecided": {u["unit"]: u["problems"] for u in undecided},
        "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"],
        "rule": "bounded conformance run of the real crate: " + d["rule"], "samples": d["samples"],
        "explanation": cfg.get("explanation", ""),
    }
    viol = bool(failed or d["failure"])
    level = "proof" if proved and not viol else ("proof" if failed else "exploration")
    if not cfg["units"]:
        level = "exploration"
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(failed) + (1 if d["failure"] else 0)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, case in d.get("known", []):
        log(f"KNOWN-FINDING: property={pid} {known[k]} [{case}]")
    for u in units:
        log(f"[{pid}] unit {u['unit']}: {u['status']} ({u.get('verified', 0)}/{u.get('obligations', 0)} obligations, {u.get('ms', 0)} ms)")
        for x in u["problems"]:
            log("    undecided:", x.splitlines()[0] if x else x)
        for f in u["failed"]:
            log(f"    FAILED {f['function']}: {f['obligation']}: {f['clause']}")
    log(f"[{pid}] driver: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, failure: {json.dumps(d['failure'])}")
    if viol:
        rp = os.path.join(HERE, "replays", f"{pid}-{hashlib.sha1(json.dumps([failed, d['failure']]).encode()).hexdigest()[:10]}.json")
        rep = {"property": pid, "seed": SEED, "tier": TIER, "failed_obligations": failed, "failing_input": d["failure"],
               "replay_cmd": None if not d["failure"] else " ".join(dcmd + ["--only", str(d["failure"]["index"])])}
        json.dump(rep, open(rp, "w"), indent=1)
        log(f"VIOLATION property={pid} replay={rp}" + ("" if d["failure"] else " no-failing-input-found"))
        sys.exit(1)
    if not proved and cfg["units"]:
        log(f"[{pid}] NOT PROVED on this tree (undecided, see evidence); the bounded run found no violation")
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except RuntimeError as e:
        print("check error:", e, file=sys.stderr)
        sys.exit(2)
