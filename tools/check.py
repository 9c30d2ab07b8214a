#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough — decide one property on /repo's current tree.

Builds the engine and the canister module, executes the property's harnesses symbolically, replays every
counterexample in node against the same module, and writes evidence/PROPERTY.json.
exit 0: held; 1: VIOLATION line; 2: no answer."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from table import HARNESSES, PROPS, BOUNDS, ASSUMPTIONS

TIER_SLOT = 90


def demangle(n):
    m = re.match(r"_ZN(.*?)E?$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r"\d+", s).group(0)
        s = s[len(k):]
        out.append(s[:int(k)])
        s = s[int(k):]
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("..", "::"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$BP$", "*")):
        r = r.replace(a, b)
    return r.lstrip("_")


def run_engine(wsx, module, harness, tags, secs, params):
    cmd = [wsx, module, harness, str(secs), str(os.cpu_count() or 4), "only=" + ",".join(tags)] + [f"{k}={v}" for k, v in params]
    p = subprocess.run(cmd, capture_output=True, text=True)
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {"problems": {f"engine failed ({p.returncode}): {p.stderr[-400:]}": 1}}


def replay(module, harness, tags, params, runs, path):
    job = {"harness": harness, "only": tags, "params": params, "runs": [{"draws": r} for r in runs]}
    with open(path, "w") as f:
        json.dump(job, f)
    p = subprocess.run(["node", f"{HERE}/replay.mjs", module, path], capture_output=True, text=True)
    out = []
    for line in p.stdout.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    out += [{"outcome": "error", "detail": p.stderr[-300:]}] * (len(runs) - len(out))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    tags, harnesses = PROPS[pid]
    if isinstance(harnesses, dict):
        harnesses = harnesses[tier]
    tags = list(tags)
    params = [[TIER_SLOT, 1]] if tier == "thorough" else []
    secs = 2000 if tier == "thorough" else 400
    bdir = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
    with cf.ThreadPoolExecutor(2) as ex:
        e, m = ex.submit(build.engine, bdir), ex.submit(build.module, bdir)
        try:
            (wsx, te), (module, tm) = e.result(), m.result()
        except RuntimeError as x:
            print(x)
            return 2
    evdir = f"{VERIF}/evidence"
    os.makedirs(f"{evdir}/replay", exist_ok=True)
    known = []
    kf = f"{VERIF}/known-findings.txt"
    if os.path.isfile(kf):
        for line in open(kf):
            g = re.match(r"finding: property=(\S+) match=(\S+)\s+(.*)", line)
            if g and g.group(1) == pid:
                known.append((g.group(2), g.group(3).strip()))
    results, trouble, confirmed, samples, validated, seen_known = [], [], [], [], 0, set()
    for h in harnesses:
        r = run_engine(wsx, module, h, tags, secs, params)
        r["harness"] = h
        results.append(r)
        viol = r.get("violations", [])
        for p, n in r.get("problems", {}).items():
            if not (viol and p.startswith("stopped after")):
                trouble.append(f"{h}: {p} (x{n})")
        if viol:
            rs = replay(module, h, tags, params, [v["draws"] for v in viol], f"{evdir}/replay/{pid}-{h}.tmp.json")
            for i, (v, o) in enumerate(zip(viol, rs)):
                if o["outcome"] != "violation":
                    trouble.append(f"{h}: counterexample of {v['id']} not confirmed by the module: {o}")
                elif o["id"].startswith("harness"):
                    trouble.append(f"{h}: {o['id']}: {o.get('detail')} {v['detail'][:300]}")
                else:
                    k = next((d for mt, d in known if mt in f"{h}:{v['id']}"), None)
                    if k is not None:
                        seen_known.add(k)
                        continue
                    path = f"{evdir}/replay/{pid}-{h}-{i}.json"
                    with open(path, "w") as f:
                        json.dump({"harness": h, "only": tags, "params": params, "runs": [{"draws": v["draws"]}], "property": pid, "assertion": o["id"], "detail": o.get("detail"), "where": v["detail"], "inputs": v["values"], "how": "node tools/replay.mjs MODULE THISFILE"}, f, indent=1)
                    confirmed.append((path, h, o["id"], o.get("detail", ""), v["values"]))
            os.unlink(f"{evdir}/replay/{pid}-{h}.tmp.json")
        if not viol:
            missing = [c for c in HARNESSES[h] if c not in r.get("covers", {})]
            if missing:
                trouble.append(f"{h}: never reached: {', '.join(missing)}")
            if not any(t in (k.split("/")[0] for k in r.get("check_ids", {})) for t in tags):
                trouble.append(f"{h}: no assertion of {tags} was reached")
            sm = r.get("samples", [])
            if sm:
                rs = replay(module, h, tags, params, [s["draws"] for s in sm], f"{evdir}/replay/{pid}-{h}.tmp.json")
                os.unlink(f"{evdir}/replay/{pid}-{h}.tmp.json")
                for s, o in zip(sm, rs):
                    if o["outcome"] == "ok" and sorted(o.get("covers", [])) == sorted(s["covers"]):
                        validated += 1
                        if len(samples) < 12:
                            samples.append({"harness": h, "inputs": s["draws"], "reached": s["covers"]})
                    elif o["outcome"] == "violation" and not o["id"].startswith("harness"):
                        trouble.append(f"{h}: the module fails {o['id']} where the engine saw no failure")
                    else:
                        trouble.append(f"{h}: a sampled path ran differently for real: {s['covers']} / {o}")
    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({demangle(f) for r in results for f in r.get("funcs", [])})
    own = [f for f in funcs if "cycles_ledger" in f or f.startswith(("harness::", "<harness"))]
    own = [f for f in own if "verif" not in f]
    cov = {
        "states": tot("paths") + tot("forks"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples,
        "paths": tot("paths"), "paths_ending_in_trap": tot("traps"), "assertions_evaluated": tot("checks"), "assertions_sent_to_solver": tot("checks_solved"),
        "solver_queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 2), "slowest_query_seconds": max([r.get("solver_max_s", 0) for r in results] or [0]),
        "harnesses": {r["harness"]: {k: r.get(k) for k in ("paths", "forks", "traps", "checks", "checks_solved", "queries", "solver_s", "wall_s", "covers", "check_ids", "trap_sites", "problems")} for r in results},
        "functions_encoded": len(funcs), "functions_encoded_of_the_ledger": own,
        "bounds": BOUNDS + ["per harness: see DESIGN.md"],
        "build_seconds": {"engine": round(te, 1), "module": round(tm, 1)},
        "exhaustive": not trouble,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    with open(f"{evdir}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"{pid} {tier}: {len(harnesses)} harnesses, {tot('paths')} paths, {tot('checks')} assertions, {tot('queries')} queries, solver {tot('solver_s'):.1f} s, {validated} paths replayed, {time.time() - t0:.1f} s")
    for path, h, i, d, vals in confirmed:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {h}: {i}: {d}; inputs {json.dumps(vals)[:600]}")
    if confirmed:
        return 1
    for t in trouble:
        print("NO ANSWER:", t)
    return 2 if trouble else 0


if __name__ == "__main__":
    sys.exit(main())
