#!/usr/bin/env python3
"""check.py C05 [--tier quick|thorough] [--only case]  |  check.py --replay FILE
Decides one property of /repo's current tree.  See DESIGN.md."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"
EXTRA = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def reexec():
    if os.environ.get("SYMFM_ENV") == "1":
        return
    env = dict(os.environ, SYMFM_ENV="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONPATH=EXTRA, PYTHONWARNINGS="ignore")
    import tempfile
    d = tempfile.mkdtemp(prefix="symfm-")
    env["MPLCONFIGDIR"] = d
    env["SYMFM_TMP"] = d
    import subprocess
    rc = 2
    try:
        p = subprocess.Popen([VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env=env)
        rc = p.wait()
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def known_findings():
    """Lines `finding: property=<id> case=<case> label=<label prefix> :: <text>`"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("::")
                d = dict(kv.split("=", 1) for kv in head.split())
                d["text"] = text.strip()
                out.append(d)
    return out


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        from symfm import replay
        d = json.load(open(args[1]))
        fm = replay.load()
        r = replay.run_one(fm, d["property"], d["case"], d["inputs"], 300, d.get("ties", False))
        print(json.dumps(r["fails"], indent=1))
        print("status:", r["status"])
        if r["fails"]:
            print("VIOLATION property=%s replay=%s" % (d["property"], args[1]))
            sys.exit(1)
        sys.exit(0)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from symfm import runner
    zyg = runner.start_zygote()
    try:
        rc = decide(prop, tier, only, seed, t0, zyg)
    finally:
        runner.stop_zygote(zyg)
    sys.exit(rc)


def decide(prop, tier, only, seed, t0, zyg):
    args = sys.argv[1:]
    from symfm import runner
    fm = runner.load_symbolic()
    from symfm.harness import cases_of
    import z3
    cases = [c for c in cases_of(prop, tier) if only is None or only in c.name]
    if not cases:
        print("no case for", prop)
        return 2
    budget = float(os.environ.get("SYMFM_BUDGET", 120 if tier == "quick" else 760))
    cfg = dict(fm=fm, replay_path=zyg[1], deadline=t0 + budget, slice=2.0 if tier == "quick" else 6.0,
               jobs=int(os.environ.get("SYMFM_JOBS", min(8, os.cpu_count() or 4))),
               mem_gb=6, branch_ms=3000 if tier == "quick" else 10000,
               assert_ms=15000 if tier == "quick" else 60000,
               validate=3 if tier == "quick" else 12,
               cvc5_every=0 if tier == "quick" else 25)
    known = cfg["known"] = [k for k in known_findings() if k["property"] == prop]
    total, agg = runner.explore(cases, cfg)
    # ---- evidence
    S = {}
    for T in total.values():
        for k, v in T["stats"].items():
            S[k] = S.get(k, 0) + v
    S["unexplored"] = S.get("unexplored", 0) + sum(T["rest"] for T in total.values())
    exhaustive = (S["unexplored"] == 0 and S["undecided"] == 0 and S["unencodable"] == 0
                  and S["concretised"] == 0 and S["limit_paths"] == 0 and not agg["errs"]
                  and not agg["violations"] and not agg["spurious"])
    new = agg["violations"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=S["paths"], transitions=S["forks"],
            traces_validated_against_impl=agg["validated"],
            samples=agg["samples"][:6] or [{"note": "no path model was validated in this run"}],
            exhaustive=exhaustive,
            explanation="states = feasible symbolic paths executed to the end; transitions = forks taken; "
                        "each path covers every real value satisfying its path condition",
            functions_encoded=sorted(agg["funcs"]),
            source_lines_executed=len(agg["lines"]),
            cases={c.name: dict(bounds=c.bounds, paths=total[c.id]["stats"]["paths"],
                                checks_decided=total[c.id]["stats"]["asserts"],
                                unexplored=total[c.id]["rest"], cpu_s=round(total[c.id]["wall"], 1),
                                labels=total[c.id]["labels"]) for c in cases},
            checks_total=S["asserts"], checks_by_solver=S["asserts_solver"],
            checks_by_normal_form=S["asserts_struct"],
            solver_queries=S["queries"], solver_s=round(S["solver_s"], 2), sat=S["sat"], unsat=S["unsat"],
            unknown=S["unknown"], undecided_checks=S["undecided"], infeasible_prefixes=S["infeasible"],
            unencodable_paths=S["unencodable"], concretised_paths=S["concretised"],
            below_rounding=S["rounding"], unexplored_prefixes=S["unexplored"], path_limits=S["limit_paths"],
            spurious_counterexamples=len(agg["spurious"]), encoding_mismatches=len(agg["mismatch"]),
            cvc5_crosschecked=S["cvc5_queries"], cvc5_disagree=S["cvc5_disagree"],
            replay_s=round(agg["replay_s"], 1), solver="z3 " + z3.get_version_string(),
            unencodable={k: dict(v, where=v["where"][-300:]) for k, v in list(agg["raised"].items())[:10]},
            notes=agg["notes"][:10]),
        assumptions=["exact real arithmetic in place of IEEE doubles (replays use doubles)",
                     "bounds of each case as listed under coverage.cases",
                     "library stand-ins honour the documented contracts (DESIGN.md, Stand-ins)"],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    # ---- report
    print("%s %s: %d paths, %d checks (%d by solver, %d by normal form), %d queries, %.1f s solver, "
          "%d validated on the real code, exhaustive=%s, wall %.1f s"
          % (prop, tier, S["paths"], S["asserts"], S["asserts_solver"], S["asserts_struct"],
             S["queries"], S["solver_s"], agg["validated"], exhaustive, time.time() - t0))
    if "-v" in args:
        for c in cases:
            T = total[c.id]
            print("  %-34s paths %5d infeas %4d checks %6d und %d unenc %d conc %d lim %d rest %d cpu %.1f solver %.1f"
                  % (c.name, T["stats"]["paths"], T["stats"]["infeasible"], T["stats"]["asserts"],
                     T["stats"]["undecided"], T["stats"]["unencodable"], T["stats"]["concretised"],
                     T["stats"]["limit_paths"], T["rest"], T["wall"], T["stats"]["solver_s"]))
    for k, v in list(agg["raised"].items())[:6]:
        print("  path(s) not encodable: %s x%d (real code fine on %d/%d)" % (k[:300], v["n"], v["real_ok"], v["replayed"]))
        if "-v" in args:
            print(v["where"])
    if agg["undecided"]:
        print("  undecided checks:", sorted(set(agg["undecided"]))[:8])
    for m in agg["mismatch"][:4]:
        print("  encoding mismatch:", json.dumps(m)[:600])
    for e in agg["errs"][:3]:
        print("  error:", e[-1500:])
    hits = {}
    for v in agg["known"]:
        for k in known:
            if k["case"] == v["case"] and any(str(f[0]).startswith(k["label"].replace("_", " ")) for f in v["real"]):
                hits.setdefault(k["text"], v)
    for text in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if new:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        for i, v in enumerate(new[:3]):
            path = os.path.join("evidence", "replay", "%s-%d.json" % (prop, i))
            with open(os.path.join(HERE, path), "w") as f:
                json.dump(dict(property=prop, case=v["case"], label=v["label"], inputs=v["inputs"],
                               real=v["real"], ties=v.get("ties", False)), f, indent=1, default=str)
            print("  %s: %s" % (v["case"], v["label"]))
            print("  inputs:", json.dumps(v["inputs"])[:600])
            print("  real code:", str(v["real"])[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if agg["spurious"]:
        for s in agg["spurious"][:4]:
            print("  counterexample did not reproduce on the real code: %s %s" % (s["case"], s["label"]))
            if "-v" in args:
                print("   ", json.dumps(s.get("info"), default=str)[:1200])
    bad = []
    empty = [c.name for c in cases if not total[c.id]["labels"] and total[c.id]["stats"]["unencodable"] == 0
             and not total[c.id]["rest"]]
    if empty:
        bad.append("cases that reached no check: %s" % empty)
    if not any(T["labels"] for T in total.values()):
        ok = sum(v["real_ok"] for v in agg["raised"].values())
        if ok and ok == sum(v["replayed"] for v in agg["raised"].values()):
            print("INCOMPLETE: nothing decided; the code uses operations outside the encoding "
                  "(it behaved on %d models of its paths)" % ok)
        else:
            bad.append("no check was decided")
    if agg["errs"]:
        bad.append("internal errors")
    if S["cvc5_disagree"]:
        bad.append("solvers disagree")
    if bad:
        print("ERROR:", "; ".join(bad))
        return 2
    return 0


if __name__ == "__main__":
    reexec()
    main()
