"""Check of one property: discharge every obligation of its contracts from /repo's current
source, cross-check the same contracts in CPython, replay counter-models, write evidence.
exit 0: every obligation discharged and no failing input; exit 1: VIOLATION line(s)."""
import sys, os, json, time, subprocess, multiprocessing as mp, hashlib, pickle
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path: sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("TZ", "UTC")
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")

TRUSTED = ["pyvc: the symbolic executor and its models of Python operators and builtins (pyvc/engine.py, models.py, loops.py); cross-checked against CPython on every run",
           "z3 %s (and the cvc5 binary when z3 answers unknown)", "CPython 3.12 ast parser"]
ASSUMPTIONS = ["floats and Decimals are mathematical reals (no rounding, no nan/inf, no overflow); ints are unbounded as in Python",
               "operations on bytes/container/other objects (U_*, R_* functions) are deterministic and have no side effect",
               "text conversions int(str), float(str), Decimal(str), str(x), upper/lower/strip and the regular expression engine are uninterpreted functions of their arguments",
               "logging calls neither raise nor change program state", "no monkey patching of the verified modules, no concurrent mutation, no MemoryError/KeyboardInterrupt/recursion limit"]

def bounded(job):
    p = subprocess.run([PYTHON, "-B", os.path.join(VERIF, "pyvc", "bounded.py")], input=json.dumps(job), capture_output=True, text=True,
                       env={**os.environ, "PYTHONHASHSEED": "0"}, cwd="/tmp")
    if p.returncode != 0: raise RuntimeError("bounded cross-check died: " + p.stderr[-2000:])
    return json.loads(p.stdout)

def start_bounded(job):
    p = subprocess.Popen([PYTHON, "-B", os.path.join(VERIF, "pyvc", "bounded.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         env={**os.environ, "PYTHONHASHSEED": "0"}, cwd="/tmp")
    p.stdin.write(json.dumps(job)); p.stdin.close(); p.stdin = None
    return p

def known_findings(prop):
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        line = line.strip()
        if line.startswith("KNOWN-FINDING:") and ("property=%s " % prop) in line:
            body = line.split("property=%s " % prop, 1)[1]
            key = body.split(" ", 1)[0]
            out[key] = line
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in meta["checks"] if c["property"] == prop), "proof")
    budget = 240 if tier == "quick" else 2400
    bjob = {"mode": "explore", "prop": prop, "seed": seed, "budget": 30 if tier == "quick" else 240, "tier": tier, "procs": 6}
    bp = start_bounded(bjob)
    violations, undecided = [], []
    proofs, loaderr = [], None
    try:
        from pyvc import prove
        cs, pm = prove.load(prop)
    except BaseException as e:
        import traceback
        cs, loaderr = [], traceback.format_exc()[-1500:]
    todo = [t for c in cs if not c.bounded_only for t in prove.tasks(c, budget)] if not loaderr else []
    bynames = {c.name: c for c in cs}
    todo.sort(key=lambda t: -bynames[t[1]].weight)
    if todo:
        with mp.get_context("fork").Pool(min(8, len(todo))) as pool:
            proofs = pool.map(prove.work, todo, chunksize=1)
    out, err = bp.communicate()
    if bp.returncode != 0:
        brs = []; undecided.append(("bounded cross-check", "died: " + err[-1500:]))
    else: brs = json.loads(out)
    if loaderr: undecided.append(("contracts", "cannot load the code under contract: " + loaderr))
    if not todo and not brs and not loaderr: undecided.append(("contracts", "no contract"))
    # failing inputs of the cross-check
    known = known_findings(prop)
    seen_known = set()
    for b in brs:
        if b.get("error"): undecided.append((b["contract"], "cross-check error " + b["error"]))
        for k in b["known"]: seen_known.add(k)
        for f in b["failures"][:1]: violations.append({"obligation": f["contract"] + ": " + f["msg"], "contract": f["contract"], "input": f["args"], "pickle": f["pickle"], "found_by": "CPython cross-check (%s)" % f["origin"]})
        if not b["failures"] and b["relevant"] == 0 and not b.get("error"): undecided.append((b["contract"], "vacuous: no input satisfies the precondition in the cross-check"))
    # failed obligations: replay the counter-models
    items = []
    for r in proofs:
        if r["error"]: undecided.append((r["contract"], r["error"]))
        for o in r["obligations"]:
            if o["status"] != "discharged": items.append((r, o))
    reps = []
    if items:
        send = [{"contract": r["contract"], "model": o["model"]} for r, o in items if o.get("model")][:200]
        try: reps = bounded({"mode": "replay", "prop": prop, "items": send})
        except Exception as e: reps = [{"replayed": False, "msg": None, "error": str(e)} for _ in send]
        it = iter(reps)
        n = 0
        failed_names = {}
        for r, o in items:
            rep = None
            if o.get("model"):
                n += 1
                rep = next(it) if n <= 200 else None
            if rep and rep["replayed"] and rep["msg"]:
                if rep.get("known"): seen_known.add(rep["known"]); continue
                if not any(v["contract"] == r["contract"] and v.get("input") for v in violations):
                    violations.append({"obligation": "%s: %s" % (r["contract"], o["name"]), "contract": r["contract"], "input": rep["args"], "pickle": rep["pickle"],
                                       "found_by": "counter-model of the verifier, replayed: " + rep["msg"]})
            else:
                key = (r["contract"], o["name"])
                if key not in failed_names: failed_names[key] = o
        for (cn, on), o in failed_names.items():
            undecided.append((cn, "obligation %r %s; verifier says: %s" % (on, o["status"], o.get("detail", "")[:800])))
    for k in list(seen_known):
        if k not in known:
            undecided.append(("known-findings", "finding %s is not listed" % k)); seen_known.discard(k)
    # report
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"): os.unlink(os.path.join(rdir, old))
    lines = []
    for i, v in enumerate(violations):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump({"property": prop, **v, "how": "%s -B %s/tools/replay.py %s" % (PYTHON, VERIF, p)}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("# %s  input=%s" % (v["obligation"], v["input"][:300]))
    covered_by_input = {v["contract"] for v in violations}
    rest = [(c, m) for c, m in undecided if c not in covered_by_input]
    if rest and not violations:
        p = os.path.join(rdir, "%s-obligations.json" % prop)
        json.dump({"property": prop, "undischarged": [{"contract": c, "obligation": m} for c, m in rest]}, open(p, "w"), indent=1)
        for c, m in rest[:12]: print("# not discharged: %s: %s" % (c, m[:600]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    elif rest:
        for c, m in rest[:12]: print("# also not discharged: %s: %s" % (c, m[:300]))
    for k in sorted(seen_known): print(known[k])
    obl = sum(len(r["obligations"]) for r in proofs)
    dis = sum(1 for r in proofs for o in r["obligations"] if o["status"] == "discharged")
    bycvc5 = sum(1 for r in proofs for o in r["obligations"] if o.get("by") == "cvc5")
    try:
        import z3; zv = z3.get_version_string()
    except Exception: zv = "?"
    pm_assume = []
    try:
        import importlib
        pm2 = importlib.import_module("contracts." + prop)
        pm_assume = list(getattr(pm2, "ASSUMPTIONS", []))
        if pm is not None: pm_assume += list(getattr(pm, "ASSUMPTIONS", []))
    except BaseException: pass
    cov = {"obligations": obl, "discharged": dis, "checker_cmd": "python3-vt pyvc/prove.py " + prop,
           "trusted_base": [t % zv if "%s" in t else t for t in TRUSTED],
           "functions_under_contract": sorted({f for r in proofs for f in r["functions"] if not f.startswith(("contracts.", "pyvc."))}),
           "contract_targets": sorted({t for c in cs for t in c.targets}),
           "back_end": {"z3": dis - bycvc5, "cvc5": bycvc5},
           "solver_s": round(sum(r["solver_s"] for r in proofs), 2), "solver_calls": sum(r["solver_calls"] for r in proofs), "paths": sum(r["paths"] for r in proofs),
           "contracts_proved": [{"contract": r["contract"] + (" " + r["case"] if r.get("case") else ""), "obligations": len(r["obligations"]), "discharged": sum(1 for o in r["obligations"] if o["status"] == "discharged"), "named": sorted({o["name"] for o in r["obligations"]})[:40], "paths": r["paths"], "wall_s": r["wall_s"]} for r in proofs],
           "undischarged": [{"contract": c, "obligation": m[:300]} for c, m in undecided],
           "bounded_not_proved": [{"contract": c.name, "bound": c.bound or c.note} for c in cs if c.bounded_only],
           "evaluations": sum(b["cases"] for b in brs), "distinct_nontrivial": sum(b["distinct"] for b in brs),
           "rule": "CPython cross-check: argument pools (product, capped) then random values seeded by VERIF_SEED; non-trivial = satisfies the contract's precondition; distinct by pickled arguments",
           "samples": [{"contract": b["contract"], "args": s} for b in brs for s in b["samples"][:1]][:12],
           "cross_check": [{"contract": b["contract"], "cases": b["cases"], "relevant": b["relevant"], "distinct": b["distinct"]} for b in brs]}
    if level == "other": cov["explanation"] = "bounded checks only"
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + pm_assume, "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines: print(l)
    print("%s: %d/%d obligations discharged over %d contracts (%d paths, solver %.1f s), %d cross-check cases, %d violation(s), %.1f s" % (
        prop, dis, obl, len(proofs), cov["paths"], cov["solver_s"], cov["evaluations"], len(lines), time.time() - t0))
    sys.exit(1 if lines else 0)

if __name__ == "__main__":
    main()
