"""Discharges the obligations of one contract from the current source."""
import sys, os, time, traceback, importlib, json
REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
for p in (SITE, REPO, VERIF):
    if p not in sys.path: sys.path.insert(0, p)
os.environ.setdefault("TZ", "UTC")
time.tzset()
import z3
from pyvc import api, engine as E, models as M
from pyvc.values import *

def make_sym(eng, spec, name, syms):
    if isinstance(spec, api.Custom): return syms[spec.symname](eng, name)
    if isinstance(spec, api.Kind):
        v = eng.sym("any", name)
        if set(spec.kinds) != set(KINDS): eng.assume(z3.Or([is_kind(k, v.t) for k in spec.kinds]))
        for k in OBJ_KINDS: eng.solver.add(z3.Implies(is_kind(k, v.t), getattr(Val, "k" + k)(v.t) >= 0))
        return v
    if isinstance(spec, api.Int):
        v = eng.sym("int", name)
        if spec.lo is not None: eng.assume(v.t >= spec.lo)
        if spec.hi is not None: eng.assume(v.t <= spec.hi)
        return v
    if isinstance(spec, api.Bool): return eng.sym("bool", name)
    if isinstance(spec, api.Str): return eng.sym("str", name)
    if isinstance(spec, api.Real): return eng.sym("float", name)
    if isinstance(spec, api.Seq):
        n = eng.fresh(name + "_len", z3.IntSort()); eng.assume(n >= 0)
        arr = eng.fresh(name, z3.ArraySort(z3.IntSort(), Val))
        def get(i):
            v = SVal(z3.Select(arr, i))
            if set(spec.kinds) != set(KINDS): eng.assume(z3.Or([is_kind(k, v.t) for k in spec.kinds]))
            return v
        return M.SSeq(n, get, arr, z3.IntVal(0))
    if isinstance(spec, api.Choice):
        i = eng.fresh(name + "_choice", z3.IntSort())
        return spec.values[eng.choose([i == j for j in range(len(spec.values) - 1)] + [i >= len(spec.values) - 1] if len(spec.values) > 1 else [z3.BoolVal(True)])]
    raise Unsupported("argument spec %r" % spec)

def m_assume(eng, args, kw):
    eng.assume(bool_of(eng.truth_term(args[0])) if not isinstance(eng.truth_term(args[0]), bool) else z3.BoolVal(eng.truth_term(args[0])))
def m_assume(eng, args, kw):
    t = eng.truth_term(args[0])
    eng.assume(z3.BoolVal(t) if isinstance(t, bool) else t.t)
    if eng.in_new_territory() and eng.check() == z3.unsat: raise E.Infeasible()
def m_implies(eng, args, kw):
    a, b = eng.truth_term(args[0]), eng.truth_term(args[1])
    return M.disj([M.neg(a), b])
def m_cover(eng, args, kw):
    if eng.check() != z3.unsat: eng.covers.add(args[0])
def m_same(eng, args, kw): return M.same_term(eng, args[0], args[1])
M.FUNCS[api.assume] = m_assume
M.FUNCS[api.implies] = m_implies
M.FUNCS[api.cover] = m_cover
M.FUNCS[api.same] = m_same

def load(prop):
    import logging
    logging.disable(logging.CRITICAL)
    importlib.import_module("contracts." + prop)
    try: pm = importlib.import_module("proofs." + prop)
    except ModuleNotFoundError as e:
        if "proofs" not in str(e): raise
        pm = None
    return [c for c in api.CONTRACTS if c.prop == prop], pm

def prove_contract(c, pm, budget_s=300, max_paths=60000, fixed=None):
    t0 = time.time()
    from contracts import common
    summaries = dict(getattr(pm, "SUMMARIES", {}) or {}) if pm else {}
    cs = (getattr(pm, "CONTRACT_SUMMARIES", {}) or {}).get(c.name, {}) if pm else {}
    summaries.update(cs)
    summaries = {k: v for k, v in summaries.items() if v is not None}
    loops = dict(getattr(pm, "LOOPS", {}) or {}) if pm else {}
    loops.update((getattr(pm, "CONTRACT_LOOPS", {}) or {}).get(c.name, {}) if pm else {})
    syms = getattr(pm, "SYMS", {}) if pm else {}
    eng = E.Engine([REPO + "/", VERIF + "/contracts", VERIF + "/pyvc/api.py", SITE + "/syncany/"], summaries, loops,
                   deadline=t0 + budget_s, max_paths=max_paths)
    res = {"contract": c.name, "obligations": [], "error": None, "targets": c.targets}
    completed = [0]
    def run(eng):
        eng.harness = c
        setup = (getattr(pm, "SETUP", {}) or {}).get(c.name) if pm else None
        if setup: setup(eng)
        args = []
        for n, spec in c.args.items():
            v = make_sym(eng, spec, n, syms) if not fixed or n not in fixed else fixed[n]
            eng.inputs.append((n, v))
            args.append(v)
        body = (getattr(pm, "BODIES", {}) or {}).get(c.name) if pm else None
        try:
            if body: body(eng, args)
            else: eng.call(c.fn, args)
        except E.PyRaise as pr:
            eng.fail("no unexpected exception", "%s: %s" % (type(pr.exc).__name__, safe_repr(pr.exc)))
        if eng.check() != z3.unsat: completed[0] += 1
    try:
        eng.explore(run)
    except Unsupported as e:
        res["error"] = "unsupported: %s" % e
    except RecursionError as e:
        res["error"] = "unsupported: recursion limit"
    except z3.Z3Exception as e:
        res["error"] = "engine: z3 %s" % traceback.format_exc()[-600:]
    except Exception as e:
        res["error"] = "engine: %s" % traceback.format_exc()[-1500:]
    for o in eng.obligations:
        d = {"name": o.name, "status": o.status}
        if o.detail == "cvc5": d["by"] = "cvc5"
        if o.status != "discharged":
            d["detail"] = o.detail[:600]
            d["model"] = o.model
        res["obligations"].append(d)
    res["paths"] = eng.stats["paths"]; res["completed"] = completed[0]
    res["solver_calls"] = eng.stats["solver_calls"]; res["solver_s"] = round(eng.stats["solver_s"], 3)
    res["functions"] = sorted(f for f in eng.stats["functions"])
    res["covers"] = sorted(eng.covers)
    res["wall_s"] = round(time.time() - t0, 3)
    if res["error"] is None:
        if not res["obligations"]: res["error"] = "vacuous: no obligation generated"
        elif completed[0] == 0 and not any(o["status"] != "discharged" for o in res["obligations"]) and not any("preserved" in o["name"] for o in res["obligations"]):
            res["error"] = "vacuous: no path reaches the end of the contract"
        else:
            missing = [x for x in c.covers if x not in eng.covers]
            if missing and all(o["status"] == "discharged" for o in res["obligations"]): res["error"] = "vacuous: not reachable: %s" % missing
    return res

def tasks(c, budget):
    """one task per value of the split argument (a finite case distinction)"""
    if not c.split: return [(c.prop, c.name, budget, None)]
    return [(c.prop, c.name, budget, i) for i in range(len(c.args[c.split].values))]

def safe_repr(x):
    try: return repr(x)[:200]
    except Exception: return "<%s>" % type(x).__name__

def work(a):
    prop, name, budget, choice = a
    cs, pm = load(prop)
    c = [c for c in cs if c.name == name][0]
    r = prove_contract(c, pm, budget, fixed=None if choice is None else {c.split: c.args[c.split].values[choice]})
    if choice is not None: r["case"] = "%s=%r" % (c.split, c.args[c.split].values[choice])
    import pickle
    for o in r["obligations"]:
        if o.get("model") is not None:
            try: o["model"] = pickle.dumps(o["model"]).hex()
            except Exception: o["model"] = None
    return r

if __name__ == "__main__":
    import multiprocessing as mp
    prop = sys.argv[1]
    cs, pm = load(prop)
    cs = [c for c in cs if not c.bounded_only and (len(sys.argv) == 2 or c.name in sys.argv[2:])]
    todo = [t for c in cs for t in tasks(c, 600)]
    with mp.get_context("fork").Pool(8) as pool:
        for r in pool.imap(work, todo, chunksize=1):
            bad = [o for o in r["obligations"] if o["status"] != "discharged"]
            print("%-40s paths=%d done=%d vcs=%d bad=%d solver=%.1fs wall=%.1fs %s" % (r["contract"] + " " + r.get("case", ""), r["paths"], r["completed"], len(r["obligations"]), len(bad), r["solver_s"], r["wall_s"], r["error"] or ""))
            for b in bad[:int(os.environ.get("NBAD", "2"))]:
                import pickle
                m = b.get("model")
                try: m = pickle.loads(bytes.fromhex(m)) if m else None
                except Exception as e: m = "?"
                print("    ", b["status"], b["name"], m, b.get("detail", "")[:200])
