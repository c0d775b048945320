"""Bounded cross-check of the contracts: the same harness text, executed by CPython
(the interpreter that runs the product) on pools of values and on random inputs, plus the
contracts marked bounded_only (whole-program oracles).  Every failing input is a replayable
violation.  Also replays counter-models of the prover.  No solver import here."""
import sys, os, json, time, random, itertools, pickle, traceback, signal, importlib, hashlib, io, contextlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
for p in (REPO, VERIF):
    if p not in sys.path: sys.path.insert(0, p)
os.environ.setdefault("TZ", "UTC")
time.tzset()
from pyvc import api

class CaseTimeout(BaseException): pass
def _alarm(*a): raise CaseTimeout()

def run_case(c, args, limit=20):
    """None when the contract holds (or its precondition excludes the input), else a description"""
    args = [pickle.loads(pickle.dumps(a)) if c.copy_args else a for a in args]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            c.fn(*args)
        return None, True
    except api.AssumeFailed: return None, False
    except AssertionError as e:
        return "obligation %r does not hold" % (str(e) or assertion_text(e)), True
    except CaseTimeout: return "the code under contract does not finish within %d s" % limit, True
    except RecursionError as e: return "unexpected RecursionError", True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return "unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:200], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])), True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def assertion_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    return tb[-1].line or "line %d" % tb[-1].lineno

def cases(c, rng, max_pool):
    specs = list(c.args.values())
    pools = [s.pool() for s in specs]
    if all(pools) or not specs:
        total = 1
        for p in pools: total *= len(p)
        if total <= max_pool:
            for t in itertools.product(*pools): yield "pool", list(t)
        else:
            for _ in range(max_pool): yield "pool", [rng.choice(p) for p in pools]
    if not specs: return
    while True:
        yield "random", [rng.choice(p) if p and rng.random() < 0.3 else s.gen(rng) for s, p in zip(specs, pools)]

def known_match(c, args, msg):
    return c.known(args, msg) if c.known else None

def constants(targets):
    """string and integer constants in the target functions (current source), their file's when the function is gone"""
    import ast
    words, ints = set(), set()
    for t in targets:
        f, _, q = t.partition(":")
        try: tree = ast.parse(open(os.path.join(REPO, f)).read())
        except Exception: continue
        last = q.split(".")[-1].split(" ")[0]
        nodes = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == last] or [tree]
        for root in nodes:
            for n in ast.walk(root):
                if not isinstance(n, ast.Constant): continue
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 12 and "\n" not in v: words.add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and abs(v) <= 10 ** 6: ints.add(v)
    return sorted(words)[:200], sorted(ints)[:100]

def explore(a):
    prop, name, seed, budget, tier, shard, shards = a if len(a) == 7 else a + (0, 1)
    load(prop)
    c = [x for x in api.CONTRACTS if x.prop == prop and x.name == name][0]
    api.DICT["str"], api.DICT["int"] = constants(c.targets)
    rng = random.Random("%s/%s/%s" % (seed, prop, name) + ("/%d" % shard if shard else ""))
    t0 = time.time()
    res = {"contract": name, "cases": 0, "pool": 0, "random": 0, "relevant": 0, "failures": [], "known": [], "samples": [], "distinct": 0, "bounded_only": c.bounded_only}
    seen = set()
    max_pool = 4000 if tier == "quick" else 60000
    max_random = (c.cases or 1500) * (1 if tier == "quick" else 40) // shards
    try:
        for kind, args in cases(c, rng, max_pool):
            if kind == "pool" and shard: continue
            if kind == "random" and res["random"] >= max_random: break
            if time.time() - t0 > budget: break
            try: blob = pickle.dumps(args)
            except Exception as e: blob = repr(args).encode()
            msg, relevant = run_case(c, args)
            res["cases"] += 1; res[kind] += 1
            if relevant:
                res["relevant"] += 1
                h = hashlib.md5(blob).digest()
                if h not in seen: seen.add(h)
                if len(res["samples"]) < 2 and kind == "random": res["samples"].append(repr(args)[:300])
            if msg:
                k = known_match(c, args, msg)
                if k:
                    if k not in res["known"]: res["known"].append(k)
                    continue
                res["failures"].append({"contract": name, "msg": msg, "args": safe_repr(args), "pickle": blob.hex(), "origin": kind})
                if len(res["failures"]) >= 3: break
    except Exception as e:
        res["error"] = traceback.format_exc()[-1500:]
    res["distinct"] = len(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def safe_repr(x):
    try: return repr(x)[:2000]
    except Exception: return "<unprintable>"

def load(prop):
    import logging
    logging.disable(logging.CRITICAL)
    importlib.import_module("contracts." + prop)

def replay(prop, name, blob):
    load(prop)
    c = [x for x in api.CONTRACTS if x.prop == prop and x.name == name][0]
    if not c.concrete: return {"replayed": False, "msg": None}
    try: args = pickle.loads(bytes.fromhex(blob))
    except Exception as e: return {"replayed": False, "msg": None, "error": repr(e)}
    if isinstance(args, dict):
        if "__error__" in args or any(n not in args for n in c.args): return {"replayed": False, "msg": None}
        args = [args[n] for n in c.args]
    msg, rel = run_case(c, args)
    k = known_match(c, args, msg) if msg else None
    return {"replayed": True, "msg": msg, "args": safe_repr(args), "pickle": pickle.dumps(args).hex() if msg else None, "relevant": rel, "known": k}

def main():
    import multiprocessing as mp
    job = json.load(sys.stdin)
    if job["mode"] == "replay":
        out = []
        for r in job["items"]:
            try: out.append(replay(job["prop"], r["contract"], r["model"]))
            except Exception as e: out.append({"replayed": False, "msg": None, "error": traceback.format_exc()[-800:]})
        json.dump(out, sys.__stdout__); return
    load(job["prop"])
    cs = [c for c in api.CONTRACTS if c.prop == job["prop"] and c.concrete]
    shards = lambda c: 4 if c.bounded_only and (c.cases or 0) >= 1500 else 1      # whole statements: several processes, each with cases of its own
    tasks = [(job["prop"], c.name, job["seed"], job["budget"] * c.weight, job["tier"], i, shards(c)) for c in cs for i in range(shards(c))]
    tasks.sort(key=lambda t: (-t[6], -t[3]))
    with mp.get_context("fork").Pool(job.get("procs", 3)) as pool:
        parts = pool.map(explore, tasks, chunksize=1)
    out = {}
    for p in parts:
        o = out.setdefault(p["contract"], p)
        if o is p: continue
        for k in ("cases", "pool", "random", "relevant", "distinct"): o[k] += p[k]
        for k in ("failures", "samples"): o[k] += p[k]
        o["known"] += [k for k in p["known"] if k not in o["known"]]
        o["wall_s"] = max(o["wall_s"], p["wall_s"])
        if p.get("error"): o.setdefault("error", p["error"])
    out = list(out.values())
    json.dump(out, sys.__stdout__)

if __name__ == "__main__":
    main()
