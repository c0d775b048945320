"""writes MANIFEST.json from the table below (kept in step with properties.jsonl)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF_NOTE = ("Every path of the functions under contract is explored from the source re-read on each run; every named obligation is discharged by z3 (cvc5 as second opinion) "
              "for all arguments and all iterations. Assumes the Python semantics in pyvc/models.py, floats/Decimals as reals, uninterpreted text conversions and opaque container operations; "
              "the same contracts are also executed by CPython on pools and seeded random inputs (bounded, not counted as proof).")
import importlib.util
spec = importlib.util.spec_from_file_location("claims", os.path.join(V, "tools", "claims.py")); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
def contracts_of(p):
    """names of the proved contracts and of those only checked with a bound, read from contracts/<p>.py"""
    import ast
    proved, bounded = [], []
    for n in ast.parse(open(os.path.join(V, "contracts", p + ".py")).read()).body:
        for d in getattr(n, "decorator_list", []):
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract": (bounded if any(k.arg == "bounded_only" for k in d.keywords) else proved).append(n.name)
    return proved, bounded
checks = []
for p, note in m.CLAIMED.items():
    proved, bounded = contracts_of(p)
    note = ("Proved: %s." % ", ".join(proved) if proved else "") + (" Bounded stand-ins, checked on whole statements or values within the bounds stated in the evidence: %s." % ", ".join(bounded) if bounded else "")
    checks.append({"property": p, "quick_cmd": "python3-vt -B pyvc/check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3-vt -B pyvc/check.py %s" % p,
                   "technique": "contract-based deductive verification (symbolic execution + VCs to z3/cvc5) of the real Python functions",
                   "level": "proof" if proved else "exploration", "level_note": ((PROOF_NOTE + " ") if proved else "No function of this property is under a discharged contract; ") + note})
na = [{"property": p, "reason": m.NOT_APPLICABLE.get(p, "not built yet")} for p in ids if p not in m.CLAIMED]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
