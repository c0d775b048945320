"""Prover side of contracts/scopes.py: a scope is a mapping from arbitrary names to arbitrary values inside an
enclosing chain about which only the contract of reading it is known (structural induction over the chain)."""
from proofs.common import *
from contracts import scopes as SC
from syncanysql.executor import EnvVariables
ASSUMPTIONS = ["a chain of scopes is finite (parents are created before their children)"]
def scope(eng, name):
    o = EnvVariables()
    eng.maps[id(o)] = M.new_map(eng, name)
    eng.ghost.setdefault("keep", []).append(o)
    if eng.branch(eng.fresh(name + "_outermost", B)): o.parent = None
    else:
        p = EnvVariables()
        eng.maps[id(p)] = M.new_map(eng, name + "_outer")
        eng.ghost["keep"].append(p)
        eng.ghost.setdefault("chains", {})[id(p)] = name
        o.parent = p
    return o
def outer_lookup(eng, o, key):
    c = eng.ghost["chains"][id(o)]
    k = str_of(eng.resolve(key))
    return eng.branch(eng.uf("found_" + c, S, B)(k)), SVal(eng.uf("value_" + c, S, Val)(k))
def is_outer(eng, o): return id(o) in eng.ghost.get("chains", {})
def s_resolve(eng, a, k):
    if not is_outer(eng, a[0]): return NotImplemented
    f, v = outer_lookup(eng, a[0], a[1])
    return (True, v) if f else (False, None)
def s_get_value(eng, a, k):
    if not is_outer(eng, a[0]): return NotImplemented
    f, v = outer_lookup(eng, a[0], a[1])
    if not f: eng.raise_(KeyError, "unknown")
    return v
def s_get(eng, a, k):
    if not is_outer(eng, a[0]): return NotImplemented
    f, v = outer_lookup(eng, a[0], a[1])
    return v if f else (a[2] if len(a) > 2 else k.get("default"))
def contents(eng, o):
    m = eng.maps.get(id(o))
    if m is None: m = M.empty_map()
    if id(o) not in eng.maps:
        for k, v in dict.items(o): M.setitem(eng, m, k, v)
    return (o, m.has, m.val)
def s_snapshot(eng, a, k):
    out, o = [], a[0]
    while o is not None: out.append(contents(eng, o)); o = o.parent
    return out
def equal_contents(x, y): return z3.And(x[1] == y[1], x[2] == y[2])
def s_unchanged(eng, a, k):
    before, now = a[0], s_snapshot(eng, [a[1]], {})
    if len(before) != len(now) or any(x[0] is not y[0] for x, y in zip(before, now)): return False
    return M.mkbool(z3.And([equal_contents(x, y) for x, y in zip(before, now)]))
def s_only_changed(eng, a, kw):
    before, now = a[0], s_snapshot(eng, [a[1]], {})
    if len(before) != len(now) or any(x[0] is not y[0] for x, y in zip(before, now)): return False
    key, v = str_of(eng.resolve(a[2])), to_val(a[3])
    return M.mkbool(z3.And([now[0][1] == z3.Store(before[0][1], key, z3.BoolVal(True)), now[0][2] == z3.Store(before[0][2], key, v)] + [equal_contents(x, y) for x, y in zip(before[1:], now[1:])]))
SUMMARIES = {SC.resolve: s_resolve, EnvVariables.get_value: s_get_value, EnvVariables.get: s_get, SC.snapshot: s_snapshot, SC.unchanged: s_unchanged, SC.only_changed: s_only_changed}
SYMS = {"scope": scope}
