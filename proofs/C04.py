from proofs.common import *
from contracts import C04 as C
import json, copy
from syncanysql import config as CF
ASSUMPTIONS = ["json.loads of a text is a function of the text or an error; of anything but text an error", "copy_config of a configuration equals it (a fresh structure)"]
# json.loads
def s_loads(eng, a, k):
    v = eng.resolve(a[0])
    if not isinstance(v, (str, SStr)): eng.raise_(TypeError, "the JSON object must be str")
    t = str_of(v)
    if not eng.branch(eng.uf("is_json", S, B)(t)): eng.raise_(ValueError, "no JSON")
    return SVal(eng.uf("json_value", S, Val)(t))
def map_obj(eng, name):
    d = {}
    eng.maps[id(d)] = M.new_map(eng, name)
    eng.ghost.setdefault("keep", []).append(d)
    return d
def contents(eng, v):
    if isinstance(v, dict) and id(v) in eng.maps: return eng.maps[id(v)]
    if isinstance(v, M.SMap): return v
    if isinstance(v, dict):
        m = M.empty_map()
        for k, x in v.items(): M.setitem(eng, m, k, x)
        return m
    return None
def equal(eng, p, q):
    """equality of dictionaries at an arbitrary name (only used in obligations)"""
    n = eng.fresh("any_name", S)
    return z3.And(z3.Select(p.has, n) == z3.Select(q.has, n), z3.Implies(z3.Select(p.has, n), z3.Select(p.val, n) == z3.Select(q.val, n)))
def s_same_map(eng, a, k): return M.mkbool(equal(eng, contents(eng, a[0]), contents(eng, a[1])))
def s_same_sections(eng, a, k):
    x, y = a
    if set(x) != set(y): return False
    cs = []
    for key in x:
        p, q = contents(eng, x[key]), contents(eng, y[key])
        if p is None or q is None:
            if x[key] is y[key]: continue
            return False
        cs.append(equal(eng, p, q))
    return M.mkbool(z3.And(cs)) if cs else True
class Untouched(M.LazyInstance): pass
def sections(eng, name):
    c = {"databases": Untouched(), "name": Untouched()}
    for k in C.RAW + C.PARSED:
        if k != eng.ghost.get("section") or eng.branch(eng.fresh("has_" + k, B)): c[k] = map_obj(eng, k)
    return c
def one_section(eng, name):
    s = eng.inputs[0][1]
    return {s: map_obj(eng, name)} if eng.branch(eng.fresh("has_" + name, B)) else {}
def flat(eng, name): return map_obj(eng, name)
SUMMARIES = {json.loads: s_loads, C.same_sections: s_same_sections, C.same_map: s_same_map}
SYMS = {"flat": flat, "sections": lambda eng, n: (eng.ghost.__setitem__("section", eng.inputs[0][1]), sections(eng, n))[1], "one_section": one_section}

def abstract(eng): eng.abstract_contains = eng.abstract_strings = True
SETUP = {"section_entry": abstract, "top_level_key": abstract}

# reading: configurations are opaque values, overlaying is merge_config's contract (an uninterpreted function)
class Cfg(M.LazyInstance):
    def __init__(self, t): self.t = t
def cfg(eng, c):
    if isinstance(c, Cfg): return c.t
    if isinstance(c, dict) and c == C.CoreTasker.DEFAULT_CONFIG: return z3.Const("default_config", I)
    raise Unsupported("configuration %r" % (c,))
def overlaid(eng, a, b): return Cfg(eng.uf("overlay", I, I, I)(cfg(eng, a), cfg(eng, b)))
def s_merge(eng, a, k):
    eng.setattr(a[0], "config", overlaid(eng, eng.getattr(a[0], "config"), a[1]))
def s_put(eng, a, k): return Cfg(eng.uf("put", I, I)(cfg(eng, a[0])))
def s_set(eng, a, k):
    """GlobalConfig.set by its contract: the own settings are put, the version grows"""
    eng.setattr(a[0], "config", s_put(eng, [eng.getattr(a[0], "config")], {}))
    eng.setattr(a[0], "version", M.binop(eng, "Add", eng.getattr(a[0], "version"), 1))
READING = {CF.GlobalConfig.merge_config: s_merge, C.overlay: lambda eng, a, k: overlaid(eng, a[0], a[1]), CF.copy_config: lambda eng, a, k: a[0], C.plain: lambda eng, a, k: a[0], CF.GlobalConfig.set: s_set, C.put: s_put,
    C.same_config: lambda eng, a, k: M.mkbool(cfg(eng, a[0]) == cfg(eng, a[1])), copy.deepcopy: lambda eng, a, k: copy.deepcopy(a[0])}
CONTRACT_SUMMARIES = {"reading": READING}
SYMS.update({"config": lambda eng, n: Cfg(eng.fresh(n, I)), "key": lambda eng, n: ("options", "a"), "set_value": lambda eng, n: "true"})
