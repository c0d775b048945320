from proofs.common import *
import json
from contracts import C08 as C
ASSUMPTIONS = ["json.dumps is a function of the document (uninterpreted)", "set(list(s)) == s and len(list(s)) == len(s) for Python sets"]
SetS = z3.ArraySort(Val, B)
def real(eng, v): return real_of(eng.resolve(v))
def plus(eng, a, k): return SFloat(z3.simplify(real(eng, a[0]) + real(eng, a[1])))
def ratio(eng, a, k): return SFloat(z3.simplify(real(eng, a[0]) / real(eng, a[1])))
def close(eng, a, k):
    x, y = eng.resolve(a[0]), eng.resolve(a[1])
    if M.pykind(x) not in M.NUM: return False
    return M.mkbool(real_of(x) == real_of(y))
def elements(eng, a, k):
    x = a[0]
    if isinstance(x, list) and not x: return M.SSet(z3.K(Val, z3.BoolVal(False)))
    if not isinstance(x, M.SList): raise Unsupported("elements of %r" % (x,))
    t = z3.simplify(x.t)
    if z3.is_app(t) and t.decl().name() == "list_of_set":
        card = eng.uf("card", SetS, I)
        eng.axiom(("los", t.get_id()), lambda: z3.Length(t) == card(t.arg(0)))
        return M.SSet(t.arg(0))
    raise Unsupported("elements of an arbitrary list")
EMPTY = z3.K(Val, z3.BoolVal(False))
def set_t(x): return EMPTY if x is None else M.set_term(x)
def list_t(x): return z3.Empty(M.ValSeq) if x is None else M.seq_term(x)
def some_number(eng, name):
    v = eng.sym("any", name)
    eng.assume(z3.Or([is_kind(k, v.t) for k in ("bool", "int", "float", "dec")]))
    return v
def val_real(v):
    """numeric value of a state that may be a Val term, without case distinction"""
    if isinstance(v, SVal):
        t = v.t
        return z3.If(Val.is_bool(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)), z3.If(Val.is_int(t), z3.ToReal(Val.i(t)), z3.If(Val.is_float(t), Val.f(t), Val.d(t))))
    return real_of(v)
def isnum(v): return z3.Or([is_kind(k, v.t) for k in ("bool", "int", "float", "dec")]) if isinstance(v, SVal) else z3.BoolVal(M.pykind(v) in M.NUM)

def count_inv(eng, fr, st, i):
    s, n = fr.locals["state"], fr.locals["n"]
    if s is None: return [("no state before the first value", i == 0), ("count", zi(n) == 0)]
    return [("count", zi(s) == zi(n))]
def count_havoc(eng, fr, st, i):
    fr.locals["n"] = eng.sym("int", "n")
    fr.locals["state"] = None if eng.branch(i == 0) else eng.sym("int", "state")

def distinct_inv(eng, fr, st, i):
    r = []
    for x in ("state", "uniq"):
        s = fr.locals[x]
        r.append((x + " holds the values seen", set_t(s) == set_t(fr.locals["seen"])))
        if s is not None: r.append((x + " is not empty", set_t(s) != EMPTY))
    return r
def distinct_havoc(eng, fr, st, i):
    for x in ("state", "uniq"): fr.locals[x] = None if eng.branch(eng.fresh("none", B)) else M.SSet(eng.fresh(x, SetS))
    fr.locals["seen"] = M.SSet(eng.fresh("seen", SetS))

def sum_inv(eng, fr, st, i):
    s, a, total, n = (fr.locals[x] for x in ("s", "a", "total", "n"))
    r = []
    t = z3.RealVal(0) if total is None else real_of(eng.resolve(total))
    r.append(("no numeric value yet", zi(n) == 0) if total is None else ("some numeric value", zi(n) >= 1))
    if s is None: r.append(("no sum before the first value", i == 0))
    else: r += [("sum is a number", isnum(s)), ("sum", val_real(s) == t)]
    if s is None: r.append(("nothing summed", z3.BoolVal(total is None)))
    if a is None: r.append(("nothing averaged", z3.BoolVal(total is None)))
    else: r += [("something averaged", z3.BoolVal(total is not None)), ("average's sum", z3.And(isnum(a["sum_value"]), val_real(a["sum_value"]) == t)), ("average's count", zi(a["count_value"]) == zi(n))]
    return r
def sum_havoc(eng, fr, st, i):
    fr.locals["n"] = eng.sym("int", "n")
    first = eng.branch(i == 0)
    none = first or eng.branch(eng.fresh("no_number", B))
    fr.locals["s"] = None if first else some_number(eng, "sum")
    fr.locals["total"] = None if none else eng.sym("float", "total")
    fr.locals["a"] = None if none else {"count_value": eng.sym("int", "cnt"), "sum_value": some_number(eng, "asum")}

KINDSETS = {"number": ("bool", "int", "float", "dec"), "text": ("str",), "datetime": ("datetime",), "date": ("date",), "time": ("time",)}
def py_equal(eng, a, b):
    """a == b for values of one comparable kind, without case distinction"""
    if a is None or b is None: return z3.BoolVal(a is None and b is None)
    return M.canon(a) == M.canon(b)
def ext_inv(eng, fr, st, i): return [("the extreme so far", py_equal(eng, fr.locals["state"], fr.locals["best"]))]
def ext_havoc(kind):
    def havoc(eng, fr, st, i):
        none = eng.branch(eng.fresh("none", B))
        for x in ("state", "best"):
            if none: fr.locals[x] = None
            else:
                v = fr.locals[x] = eng.sym("any", x)
                eng.assume(z3.Or([is_kind(k, v.t) for k in KINDSETS[kind]]))
    return havoc

def bits_inv(eng, fr, st, i):
    s, a = fr.locals["state"], fr.locals["acc"]
    if s is None or a is None: return [("both NULL", z3.BoolVal(s is None and a is None))]
    s, a = eng.resolve(s), eng.resolve(a)
    return [("state is an integer", z3.BoolVal(M.pykind(s) in ("bool", "int"))), ("fold", zi(s) == zi(a))]
def bits_havoc(eng, fr, st, i):
    none = eng.branch(eng.fresh("none", B))
    fr.locals["state"], fr.locals["acc"] = (None, None) if none else (eng.sym("int", "state"), eng.sym("int", "acc"))

def lists_inv(eng, fr, st, i):
    s, k = fr.locals["state"], fr.locals["kept"]
    if s is None: return [("nothing kept", list_t(k) == z3.Empty(M.ValSeq))]
    return [("kept values", M.seq_term(s) == list_t(k)), ("not empty", z3.Length(list_t(k)) >= 1)]
def lists_havoc(eng, fr, st, i):
    fr.locals["state"] = None if eng.branch(eng.fresh("none", B)) else M.SList(eng.fresh("state", M.ValSeq))
    fr.locals["kept"] = M.SList(eng.fresh("kept", M.ValSeq))

class Pair(M.LazyInstance):
    def __init__(self, k, v): self.k, self.v = k, v
def pairs(eng, name):
    n = eng.fresh("n", I); eng.assume(n >= 0)
    ks, vs = eng.fresh("keys", z3.ArraySort(I, Val)), eng.fresh("vals", z3.ArraySort(I, Val))
    def scalar(t):
        eng.axiom(("sc", t.get_id()), lambda: z3.Or([is_kind(k, t) for k in C.SC]))
        return SVal(t)
    eng.ghost["K"] = eng.fresh("K", S)
    return M.SSeq(n, lambda i: Pair(scalar(z3.simplify(z3.Select(ks, i))), scalar(z3.simplify(z3.Select(vs, i)))))
def pair(eng, a, k): return a[0].k if a[1] == 0 else a[0].v
def as_map(eng, d):
    if id(d) in eng.maps and not isinstance(d, Sym): d = eng.maps[id(d)]
    if isinstance(d, M.SMap): return d
    if d is None: return M.empty_map(S)
    m = M.empty_map(S)
    for k, v in d.items(): M.setitem(eng, m, k, v)
    return m
def entry(eng, d):
    m, K = as_map(eng, d), eng.ghost["K"]
    return z3.Select(m.has, K), z3.Select(m.val, K)
def same_at_K(eng, d, e):
    (h, v), (h2, v2) = entry(eng, d), entry(eng, e)
    return z3.And(h == h2, z3.Implies(h, v == v2))
def same_entry(eng, a, k): return M.mkbool(same_at_K(eng, a[0], a[1]))
def obj_inv(eng, fr, st, i):
    s = fr.locals["state"]
    return [("no state before the first pair", z3.BoolVal(s is not None) == (i > 0)), ("object at an arbitrary key", same_at_K(eng, s, fr.locals["doc"]))]
def obj_havoc(eng, fr, st, i):
    fr.locals["state"] = None if eng.branch(i == 0) else M.new_map(eng, "state", S)
    fr.locals["doc"] = M.new_map(eng, "doc", S)
def dumps(eng, a, k):
    """json.dumps of a document"""
    d = a[0]
    if isinstance(d, (list, M.SList)): return SStr(eng.uf("json_of_list", M.ValSeq, S)(M.seq_term(d)))
    return SStr(eng.fresh("json", S))
SUMMARIES = dict(NUMBER_SUMMARIES)
SUMMARIES.update({C.plus: plus, C.ratio: ratio, C.close: close, C.elements: elements, C.pair: pair, C.same_entry: same_entry, json.dumps: dumps})
class Json(M.LazyInstance):
    """JSON text of a document: equal when the documents agree at an arbitrary key"""
    def __init__(self, d): self.d = d
    def eq(self, eng, other):
        if not isinstance(other, Json): return False
        return M.mkbool(same_at_K(eng, self.d, other.d))
def json_doc(eng, a, k): return Json(a[0])
CONTRACT_SUMMARIES = {"object_of_pairs": {json.dumps: json_doc}}
SYMS = {"pairs": pairs}
def mod(*names): return lambda eng, fr, st: [fr.locals[n] for n in names if fr.locals[n] is not None]
H = "contracts.C08:"
LOOPS = {(H + "count", 0): LoopSpec(count_inv, count_havoc),
         (H + "distinct", 0): LoopSpec(distinct_inv, distinct_havoc, modifies=mod("state", "uniq", "seen")),
         (H + "sum_and_average", 0): LoopSpec(sum_inv, sum_havoc, modifies=mod("a")),
         (H + "bits", 0): LoopSpec(bits_inv, bits_havoc),
         (H + "lists", 0): LoopSpec(lists_inv, lists_havoc, modifies=mod("state", "kept")),
         (H + "object_of_pairs", 0): LoopSpec(obj_inv, obj_havoc, modifies=mod("state", "doc"))}
def ext_loops(kind): return {(H + "extreme", 0): LoopSpec(ext_inv, ext_havoc(kind))}
CONTRACT_LOOPS = {"extreme_" + k: ext_loops(k) for k in KINDSETS}
