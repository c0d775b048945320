from proofs.common import *
import json
from contracts import C08 as C, C09 as C9
from proofs import C08 as P8
from proofs.C08 import SetS, EMPTY, set_t, list_t, some_number, val_real, isnum, KINDSETS, py_equal, as_map, entry, same_at_K
ASSUMPTIONS = list(P8.ASSUMPTIONS) + ["&, | and ^ on integers are associative (Python integers)"]
L = lambda fr, *ns: [fr.locals[n] for n in ns]
def nb(eng, i): return eng.branch(i == 0)
def flag(eng): return eng.branch(eng.fresh("none", B))
NONE = z3.BoolVal
def isnone(x): return z3.BoolVal(x is None)

def loops(f1, f2, n1, n2, eq, fresh, joined, first_only_at_zero, modifies=True):
    """f1/f2: loop keys; invariant of the first loop: left and whole are the same state; of the second: whole is the join of left and right"""
    def inv1(eng, fr, st, i):
        a, b = L(fr, "left", "whole")
        r = [("both states empty together", z3.BoolVal((a is None) == (b is None)))]
        if a is not None and b is not None: r.append(("same state", eq(eng, a, b)))
        if first_only_at_zero: r.append(("empty only before the first row", isnone(a) == (i == 0)))
        return r
    def havoc1(eng, fr, st, i):
        none = nb(eng, i) if first_only_at_zero else flag(eng)
        if none: fr.locals["left"] = fr.locals["whole"] = None
        else:
            fr.locals["left"], fr.locals["whole"] = fresh(eng, fr), fresh(eng, fr)
    def inv2(eng, fr, st, i):
        eng.ghost["f"] = fr.locals["f"]
        a, r, w = left_of(fr), fr.locals["right"], fr.locals["whole"]
        o = [("empty exactly when both parts are", z3.BoolVal((w is None) == (a is None and r is None)))]
        if first_only_at_zero: o.append(("empty only before the first row", isnone(r) == (i == 0)))
        if w is not None: o.append(("the whole is the parts joined", joined(eng, a, r, w)))
        return o
    def havoc2(eng, fr, st, i):
        none = nb(eng, i) if first_only_at_zero else flag(eng)
        fr.locals["right"] = None if none else fresh(eng, fr)
        fr.locals["whole"] = None if none and left_of(fr) is None else fresh(eng, fr)
    m1 = lambda eng, fr, st: [x for x in L(fr, "left", "whole") if x is not None]
    m2 = lambda eng, fr, st: [x for x in L(fr, "right", "whole") if x is not None]
    return {(f1, n1): LoopSpec(inv1, havoc1, modifies=m1), (f2, n2): LoopSpec(inv2, havoc2, modifies=m2)}
def left_of(fr): return fr.locals["left"]
H = "contracts.C09:"
BATCH = (H + "first_batch", H + "second_batch", 0, 0)

def z0(x): return z3.IntVal(0) if x is None else zi(x)
def r0(x): return z3.RealVal(0) if x is None else val_real(x)
def count_fresh(eng, fr): return eng.sym("int", "n")
COUNT = loops(*BATCH, lambda eng, a, b: zi(a) == zi(b), count_fresh, lambda eng, a, r, w: zi(w) == z0(a) + z0(r), True)
SETS = loops(*BATCH, lambda eng, a, b: z3.And(set_t(a) == set_t(b), set_t(a) != EMPTY), lambda eng, fr: M.SSet(eng.fresh("s", SetS)), lambda eng, a, r, w: z3.And([set_t(w) == z3.SetUnion(set_t(a), set_t(r))] + [set_t(x) != EMPTY for x in (r, w) if x is not None]), False)
SUMS = loops(*BATCH, lambda eng, a, b: z3.And(isnum(a), isnum(b), val_real(a) == val_real(b)), lambda eng, fr: some_number(eng, "s"),
             lambda eng, a, r, w: z3.And([isnum(x) for x in (r, w) if x is not None] + [val_real(w) == r0(a) + r0(r)]), True)
def avg_fresh(eng, fr): return {"count_value": eng.sym("int", "cnt"), "sum_value": some_number(eng, "asum")}
def avg_ok(x): return z3.And(isnum(x["sum_value"]), zi(x["count_value"]) >= 1)
def cv(x): return z3.IntVal(0) if x is None else zi(x["count_value"])
def sv(x): return z3.RealVal(0) if x is None else val_real(x["sum_value"])
AVGS = loops(*BATCH, lambda eng, a, b: z3.And(avg_ok(a), avg_ok(b), cv(a) == cv(b), sv(a) == sv(b)), avg_fresh,
             lambda eng, a, r, w: z3.And([avg_ok(x) for x in (r, w) if x is not None] + [cv(w) == cv(a) + cv(r), sv(w) == sv(a) + sv(r)]), False)
LISTS = loops(*BATCH, lambda eng, a, b: z3.And(M.seq_term(a) == M.seq_term(b), z3.Length(M.seq_term(a)) >= 1), lambda eng, fr: M.SList(eng.fresh("l", M.ValSeq)),
              lambda eng, a, r, w: z3.And([M.seq_term(w) == z3.Concat(list_t(a), list_t(r))] + [z3.Length(M.seq_term(x)) >= 1 for x in (r, w) if x is not None]), False)

def order(eng, kind, x):
    """order key of a non-NULL value of a comparable kind, as a real"""
    if kind == "number": return val_real(x)
    if isinstance(x, SVal): x = unval({"text": "str"}.get(kind, kind), x.t)
    if kind == "text":
        k = eng.uf("str_order", S, R)
        return k(str_of(x))
    return z3.ToReal(x.t)
def ext(kind):
    def fresh(eng, fr):
        v = eng.sym("any", "x")
        eng.assume(z3.Or([is_kind(k, v.t) for k in KINDSETS[kind]]))
        return v
    def eq(eng, a, b): return py_equal(eng, a, b)
    def joined(eng, a, r, w):
        if a is None or r is None: return py_equal(eng, w, r if a is None else a)
        x, y = order(eng, kind, a), order(eng, kind, r)
        big = eng.ghost["f"] == "aggregate_max"
        return z3.And(z3.Implies(x == y, z3.And(py_equal(eng, w, a), py_equal(eng, w, r))), z3.Implies(x > y, py_equal(eng, w, a if big else r)), z3.Implies(x < y, py_equal(eng, w, r if big else a)))
    return loops(H + "extreme", H + "extreme", 0, 1, eq, fresh, joined, False)
OPS = {"and": "int_BitAnd", "or": "int_BitOr", "xor": "int_BitXor"}
def bit_joined(eng, a, r, w):
    f = eng.uf(OPS[eng.ghost["f"][len("group_bit_"):]], I, I, I)
    a, r, w = [None if v is None else eng.resolve(v) for v in (a, r, w)]
    if a is None or r is None: return zi(w) == zi(r if a is None else a)
    t, u = z3.simplify(zi(r)), zi(a)
    if z3.is_app(t) and t.decl().eq(f):      # one instance of associativity: left . (x . y)
        eng.axiom(("assoc", t.get_id()), lambda: f(f(u, t.arg(0)), t.arg(1)) == f(u, t))
    return zi(w) == f(u, t)
BITS = loops(H + "bit_batches", H + "bit_batches", 0, 1, lambda eng, a, b: zi(eng.resolve(a)) == zi(eng.resolve(b)), lambda eng, fr: eng.sym("int", "b"), bit_joined, False)
def obj_joined(eng, a, r, w):
    (hw, vw), (ha, va), (hr, vr) = entry(eng, w), entry(eng, a), entry(eng, r)
    return z3.And(hw == z3.Or(ha, hr), z3.Implies(hr, vw == vr), z3.Implies(z3.And(ha, z3.Not(hr)), vw == va))
OBJ = loops(H + "objects", H + "objects", 0, 1, same_at_K, lambda eng, fr: M.new_map(eng, "m", S), obj_joined, True)

CONTRACT_LOOPS = {"count": COUNT, "distinct": SETS, "sums": SUMS, "averages": AVGS, "lists": LISTS, "bits": BITS, "objects": OBJ}
CONTRACT_LOOPS.update({"extreme_" + k: ext(k) for k in KINDSETS})
SUMMARIES = dict(P8.SUMMARIES)
CONTRACT_SUMMARIES = {"objects": {json.dumps: P8.json_doc}}
SYMS = {"pairs": P8.pairs, "more_pairs": lambda eng, name: P8.pairs(eng, name)}
