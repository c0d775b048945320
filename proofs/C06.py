from proofs.common import *
from contracts import C06 as C
from syncanysql.calculaters.mysql_funcs import logical_funcs as L

def eq_summary(eng, args, kw):
    """contract of mysql_eq used by IN: NULL iff a side is NULL, else 1/0; may fail on opaque operands"""
    a, b = to_val(args[0]), to_val(args[1])
    null = z3.Or(Val.is_none(a), Val.is_none(b))
    if eng.branch(null): return None
    if eng.branch(eng.uf("EQ_fails", Val, Val, B)(a, b)): eng.raise_(ValueError, "not comparable")
    return 1 if eng.branch(eng.uf("EQ", Val, Val, B)(a, b)) else 0

def in_fold(eng, a, b):
    """meaning of IN: scan left to right; state 0 running, 1 found, 2 failed; and "a NULL was seen while running" """
    va = to_val(a)
    def step(i, s):
        v = to_val(b.get(i)); isn = Val.is_none(v)
        f, e = eng.uf("EQ_fails", Val, Val, B)(va, v), eng.uf("EQ", Val, Val, B)(va, v)
        run = s[0] == 0
        return [z3.If(run, z3.If(isn, 0, z3.If(f, 2, z3.If(e, 1, 0))), s[0]), z3.Or(s[1], z3.And(run, isn))]
    return Fold(eng, "in", [z3.IntVal(0), z3.BoolVal(False)], step, b.n, lambda s: s[0] != 0)

def ref_in(eng, args, kw):
    a, b = args
    if eng.truth(M.is_(eng, a, None)): return None
    st, nn = in_fold(eng, a, b).state(b.n)
    if eng.branch(st == 2): eng.raise_(ValueError)
    if eng.branch(st == 1): return 1
    return None if eng.branch(nn) else 0

def in_entry(eng, fr, st): st["f"] = in_fold(eng, fr.locals["a"], fr.locals["b"])
def in_inv(eng, fr, st, i):
    f = st["f"]; s, nn = f.state(i)
    f.at(i); f.stable(i + 1)
    return [("not decided before element i", s == 0), ("NULL seen flag", zb(eng, fr.locals["hs_none"]) == nn)]
def in_havoc(eng, fr, st, i): fr.locals["hs_none"] = eng.sym("bool", "hs_none")

def lead_fold(eng, x, isf):
    """leading number of a text: last digit position, position of the dot (-1), stopped"""
    def step(i, s):
        c = z3.SubString(x, i, 1)
        dig = z3.And(z3.StrToCode(c) >= 48, z3.StrToCode(c) <= 57)
        dot = z3.And(s[0] >= 0, isf, s[1] < 0, z3.StrToCode(c) == 46)
        return [z3.If(z3.And(z3.Not(s[2]), dig), i, s[0]), z3.If(z3.And(z3.Not(s[2]), z3.Not(dig), dot), i, s[1]),
                z3.Or(s[2], z3.And(z3.Not(dig), z3.Not(dot)))]
    return Fold(eng, "lead", [z3.IntVal(-1), z3.IntVal(-1), z3.BoolVal(False)], step, z3.Length(x), lambda s: s[2])
def ref_leading(eng, args, kw):
    x, isf = args
    t = str_of(x); f = zb(eng, isf)
    idx, dot, stop = lead_fold(eng, t, f).state(z3.Length(t))
    num = float if eng.branch(f) else int
    if eng.branch(idx < 0): return eng.call(num, [x])
    pre = SStr(z3.SubString(t, 0, idx + 1))
    return eng.call(float if eng.branch(dot >= 0) else int, [pre])
def pn_entry(eng, fr, st): st["f"] = lead_fold(eng, str_of(fr.locals["x"]), zb(eng, fr.locals["is_float"]))
def pn_inv(eng, fr, st, i):
    f = st["f"]; idx, dot, stop = f.state(i)
    f.at(i); f.stable(i + 1)
    return [("text read so far is a number prefix", z3.Not(stop)), ("last digit", zi(fr.locals["index"]) == idx), ("dot", zi(fr.locals["dot_index"]) == dot),
            ("range", z3.And(idx < i, dot < i, idx >= -1, dot >= -1, z3.Implies(dot >= 0, dot > 0)))]
def pn_havoc(eng, fr, st, i):
    fr.locals["index"] = eng.sym("int", "index"); fr.locals["dot_index"] = eng.sym("int", "dot_index")

SUMMARIES = dict(NUMBER_SUMMARIES)
CONTRACT_SUMMARIES = {"in_is_any_equal_else_null": {L.mysql_eq: eq_summary, C.ref_in: ref_in},
                      "parse_number_reads_leading_digits": {utils.parse_number: None, C.leading: ref_leading}}
LOOPS = {("syncanysql.calculaters.mysql_funcs.logical_funcs:mysql_in", 0): LoopSpec(in_inv, in_havoc, entry=in_entry),
         ("syncanysql.utils:parse_number", 0): LoopSpec(pn_inv, pn_havoc, entry=pn_entry)}
