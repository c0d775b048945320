from proofs.common import *
from contracts import C05 as C
from proofs import scopes as PS
from syncanysql.taskers.set import SetCommandTasker
ASSUMPTIONS = ["int() accepts an optional minus followed by decimal digits, float() accepts that followed by a point and decimal digits; neither accepts such a text with digits that are not decimal digits (superscripts) (Python)"]
def accepted(form, like, ok):
    def h(eng, a, k):
        r, f = eng.truth(eng.call(form, a)), eng.uf(ok, S, B)(str_of(eng.resolve(a[0])))
        if r: eng.assume(f)
        elif eng.truth(eng.call(like, a)): eng.assume(z3.Not(f))
        return r
    return h
SYMS = PS.SYMS
SUMMARIES = {**PS.SUMMARIES, C.is_int: accepted(C.int_form, C.int_like, "int_ok"), C.is_decimal: accepted(C.decimal_form, C.decimal_like, "float_ok")}
def setup(eng): eng.abstract_contains = True
def parsed(eng, a, k):
    """contract of SetCommandTasker.parse_value (set_literal): a function of the text"""
    t = str_of(eng.resolve(a[1]))
    if not eng.branch(eng.uf("set_known", S, B)(t)): eng.raise_(ValueError, "unknown value")
    return SVal(eng.uf("set_value", S, Val)(t))
CONTRACT_SUMMARIES = {"stored": {SetCommandTasker.parse_value: parsed}}
SETUP = {"argument_literal": setup, "set_literal": setup}
