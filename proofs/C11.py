"""Prover side of C11: texts are z3 strings; the text of any other value is left uninterpreted (contract as_text proves what it is)."""
from proofs.common import *
from contracts import C11 as C, common as CC
from syncanysql import utils
def as_text(eng, a, k):
    x = eng.resolve(a[0]) if isinstance(a[0], SVal) and eng.entailed(is_kind("str", a[0].t)) else a[0]
    if x is None: eng.raise_(ValueError, "value is None")
    if isinstance(x, (str, SStr)): return x
    v = to_val(x)
    if eng.branch(v == Val.none): eng.raise_(ValueError, "value is None")
    t = eng.uf("text_of", Val, S)(v)
    eng.axiom(("text", t.get_id()), lambda: z3.Implies(is_kind("str", v), t == Val.s(v)))
    return SStr(t)
TEXT = {utils.ensure_str: as_text, C.text: as_text}
SYMS = {"int": lambda eng, name: eng.sym("int", name)}
SUMMARIES = dict(TEXT)
def place(eng, a, k):
    if isinstance(a[0], (M.SSeq, M.SList)): return SInt(z3.simplify(M.first_equal(eng, a[0], a[1]) + 1))
    for i, x in enumerate(a[0]):
        if eng.branch(bool_of(M.py_eq(eng, x, a[1]))): return i + 1
    return 0
SUMMARIES[C.place] = place
SETUP = {"substring_index": lambda eng: setattr(eng, "abstract_strings", True)}
CONTRACT_SUMMARIES = {"as_text": {utils.ensure_str: None, C.text: None}}
