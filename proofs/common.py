"""Prover side of contracts/common.py: callee contracts (summaries) and folds."""
import z3
from pyvc.values import *
from pyvc import engine as E, models as M
from pyvc.loops import LoopSpec
from contracts import common as CC
from syncanysql import utils
S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()

def lead(eng, args, kw):
    """contract of parse_number / meaning of the spec function leading"""
    x = eng.resolve(args[0]); f = args[1] if len(args) > 1 else False
    f = z3.BoolVal(f) if isinstance(f, bool) else M.bool_of(eng.truth_term(f))
    if not eng.branch(eng.uf("lead_ok", S, B, B)(str_of(x), f)): eng.raise_(ValueError, "no leading number")
    v = eng.uf("lead_val", S, B, Val)(str_of(x), f)
    eng.axiom(("lead", v.get_id()), lambda: z3.And(z3.Or(is_kind("int", v), is_kind("float", v)), z3.Implies(z3.Not(f), is_kind("int", v))))
    return SVal(v)
NUMBER_SUMMARIES = {utils.parse_number: lead, CC.leading: lead}

class Fold:
    """specification fold over positions 0..n: state(0)=init, state(i+1)=step(i, state(i)).  The defining
    equation is instantiated at the positions a proof touches.  `stopped`: states the fold never leaves; that
    they are absorbing is discharged as a lemma (one induction step), then used between a position and n."""
    def __init__(self, eng, name, init, step, n, stopped=None):
        self.eng, self.name, self.step, self.n, self.stopped = eng, name, step, n, stopped
        self.fs = [eng.uf("%s_%d" % (name, k), I, t.sort()) for k, t in enumerate(init)]
        self.key = (name,)
        eng.axiom((name, "init"), lambda: z3.And([f(0) == t for f, t in zip(self.fs, init)]))
        if stopped is not None and (name, "lemma") not in eng.axiom_keys:
            eng.axiom_keys.add((name, "lemma"))
            k = eng.fresh("k", I); s = [eng.fresh("s", t.sort()) for t in init]
            nxt = step(k, s)
            eng.prove("lemma: %s is stable once decided (induction step)" % name, z3.Implies(z3.And(k >= 0, k < n, stopped(s)), z3.And([a == b for a, b in zip(nxt, s)])))
    def state(self, i): return [f(i) for f in self.fs]
    def at(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        def mk():
            nxt = self.step(i, self.state(i))
            return z3.Implies(z3.And(i >= 0, i < self.n), z3.And([f(i + 1) == t for f, t in zip(self.fs, nxt)]))
        self.eng.axiom((self.name, "at", i.get_id()), mk)
    def stable(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        self.eng.axiom((self.name, "stable", i.get_id()), lambda: z3.Implies(z3.And(i >= 0, i <= self.n, self.stopped(self.state(i))), z3.And([f(self.n) == f(i) for f in self.fs])))

def zb(eng, v):
    """condition as a z3 Bool"""
    t = eng.truth_term(v)
    return z3.BoolVal(t) if isinstance(t, bool) else t.t
def zi(v): return int_of(v)
