"""Loop rule: establish, havoc, assume, one arbitrary iteration, preserve."""
import ast
import z3
from .values import *
from . import models as M

def reachable(fr):
    ids, stack, keep = set(), [], []
    f = fr
    while f is not None:
        stack.extend(f.locals.values()); f = f.parent
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, (int, str, float, bool, type)): continue
        if id(o) in ids or isinstance(o, (z3.AstRef, z3.FuncDeclRef, z3.Context, ast.AST)) or hasattr(o, "explore"): continue
        ids.add(id(o)); keep.append(o)
        if isinstance(o, (list, tuple, set)): stack.extend(o)
        elif type(o).__name__ == "Frame" and hasattr(o, "localnames"): stack.extend(o.locals.values()); stack.append(o.parent)
        elif isinstance(o, dict): stack.extend(o.values())
        elif hasattr(o, "__dict__") and not callable(o): stack.extend(vars(o).values())
    return ids, keep

class LoopSpec:
    """inv(eng, fr, st, i) -> [(name, condition)];  havoc(eng, fr, st, i) gives every
    variable and heap cell the loop may change an arbitrary value;  modifies(eng, fr, st)
    -> objects (identity) whose contents the loop may change."""
    def __init__(self, inv, havoc, modifies=None, seq=None, entry=None, variant=None, exit_facts=None, name=""):
        self.inv, self.havoc, self.modifies, self.seq, self.entry, self.variant, self.exit_facts, self.name = inv, havoc, modifies, seq, entry, variant, exit_facts, name
    def wants(self, eng, it):
        if self.seq is not None: return True
        it = eng.resolve(it) if isinstance(it, SVal) else it
        return isinstance(it, (M.SSeq, M.SList, M.RangeSym, SStr, M.SMap, SObj)) or id(it) in eng.maps or isinstance(it, M.LazyInstance)
    def _name(self, fr): return "%s loop%s" % (fr.qualname.split(":")[-1], self.name)
    def _prove(self, eng, fr, st, i, phase):
        for n, c in self.inv(eng, fr, st, i):
            eng.prove("%s invariant %s (%s)" % (self._name(fr), n, phase), c if not isinstance(c, (bool, SBool)) else bool_of(c))
    def _assume(self, eng, fr, st, i):
        for n, c in self.inv(eng, fr, st, i):
            eng.assume(c if not isinstance(c, (bool, SBool)) else bool_of(c))
    def _havoc(self, eng, s, fr, st, i):
        from .engine import Poison, assigned_names
        for n in assigned_names(s.body) | (assigned_names([s.target]) if isinstance(s, ast.For) else set()):
            if n in fr.localnames or n in fr.locals: fr.locals[n] = Poison(n)
        self.havoc(eng, fr, st, i)
    def _body(self, eng, s, fr, st):
        from .engine import _Continue
        ids, keep = reachable(fr)
        allowed = {id(o) for o in (self.modifies(eng, fr, st) if self.modifies else [])}
        saved = eng.ghost.get("writes")
        eng.ghost["writes"] = log = []
        def check():
            eng.ghost["writes"] = saved
            for o, k in log:
                if id(o) in ids and id(o) not in allowed:
                    eng.fail("%s frame: iteration changes an object outside the modifies clause" % self._name(fr), repr(type(o)) + " " + str(k))
                if saved is not None: saved.append((o, k))
        try:
            try: eng.exec_block(s.body, fr)
            except _Continue: pass
        finally:
            check()
    def run_while(self, eng, s, fr):
        from .engine import _Break, PathEnd
        st = {}
        if self.entry: self.entry(eng, fr, st)
        self._prove(eng, fr, st, None, "entry")
        self._havoc(eng, s, fr, st, None)
        self._assume(eng, fr, st, None)
        v0 = self.variant(eng, fr, st) if self.variant else None
        if eng.truth(eng.eval(s.test, fr)):
            eng.cover("loop body " + self._name(fr))
            try: self._body(eng, s, fr, st)
            except _Break: return
            self._prove(eng, fr, st, None, "preserved")
            if self.variant:
                v1 = self.variant(eng, fr, st)
                eng.prove("%s terminates (variant decreases and is bounded)" % self._name(fr), z3.And(v1 < v0, v0 >= 0))
            raise PathEnd()
        eng.exec_block(s.orelse, fr)
    def run_for(self, eng, s, fr, it):
        from .engine import _Break, PathEnd
        it = eng.resolve(it) if isinstance(it, SVal) else it
        st = {}
        n, get = seq_view(eng, it, self)
        st["n"], st["get"] = n, get
        if self.entry: self.entry(eng, fr, st)
        self._prove(eng, fr, st, z3.IntVal(0), "entry")
        i = eng.fresh("i", z3.IntSort())
        self._havoc(eng, s, fr, st, i)
        eng.assume(z3.And(i >= 0, i <= n))
        self._assume(eng, fr, st, i)
        if eng.branch(i < n):
            eng.cover("loop body " + self._name(fr))
            eng.assign(s.target, get(i), fr)
            try: self._body(eng, s, fr, st)
            except _Break: return
            self._prove(eng, fr, st, z3.simplify(i + 1), "preserved")
            raise PathEnd()
        eng.exec_block(s.orelse, fr)

def seq_view(eng, it, spec=None):
    if spec is not None and spec.seq is not None: return spec.seq(eng, it)
    if isinstance(it, M.SSeq): return it.n, it.get
    if isinstance(it, M.SList): return z3.Length(it.t), (lambda i, t=it.t: SVal(t[i]))
    if isinstance(it, M.RangeSym): return z3.simplify(z3.If(it.b > it.a, it.b - it.a, z3.IntVal(0))), (lambda i: SInt(z3.simplify(it.a + i)))
    if isinstance(it, SStr): return z3.Length(it.t), (lambda i: SStr(z3.SubString(it.t, i, 1)))
    raise Unsupported("iteration over %r" % (it,))
