from proofs.common import *
import proofs.C19 as W
from proofs.C19 import Plan, Operand, Items, Item, ItemValue, Calc, Const, Values, Child, Node, Nm, Ops, Sub, Flags, NotNull, IsNull, operand_in, CLS, OPS
from contracts import C23 as C
from syncanysql.compiler import Compiler
from sqlglot import expressions as X
ASSUMPTIONS = ["the data source and the core's loader look rows up by equal key values (two NULL keys: known finding join-null-keys) and check the conditions they are given as the memory source of syncany does",
    "parse_on_condition: is_column, is_const, parse_const, parse_column, is_subquery, compile_calculate and compile_query_condition give the parts of an operand; parse_calculate gives the columns it uses, of which one of the joined table and one of another stand for all; the structural induction over AND is the recursion of the function"]
SUMMARIES, SYMS, LOOPS = {}, {}, {}
class OnPlan(Plan):
    def __init__(self, eng):
        super().__init__(eng)
        eng.assume(z3.Not(self.star))
        self.keys, self.lookups, self.having, self.known, self.valuers = [], [], [], set(), {}
    def uses(self, tag, joined):
        """the operand uses a column of the joined table (or of another one)"""
        b = self.u("uses_%s_table_%s" % ("joined" if joined else "other", tag))
        if tag in ("L", "R") and not (tag == "R" and self.kind in ("in list", "in query")):
            c = self.is_column(tag); mine = self.table(tag) == self.pt
            self.eng.axiom(("uses", tag, joined), lambda: z3.And(z3.Implies(c, b == (mine if joined else z3.Not(mine))), z3.Implies(z3.Or(self.is_const(tag), self.is_sub(tag)), z3.Not(b))))
        if tag == "R" and self.kind == "in query": self.eng.axiom(("uses", tag, joined), lambda: z3.Not(b))
        if tag == "R" and self.kind == "in list": self.eng.axiom(("uses", tag, joined), lambda: z3.Implies(self.list_fixed, z3.Not(b)))
        return b
    def free(self, tag): return z3.And(z3.Not(self.uses(tag, True)), z3.Not(self.uses(tag, False)))
    def tags(self, x):
        """the operands of a part of the condition"""
        if isinstance(x, Operand): return [x.o]
        if isinstance(x, (Items, Item)): return ["R"]
        if isinstance(x, Child): return [x.n]
        if isinstance(x, NotNull): return [x.o]
        if isinstance(x, Node): return {"and": ["a", "b"], "or": ["a", "b"], "paren": ["a"]}.get(self.kind, ["L", "R"])
        raise Unsupported("columns of %r" % (x,))
class Field(M.LazyInstance):
    def __init__(self, w, tag, joined): self.w, self.tag, self.joined = w, tag, joined
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return True
    def getitem(self, eng, k):
        if k == "table_name":
            if self.joined: return Nm(self.w.pt)
            t = self.w.u("other_table_" + self.tag, I); eng.axiom(("ot", self.tag), lambda: z3.And(t >= 0, t != self.w.pt)); return Nm(t)
        if k == "column_name": return Nm(self.w.u("column_%s_%s" % (self.tag, self.joined), I))
        raise Unsupported("column[%r]" % (k,))
class Column(M.LazyInstance):
    """parse_column of an operand"""
    def __init__(self, w, o, d): self.w, self.o, self.d = w, o, d
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return True
    def getitem(self, eng, k): return self.d[k]
class JoinTable(M.LazyInstance):
    def __init__(self, w): self.w, self.parts = w, {}
    def isinstance(self, eng, cls): return dict in cls
    def getitem(self, eng, k):
        if k == "name": return Nm(self.w.pt)
        if k == "querys": return JoinQuerys(self.w)
        if k in ("primary_keys", "join_columns", "calculate_expressions", "columns", "having_expressions"): return Part(self.w, k)
        raise Unsupported("join_table[%r]" % (k,))
class JoinQuerys(W.Querys):
    def method(self, eng, name, args, kw):
        if name == "items": return M.SSeq(self.w.K, lambda j: (Nm(self.key(j)), Ops(self.w, j, self.key(j))))
        return super().method(eng, name, args, kw)
class Part(M.LazyInstance):
    def __init__(self, w, what): self.w, self.what = w, what
    def isinstance(self, eng, cls): return (dict if self.what == "columns" else list) in cls
    def contains(self, eng, x):
        if self.what == "primary_keys": return SBool(eng.uf("key_taken", I, B)(x.t))
        if self.what == "columns": return SBool(eng.uf("column_known", I, B)(x.t))
        raise Unsupported("in %s" % self.what)
    def setitem(self, eng, k, v):
        if self.what != "columns": raise Unsupported("%s[..] = .." % self.what)
        M.log_write(eng, self)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        M.log_write(eng, self)
        if self.what == "columns": raise Unsupported("columns.%s" % name)
        if name == "extend" and isinstance(args[0], list):
            for x in args[0]: self.add(eng, x)
        elif name == "append": self.add(eng, args[0])
        else: raise Unsupported("%s.%s" % (self.what, name))
    def add(self, eng, x):
        w = self.w
        if self.what == "primary_keys": w.keys.append(x.t)
        elif self.what == "calculate_expressions":
            if not isinstance(x, Operand): raise Unsupported("key value %r" % (x,))
            w.lookups.append(x.o)
        elif self.what == "join_columns":
            if isinstance(x, Field): w.known.add((x.tag, x.joined))
            elif isinstance(x, Column): w.known.add((x.o, None))
            else: raise Unsupported("column %r" % (x,))
        else: w.having.append(x)
class OnOperand(Operand):
    def setattr(self, eng, name, v):
        M.log_write(eng, self)
        if name == "syncany_column":
            if not isinstance(v, Column) or v.o != self.o: raise Unsupported("another column")
        elif name == "syncany_valuer":
            x = operand_in(v)
            if not isinstance(x, (Calc, Sub)) or len(v) != 3: raise Unsupported("another value")
            self.w.valuers[self.o] = x.o
        else: raise Unsupported("annotation %s" % name)
class OnItems(Items):
    def iterate(self, eng): return [Item(self.w)]
class OnCalc(Calc):
    def getitem(self, eng, k):
        if isinstance(k, slice) and k.step is None and k.start in (1, -1) and k.stop in (2, None): return [Calc.getitem(self, eng, 1)]
        return Calc.getitem(self, eng, k)
class OnArgs(W.Args):
    def part(self, k):
        v = super().part(k)
        if type(v) is Operand: return OnOperand(v.w, v.o)
        if type(v) is Items: return OnItems(v.w)
        return v
class OnNode(Node):
    def getattr(self, eng, name):
        if name == "args": return OnArgs(self)
        if name in ("this", "expression"): return OnArgs(self).part(name)
        raise Unsupported("condition.%s" % name)
    def evaluated(self):
        w = self.w
        if w.kind not in OPS or not w.valuers: return super().evaluated()
        return w.cmp(OPS[w.kind], w.valuers.get("L", "L"), w.valuers.get("R", "R"))
def s_parse_calculate(eng, a, k):
    x, out = a[1], a[5]; w = eng.ghost["plan"]
    if not isinstance(out, list): raise Unsupported("columns into %r" % (out,))
    for tag in w.tags(x):
        for joined in (True, False):
            if eng.branch(w.uses(tag, joined)): out.append(Field(w, tag, joined))
def s_is_const(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if isinstance(e, Item) and not eng.ghost.get("mapping"): return SBool(w.all_const)
    if isinstance(e, Items): return False
    return W.s_is_const(eng, a, k)
def s_parse_column(eng, a, k):
    d = W.s_parse_column(eng, a, k); return Column(a[1].w, a[1].o, d)
def s_compile_calculate(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if isinstance(e, Operand):
        eng.prove("a value given to the source is computed without any row", w.free(e.o)); eng.assume(w.fixed(e.o))
        return OnCalc(w, e.o)
    if isinstance(e, Item):
        eng.prove("a value given to the source is computed without any row", w.free("R")); eng.assume(w.list_fixed)
        return ItemValue(w)
    raise Unsupported("compile_calculate(%r)" % (e,))
def s_on(eng, a, k):
    """contract of the recursive call on a part of the condition"""
    c = a[1]
    if not isinstance(c, Child): return NotImplemented
    if c.seen: raise Unsupported("a part is split twice")
    c.seen = True; c.w.pushed = z3.And(c.w.pushed, c.t)
def s_condition(eng, a, k):
    w, kind = a; w.kind = kind; w.root = OnNode(w); return w.root
def s_refuse(eng, a, k):
    w = a[0]
    if w.kind not in OPS and w.kind[:2] != "in": return False
    name = lambda o: eng.uf("untyped", I, I)(w.u("typing_name_" + o, I))
    return SBool(z3.Or([z3.And(w.is_column(o), z3.Or(w.table(o) == 0, z3.BoolVal(w.kind == "=") if False else z3.And(z3.BoolVal(w.kind == "="), w.table(o) == w.pt, eng.uf("key_taken", I, B)(name(o))))) for o in COLS(w)]))
def COLS(w): return ("L",) if w.kind[:2] == "in" else ("L", "R")
def s_paired(eng, a, k):
    w, node = a
    if len(w.keys) != len(w.lookups): raise Unsupported("keys and values they are looked up by") if False else None
    eng.prove("every key has the value it is looked up by", z3.BoolVal(len(w.keys) == len(w.lookups)))
    parts, null_keys, needed = [w.pushed], [], []
    for t, o in zip(w.keys, w.lookups):
        sides = [c for c in COLS(w) if eng.entailed(z3.And(w.is_column(c), w.table(c) == w.pt, t == eng.uf("untyped", I, I)(w.u("typing_name_" + c, I)))) and c != o]
        if not sides: eng.prove("a key is a column of the joined table, compared with the other side", z3.BoolVal(False)); return False
        c = sides[0]
        eng.prove("the value a key is looked up by does not use the joined table", z3.Not(w.uses(o, True)))
        needed.append(o); null_keys.append(z3.And(w.null(c), w.null(o)))
        parts.append(z3.And(z3.Not(w.null(c)), z3.Not(w.null(o)), w.value(c) == w.value(o)))
    for x in w.having:
        needed += w.tags(x)
        if x is node: parts.append(node.evaluated())
        elif isinstance(x, NotNull): parts.append(z3.Not(w.null(x.o)))
        elif isinstance(x, Child): parts.append(x.t)
        else: raise Unsupported("condition %r" % (x,))
    for tag in set(needed):
        if (tag, False) not in w.known and (tag, None) not in w.known: eng.prove("the columns of other tables that are needed are known to the join", z3.Not(w.uses(tag, False)))
    return SBool(z3.Implies(z3.Not(z3.Or(null_keys)) if null_keys else z3.BoolVal(True), w.truth_of() == z3.And(parts)))
def key_inv(eng, fr, st, i):
    w = eng.ghost["plan"]; base = eng.uf("untyped", I, I)
    col, op = fr.locals["condition_column"], fr.locals["condition_exp"]
    key = col.getitem(eng, "typing_name").t
    taken = [eng.uf("has_%s" % o, I, B)(w.j0) for o in (("==", "in") if op in ("==", "in") else (op,))]
    return [("no conflict with the conditions seen", z3.Implies(w.j0 < i, z3.Not(z3.And(base(eng.uf("prior_key", I, I)(w.j0)) == base(key), z3.Or(taken)))))]
Q = "Compiler.parse_on_condition.<locals>."
CONTRACT_LOOPS = {"on_split": {("syncanysql.compiler:" + Q + "build_query_condition", 0): LoopSpec(key_inv, lambda eng, fr, st, i: None)}}
CONTRACT_SUMMARIES = {"on_split": {C.compiler: lambda eng, a, k: object.__new__(Compiler), C.condition_of: s_condition, C.join_of: lambda eng, a, k: JoinTable(a[0]), C.table_of: lambda eng, a, k: {"table_name": Nm(eng.fresh("primary", I))},
    C.may_refuse: s_refuse, C.paired_exactly: s_paired, Compiler.is_column: W.s_is_column, Compiler.is_const: s_is_const, Compiler.parse_const: W.s_parse_const, Compiler.parse_column: s_parse_column, Compiler.parse_calculate: s_parse_calculate,
    Compiler.compile_calculate: s_compile_calculate, Compiler.compile_query_condition: W.s_query, Compiler.parse_on_condition: s_on, Compiler.to_sql: lambda eng, a, k: "sql", all: W.m_all, any: W.m_any, X.Null: lambda eng, a, k: "NULL", X.Is: W.s_is, X.Not: W.s_not}}
SYMS["plan"] = lambda eng, name: OnPlan(eng)
def setup(eng): eng.ghost["comprehension"] = W.comprehension
SETUP = {"on_split": setup}
