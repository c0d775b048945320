from proofs.common import *
from contracts import C19 as C
from syncanysql import compiler as CP
from syncanysql.compiler import Compiler
from sqlglot import expressions as X
ASSUMPTIONS = ["where_split leaves out SELECT * compared with a subquery that gives NULL (known finding select-star-null-subquery)",
    "the data source checks the conditions it is given as the memory source of syncany does: NULL before every value for an order, unequal to every value and perhaps equal to NULL; one condition of a kind per column, = and IN counting as the same kind",
    "compile_where_condition: is_column, is_const, parse_const, parse_column, is_subquery and compile_query_condition give the parts of an operand; the structural induction over AND and parentheses is the recursion of the function, each level checked against the contract of the next",
    "compile_having_condition: the columns parse_calculate gives of an operand are known by whether the result has them and whether they are of a joined table; compile_calculate gives a term for the operand over the row it is evaluated on (bounded: having_statements, where_joined)",
    "comparisons, IN, IS NULL and NOT evaluated on a row follow C05 and C06; a column named without table is one of the primary table"]
SUMMARIES, SYMS, LOOPS = {}, {}, {}
CLS = {"and": X.And, "or": X.Or, "paren": X.Paren, "=": X.EQ, "!=": X.NEQ, ">": X.GT, ">=": X.GTE, "<": X.LT, "<=": X.LTE, "in list": X.In, "in query": X.In, "in variable": X.In, "other": X.Like}
OPS = {"=": "==", "!=": "!=", ">": ">", ">=": ">=", "<": "<", "<=": "<="}
COLS = {"L": 0, "R": 1}
class Plan(M.LazyInstance):
    def __init__(self, eng):
        self.eng = eng
        self.pt, self.K, self.j0 = eng.fresh("primary_table", I), eng.fresh("prior_columns", I), eng.fresh("j0", I)
        eng.assume(z3.And(self.pt > 0, self.K >= 0, self.j0 >= 0, self.j0 < self.K))
        self.pushed, self.kind, self.root = z3.BoolVal(True), None, None
        self.member, self.list_null, self.all_const = eng.fresh("value_in_list", B), eng.fresh("list_has_null", B), eng.fresh("all_const", B)
        self.list_fixed = eng.fresh("list_same_for_every_row", B); eng.assume(z3.Implies(self.all_const, self.list_fixed))
        self.star = eng.fresh("selects_all_columns", B)
        self.children = {}
        eng.ghost["plan"] = self
    def concretize(self, eng, m): return None
    def u(self, name, sort=B): return self.eng.uf(name, sort)() if False else z3.Const(name, sort)
    # the operands: value on the row looked at
    def null(self, o): return self.u("null_" + o)
    def value(self, o): return self.u("value_" + o, R)
    def is_column(self, o): return self.u("is_column_" + o) if o == "L" or self.kind[:2] != "in" else z3.BoolVal(False)
    def is_const(self, o): return z3.And(self.u("is_const_" + o), z3.Not(self.is_column(o)), z3.Not(self.is_sub(o)))
    def is_sub(self, o): return z3.And(self.u("is_subquery_" + o), z3.Not(self.is_column(o))) if self.kind not in ("in query",) or o == "L" else z3.BoolVal(True)
    def fixed(self, o): return self.u("same_for_every_row_" + o)
    def table(self, o): return self.u("table_" + o, I)
    def cmp(self, op, a, b):
        """(known, true)"""
        x, y = self.value(a), self.value(b)
        t = {"==": x == y, "!=": x != y, ">": x > y, ">=": x >= y, "<": x < y, "<=": x <= y}[op]
        return z3.And(z3.Not(self.null(a)), z3.Not(self.null(b)), t)
    def lets_through(self, op, col, val):
        """the source's own comparison of the column with a value"""
        x, y = self.value(col), self.value(val); xn, yn = self.null(col), self.null(val)
        odd = z3.Const("source_%s_%s_null" % (op, col), B)        # with a NULL value: anything that lets the true rows through (there are none)
        t = {"==": z3.And(z3.Not(xn), x == y), "!=": z3.Or(xn, x != y), ">": z3.And(z3.Not(xn), x > y), ">=": z3.And(z3.Not(xn), x >= y), "<": z3.Or(xn, x < y), "<=": z3.Or(xn, x <= y)}[op]
        return z3.If(yn, odd, t)
    def list_true(self, col): return z3.And(z3.Not(self.null(col)), self.member)
    def list_through(self, col):
        return z3.Or(self.list_true(col), z3.And(self.null(col), self.list_null))
    # truth of the condition, and what is evaluated of it afterwards
    def truth_of(self):
        k = self.kind
        if k in OPS: return self.cmp(OPS[k], "L", "R")
        if k[:2] == "in": return self.list_true("L")
        if k == "and": return z3.And(self.child("a").t, self.child("b").t)
        if k == "paren": return self.child("a").t
        return self.u("truth")
    def child(self, n):
        if n not in self.children: self.children[n] = Child(self, n)
        return self.children[n]
class Child(M.LazyInstance):
    """a part of the condition, known by the contract of compile_where_condition"""
    def __init__(self, w, n):
        self.w, self.n = w, n
        self.t, self.p, self.none, self.rest_true, self.self_true = [z3.Const("%s_%s" % (x, n), B) for x in ("truth", "through", "no_rest", "rest_true", "evaluated_true")]
        self.seen = False
    def isinstance(self, eng, cls): return X.Expression in cls
class Rest(M.LazyInstance):
    """what is left of a part"""
    def __init__(self, c): self.c = c
    def isinstance(self, eng, cls): return X.Expression in cls
class Operand(M.LazyInstance):
    def __init__(self, w, o): self.w, self.o = w, o
    def isinstance(self, eng, cls):
        sub = [c for c in cls if c in (X.Subquery, X.Select, X.Union)]
        if sub: return SBool(self.w.is_sub(self.o))
        return X.Expression in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def truth(self, eng): return True
    def method(self, eng, name, args, kw):
        if name == "copy": return self
        raise Unsupported("operand.%s" % name)
class Items(M.LazyInstance):
    """the values of an IN list"""
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return True
class Values(M.LazyInstance):
    """the list's constants, or the terms that compute them"""
    def __init__(self, w, const): self.w, self.const = w, const
    def isinstance(self, eng, cls): return list in cls
class Flags(M.LazyInstance):
    def __init__(self, what): self.what = what
class Item(M.LazyInstance):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return X.Expression in cls
class ItemValue(M.LazyInstance):
    def __init__(self, w): self.w = w
    def is_none(self): pass
class Args(M.LazyInstance):
    def __init__(self, node): self.node = node
    def part(self, k):
        w = self.node.w; kind = w.kind
        if kind in ("and", "or"): return {"this": w.child("a"), "expression": w.child("b")}.get(k)
        if kind == "paren": return {"this": w.child("a")}.get(k)
        if kind in OPS: return {"this": Operand(w, "L"), "expression": Operand(w, "R")}.get(k)
        if kind == "in list": return {"this": Operand(w, "L"), "expressions": Items(w)}.get(k)
        if kind == "in query": return {"this": Operand(w, "L"), "query": Operand(w, "R")}.get(k)
        if kind == "in variable": return {"this": Operand(w, "L"), "field": Operand(w, "R")}.get(k)
        return {"this": Operand(w, "L"), "expression": Operand(w, "R")}.get(k)
    def getitem(self, eng, k):
        v = self.part(k)
        if v is None: eng.raise_(KeyError, k)
        return v
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "get": return self.part(args[0])
        raise Unsupported("args.%s" % name)
class Node(M.LazyInstance):
    def __init__(self, w): self.w, self.valuer = w, None
    def isinstance(self, eng, cls): return any(issubclass(CLS[self.w.kind], c) for c in cls if isinstance(c, type))
    def getattr(self, eng, name):
        if name == "args": return Args(self)
        if name in ("this", "expression"): return Args(self).part(name)
        raise Unsupported("condition.%s" % name)
    def setattr(self, eng, name, v):
        M.log_write(eng, self)
        if name != "syncany_valuer" or v != ["#const", 1]: raise Unsupported("annotation %s" % name)
        self.valuer = v
    def evaluated(self):
        w = self.w
        if self.valuer is not None: return z3.BoolVal(True)
        if w.kind == "and": return z3.And(*[c.self_true if c.seen else c.t for c in (w.child("a"), w.child("b"))])
        if w.kind == "paren": return w.child("a").self_true if w.child("a").seen else w.child("a").t
        return w.truth_of()
class Calc(M.LazyInstance):
    """the plan's term for an operand"""
    def __init__(self, w, o): self.w, self.o = w, o
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return True
    def getitem(self, eng, k):
        if k == 0: return "#const" if eng.branch(self.w.is_const(self.o)) else "@something"
        if k == 1 and eng.entailed(self.w.is_const(self.o)): return None if eng.branch(self.w.null(self.o)) else Const(self.w, self.o)
        raise Unsupported("term[%r]" % (k,))
class Const(M.LazyInstance):
    def __init__(self, w, o): self.w, self.o = w, o
    def isinstance(self, eng, cls): return False
    def eq(self, eng, other): return SBool(self.w.null(self.o)) if other is None else False
class Nm(M.LazyInstance):
    def __init__(self, t, base=None): self.t, self.base = t, base
    def truth(self, eng): return SBool(self.t != 0)
    def eq(self, eng, o): return SBool(self.t == o.t) if isinstance(o, Nm) else False
    def isinstance(self, eng, cls): return str in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name in ("split", "partition") and args and args[0] == "|": return [Nm(eng.uf("untyped", I, I)(self.t))]
        raise Unsupported("name.%s" % name)
def kind_of(op): return "==" if op == "in" else op
class Ops(M.LazyInstance):
    """the conditions of one column the source already has"""
    def __init__(self, w, j, key): self.w, self.j, self.key = w, j, key
    def isinstance(self, eng, cls): return dict in cls
    def contains(self, eng, op): return SBool(eng.uf("has_%s" % op, I, B)(self.j)) if self.j is not None else SBool(eng.uf("key_has_%s" % op, I, B)(self.key))
    def setitem(self, eng, op, calc): push(eng, self.w, self.key, op, calc)
    def truth(self, eng): return True
class Querys(M.LazyInstance):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return True
    def key(self, j): return self.w.eng.uf("prior_key", I, I)(j)
    def seq(self): return M.SSeq(self.w.K, lambda j: Nm(self.key(j)))
    def getitem(self, eng, k):
        t = k.t
        j = t.arg(0) if z3.is_app(t) and t.decl().name() == "prior_key" else None
        return Ops(self.w, j, t)
    def contains(self, eng, k): return SBool(eng.uf("is_prior_key", I, B)(k.t))
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def setitem(self, eng, k, v):
        if v == {}: return
        raise Unsupported("conditions replaced")
    def method(self, eng, name, args, kw):
        M.log_write(eng, self)
        if name == "setdefault" and args[1] == {}: return Ops(self.w, None, args[0].t)
        if name == "keys": return self.seq()
        raise Unsupported("querys.%s" % name)
def operand_in(calc):
    """the operand whose value the source compares with; None for a list"""
    if isinstance(calc, Calc): return calc
    if isinstance(calc, list) and calc and calc[0] == "@convert_array" and len(calc) in (2, 3): return operand_in(calc[1])
    if isinstance(calc, (Values, Sub)): return calc
    if isinstance(calc, list) and calc and calc[0] == "#const" and isinstance(calc[1], Values): return calc[1]
    if isinstance(calc, list) and calc and calc[0] == "#make" and isinstance(calc[1], Values): return calc[1]
    raise Unsupported("value %r" % (calc,))
class Sub(M.LazyInstance):
    def __init__(self, w, o): self.w, self.o = w, o
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return True
    def getitem(self, eng, k):
        if k == 0: return "&.--.subquery::x" if eng.branch(self.w.u("plain_query_" + self.o)) else "@other"
        raise Unsupported("term[%r]" % (k,))
def push(eng, w, key, op, calc):
    """the source is given a condition: its requirements, and what it does to the row"""
    v = operand_in(calc)
    name = key.decl().name()
    if name not in ("typing_name_L", "typing_name_R"): raise Unsupported("column %s" % key)
    col = name[-1]
    eng.prove("a condition given to the source concerns a column of the primary table", z3.And(w.is_column(col), z3.Or(w.table(col) == 0, w.table(col) == w.pt)))
    base = eng.uf("untyped", I, I)
    taken = [eng.uf("has_%s" % o, I, B)(w.j0) for o in (("==", "in") if op in ("==", "in") else (op,))]
    eng.prove("no condition of the source is replaced", z3.Not(z3.And(base(w.eng.uf("prior_key", I, I)(w.j0)) == base(key), z3.Or(taken))))
    if isinstance(v, Values) or w.kind[:2] == "in":
        eng.prove("lists are given to the source as IN", z3.BoolVal(op == "in" and col == "L"))
        if isinstance(v, Values): eng.prove("the value is the same for every row", w.all_const if v.const else w.list_fixed)
        elif isinstance(v, Calc): eng.prove("the value is the same for every row", w.fixed(v.o))
        w.pushed = z3.And(w.pushed, w.list_through(col)); return
    eng.prove("a value is compared, not a list", z3.BoolVal(op in OPS.values()))
    other = v.o
    if isinstance(v, Calc): eng.prove("the value is the same for every row", w.fixed(other))
    eng.prove("the column is compared with the other side", z3.BoolVal(other != col))
    w.pushed = z3.And(w.pushed, w.lets_through(op, col, other))
# ---- parts of the compiler
def s_is_column(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if isinstance(e, Items): return False
    if isinstance(e, Operand): return SBool(w.is_column(e.o))
    raise Unsupported("is_column")
def s_is_const(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if isinstance(e, Operand): return SBool(w.is_const(e.o))
    if isinstance(e, Item): return SBool(eng.fresh("item_const", B)) if not eng.ghost.get("mapping") else Flags("const")
    raise Unsupported("is_const")
def s_parse_const(eng, a, k): return {"value": ItemValue(eng.ghost["plan"])} if isinstance(a[1], Item) else {"value": Const(a[1].w, a[1].o)}
def s_parse_column(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if not isinstance(e, Operand): raise Unsupported("parse_column")
    t = w.u("typing_name_" + e.o, I); eng.axiom(("tn", e.o), lambda: z3.And(t > 0, w.table(e.o) >= 0))
    return {"table_name": Nm(w.table(e.o)), "column_name": Nm(eng.uf("untyped", I, I)(t)), "typing_name": Nm(t), "typing_filters": [], "expression": e, "convert_typing_filter": None}
def s_where_column(eng, a, k):
    e = a[1]
    if isinstance(e, Operand): return Calc(e.w, e.o)
    if isinstance(e, Item): return ItemValue(e.w)
    raise Unsupported("compile_where_condition_column")
def s_query(eng, a, k): return Sub(a[1].w, a[1].o)
def s_has_column(eng, a, k):
    e = a[0]
    if isinstance(e, Items): return SBool(z3.Not(e.w.list_fixed))
    if isinstance(e, Item): return Flags("column")
    if isinstance(e, Operand):
        r = e.w.u("has_column_" + e.o)
        eng.axiom(("hc", e.o), lambda: z3.And(z3.Implies(z3.Or(e.w.is_column(e.o), e.w.is_sub(e.o)), r), e.w.fixed(e.o) == z3.Not(r)))
        return SBool(r)
    raise Unsupported("has_column_expression")
def s_where(eng, a, k):
    """contract of the recursive call on a part of the condition"""
    c = a[1]
    if not isinstance(c, Child): return NotImplemented
    w = c.w
    if c.seen: raise Unsupported("a part is split twice")
    c.seen = True
    eng.assume(z3.And(c.t == z3.And(c.p, z3.Or(c.none, c.rest_true)), c.t == z3.And(c.p, c.self_true)))
    w.pushed = z3.And(w.pushed, c.p)
    return None if eng.branch(c.none) else Rest(c)
def comprehension(eng, e, fr):
    w = eng.ghost["plan"]
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if isinstance(it, Items): x = Item(w)
    elif isinstance(it, Values) and it.const: x = ItemValue(w)
    else: return None
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    eng.assign(g.target, x, inner)
    old = eng.ghost.get("mapping"); eng.ghost["mapping"] = True
    try:
        if isinstance(e.elt, E.ast.Compare) and isinstance(x, ItemValue) and len(e.elt.ops) == 1 and isinstance(e.elt.ops[0], E.ast.Is) and isinstance(e.elt.comparators[0], E.ast.Constant) and e.elt.comparators[0].value is None and eng.eval(e.elt.left, inner) is x: return Flags("null")
        r = eng.eval(e.elt, inner)
    finally: eng.ghost["mapping"] = old
    if isinstance(r, Flags): return r
    if isinstance(r, ItemValue): return Values(w, eng.entailed(w.all_const))
    raise Unsupported("list of %r" % (r,))
def m_all(eng, a, k):
    if isinstance(a[0], Flags) and a[0].what == "const": return SBool(eng.ghost["plan"].all_const)
    return NotImplemented
def m_any(eng, a, k):
    if isinstance(a[0], Flags) and a[0].what == "column": return SBool(z3.Not(eng.ghost["plan"].list_fixed))
    if isinstance(a[0], Flags) and a[0].what == "null": return SBool(eng.ghost["plan"].list_null)
    return NotImplemented
class NotNull(M.LazyInstance):
    def __init__(self, o): self.o = o
    def isinstance(self, eng, cls): return X.Expression in cls
class IsNull(M.LazyInstance):
    def __init__(self, o): self.o = o
def s_is(eng, a, k):
    if isinstance(k.get("this"), Operand) and k.get("expression") == "NULL": return IsNull(k["this"].o)
    raise Unsupported("IS")
def s_not(eng, a, k):
    if isinstance(k.get("this"), IsNull): return NotNull(k["this"].o)
    raise Unsupported("NOT")
def s_condition(eng, a, k):
    w, kind = a; w.kind = kind; w.root = Node(w)
    if kind in OPS: eng.assume(z3.Not(z3.And(w.star, z3.Or([z3.And(w.is_sub(o), w.null(o)) for o in COLS]))))      # known finding select-star-null-subquery
    return w.root
class Schema(M.LazyInstance):
    """the selected columns, or all of them"""
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return SBool(z3.Not(self.w.star)) if dict in cls else (SBool(self.w.star) if str in cls else False)
    def eq(self, eng, other): return SBool(z3.And(self.w.star, z3.BoolVal(other == "$.*")))
    def truth(self, eng): return True
class AndRest(M.LazyInstance):
    def __init__(self, a, b): self.a, self.b = a, b
    def isinstance(self, eng, cls): return X.Expression in cls
def s_and(eng, a, k): return AndRest(k.get("this", a[0] if a else None), k.get("expression", a[1] if len(a) > 1 else None))
def s_kept(eng, a, k):
    w, node, rest = a
    def checked(rest):
        if rest is None: return z3.BoolVal(True)
        if rest is node: return node.evaluated()
        if isinstance(rest, Rest): return rest.c.rest_true
        if isinstance(rest, Child): return rest.self_true if rest.seen else rest.t
        if isinstance(rest, NotNull): return z3.Not(w.null(rest.o))
        if isinstance(rest, AndRest): return z3.And(checked(rest.a), checked(rest.b))
        raise Unsupported("rest %r" % (rest,))
    r = checked(rest)
    t = w.truth_of()
    return SBool(z3.And(t == z3.And(w.pushed, r), t == z3.And(w.pushed, node.evaluated())))
Q = "Compiler.compile_where_condition.<locals>."
def key_inv(eng, fr, st, i):
    w = eng.ghost["plan"]; base = eng.uf("untyped", I, I)
    op, key = fr.locals["condition_exp"], fr.locals["column_key"].t
    taken = [eng.uf("has_%s" % o, I, B)(w.j0) for o in (("==", "in") if op in ("==", "in") else (op,))]
    return [("no conflict with the conditions seen", z3.Implies(w.j0 < i, z3.Not(z3.And(base(w.eng.uf("prior_key", I, I)(w.j0)) == base(key), z3.Or(taken)))))]
CONTRACT_LOOPS = {"where_split": {("syncanysql.compiler:" + Q + "build_query_condition", 0): LoopSpec(key_inv, lambda eng, fr, st, i: None, seq=lambda eng, it: (lambda s: (s.n, s.get))(it.seq() if isinstance(it, Querys) else it))}}
CONTRACT_SUMMARIES = {"where_split": {C.compiler: lambda eng, a, k: object.__new__(Compiler), C.condition_of: s_condition, C.config_of: lambda eng, a, k: {"querys": Querys(a[0]), "schema": Schema(a[0])}, C.table_of: lambda eng, a, k: {"table_name": Nm(a[0].pt)},
    C.kept_exactly: s_kept, Compiler.is_column: s_is_column, Compiler.is_const: s_is_const, Compiler.parse_const: s_parse_const, Compiler.parse_column: s_parse_column, Compiler.compile_where_condition_column: s_where_column,
    Compiler.compile_query_condition: s_query, Compiler.compile_where_condition: s_where, Q + "has_column_expression": s_has_column, "syncanysql.compiler:" + Q + "has_column_expression": s_has_column, all: m_all, any: m_any,
    X.Null: lambda eng, a, k: "NULL", X.Is: s_is, X.Not: s_not, X.And: s_and}}
SYMS["plan"] = lambda eng, name: Plan(eng)
def setup(eng): eng.ghost["comprehension"] = comprehension
SETUP = {"where_split": setup}
# ---- HAVING
CLS.update({"like": X.Like, "between": X.Between})
class HPlan(Plan):
    def missing(self, tag): return self.u("missing_" + tag)
    def others(self, tag): return self.u("other_table_" + tag)
    def truth3(self):
        """(unknown, true)"""
        k = self.kind
        if k in OPS: return cmp3(self, OPS[k], "L", "R")
        if k == "and": return and3([self.child("a").h, self.child("b").h])
        if k == "or": return or3([self.child("a").h, self.child("b").h])
        if k == "paren": return self.child("a").h
        if k[:2] == "in": return in3(self)
        if k == "like": return like3(self, "L", "R")
        if k == "between": return and3([cmp3(self, ">=", "K", "L"), cmp3(self, "<=", "K", "H")])
        return (self.u("unknown"), z3.And(z3.Not(self.u("unknown")), self.u("truth")))
    def child(self, n):
        if n not in self.children:
            c = self.children[n] = Child(self, n)
            un = z3.Const("unknown_" + n, B); c.h = (un, z3.And(z3.Not(un), c.t))
        return self.children[n]
    def is_column(self, o): return self.u("is_column_" + o) if o != "R" or self.kind[:2] != "in" else z3.BoolVal(False)
def cmp3(w, op, a, b):
    x, y = w.value(a), w.value(b); un = z3.Or(w.null(a), w.null(b))
    return (un, z3.And(z3.Not(un), {"==": x == y, "!=": x != y, ">": x > y, ">=": x >= y, "<": x < y, "<=": x <= y}[op]))
def and3(ts):
    false = z3.Or([z3.And(z3.Not(u), z3.Not(t)) for u, t in ts])
    return (z3.And(z3.Not(false), z3.Or([u for u, t in ts])), z3.And([t for u, t in ts]))
def or3(ts):
    true = z3.Or([t for u, t in ts])
    return (z3.And(z3.Not(true), z3.Or([u for u, t in ts])), true)
def in3(w):
    t = z3.And(z3.Not(w.null("L")), w.member)
    return (z3.And(z3.Not(t), z3.Or(w.null("L"), w.list_null)), t)
def like3(w, a, b):
    un = z3.Or(w.null(a), w.null(b)); return (un, z3.And(z3.Not(un), w.u("like_%s_%s" % (a, b))))
class HNm(M.LazyInstance):
    """name of a column the condition uses"""
    def __init__(self, w, tag, what): self.w, self.tag, self.what = w, tag, what
    def isinstance(self, eng, cls): return str in cls
    def there(self):
        known = z3.Not(self.w.missing(self.tag)) if self.what == "self" else z3.BoolVal(self.what == "present")
        return z3.If(self.w.star, z3.Const("within_star", B), known)
class HSchema(Schema):
    def contains(self, eng, k): return SBool(k.there())
class ColumnNode(M.LazyInstance):
    """a column inside an operand; .set("table", None) makes it one of the row it is read from"""
    def __init__(self, w, tag): self.w, self.tag = w, tag
    def isinstance(self, eng, cls): return X.Expression in cls or X.Column in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "set" and list(args) == ["table", None]:
            M.log_write(eng, self); self.w.eng.ghost.setdefault("unqualified", set()).add(self.tag); return None
        raise Unsupported("column.%s" % name)
class HAgg(M.LazyInstance):
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return True
    def getitem(self, eng, k):
        if k == "having_columns": return HCols()
        raise Unsupported("aggregate[%r]" % (k,))
class HCols(M.LazyInstance):
    def isinstance(self, eng, cls): return set in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        M.log_write(eng, self)
        if name == "add": return None
        raise Unsupported("having_columns.%s" % name)
class HConfig(M.LazyInstance):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return dict in cls
    def contains(self, eng, k):
        if k == "aggregate": return True if eng.ghost.get("aggregate") else SBool(self.w.u("has_aggregate"))
        raise Unsupported("%r in plan" % (k,))
    def getitem(self, eng, k):
        if k == "schema": return HSchema(self.w)
        if k == "aggregate": return HAgg()
        raise Unsupported("plan[%r]" % (k,))
    def setitem(self, eng, k, v):
        M.log_write(eng, self)
        if k != "aggregate": raise Unsupported("plan[%r] =" % (k,))
        eng.ghost["aggregate"] = True
class HArgs(Args):
    def part(self, k):
        w = self.node.w
        if w.kind == "between": return {"this": Operand(w, "K"), "low": Operand(w, "L"), "high": Operand(w, "H")}.get(k)
        return Args.part(self, k)
class HNode(Node):
    def getattr(self, eng, name):
        if name == "args": return HArgs(self)
        if name in ("this", "expression"): return HArgs(self).part(name)
        raise Unsupported("condition.%s" % name)
    def isinstance(self, eng, cls):
        if self.w.kind == "other": return X.Expression in cls
        return any(issubclass(CLS[self.w.kind], c) for c in cls if isinstance(c, type))
class Bound(M.LazyInstance):
    """a comparison built from the operands of BETWEEN"""
    def __init__(self, op, a, b): self.op, self.a, self.b = op, a, b
    def isinstance(self, eng, cls): return X.Expression in cls
class CondTerm(M.LazyInstance):
    """the term of a part, known by the contract of compile_having_condition"""
    def __init__(self, h): self.h = h
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return True
def bound(op):
    def s(eng, a, k):
        if isinstance(k.get("this"), Operand) and isinstance(k.get("expression"), Operand) and not a: return Bound(op, k["this"].o, k["expression"].o)
        raise Unsupported("comparison built of %r" % (k,))
    return s
def h_having(eng, a, k):
    """contract of the recursive call: a term true exactly when the part is"""
    c = a[1]
    if isinstance(c, Child): return CondTerm(c.h)
    if isinstance(c, Bound): return CondTerm(cmp3(eng.ghost["plan"], c.op, c.a, c.b))
    return NotImplemented
def tag_of(e): return e.o if isinstance(e, Operand) else "list" if isinstance(e, Item) else "whole" if isinstance(e, HNode) else None
def h_parse_calculate(eng, a, k):
    """the columns an operand uses, by what matters of them: in the result or not, of another table or not"""
    x, out = a[1], a[5]; w = eng.ghost["plan"]; tag = tag_of(x)
    if tag is None or not isinstance(out, list): raise Unsupported("columns of %r" % (x,))
    if eng.branch(w.missing(tag)): out.append({"column_name": HNm(w, tag, "missing"), "table_name": Nm(w.u("t1_" + tag, I)), "expression": ColumnNode(w, tag + "?")})
    if eng.branch(w.u("present_" + tag)): out.append({"column_name": HNm(w, tag, "present"), "table_name": Nm(w.u("t2_" + tag, I)), "expression": ColumnNode(w, tag)})
def h_parse_column(eng, a, k):
    e = a[1]
    if not isinstance(e, Operand): raise Unsupported("parse_column")
    return {"column_name": HNm(e.w, e.o, "self"), "table_name": Nm(e.w.u("t_" + e.o, I)), "typing_filters": [], "expression": e, "convert_typing_filter": None}
def h_compile_column(eng, a, k):
    e, c = a[1], a[4]
    if isinstance(e, Operand) and isinstance(c, dict) and isinstance(c.get("column_name"), HNm) and c["column_name"].tag == e.o and len(a) == 5 and not k: return Calc(e.w, e.o)
    raise Unsupported("compile_column")
def h_compile_calculate(eng, a, k):
    e, w = a[1], eng.ghost["plan"]; tag = tag_of(e)
    if tag is None or a[5] != []: raise Unsupported("compile_calculate(%r)" % (e,))
    if tag not in eng.ghost.get("unqualified", ()): eng.prove("the columns are those of the result, not of a table that is not at hand", z3.Not(z3.And(w.u("present_" + tag), w.others(tag))))
    if isinstance(e, Operand): return Calc(w, e.o)
    if isinstance(e, Item): return ItemValue(w)
    return CondTerm((w.u("unknown"), z3.And(z3.Not(w.u("unknown")), w.u("truth"))))
def h_parse_const(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if isinstance(e, Item):
        eng.prove("only constants are read at once", w.all_const); x = ItemValue(w); x.plain = True; return {"value": x}
    raise Unsupported("parse_const")
def h_comprehension(eng, e, fr):
    w = eng.ghost["plan"]
    if len(e.generators) != 1: return None
    it = eng.eval(e.generators[0].iter, fr)
    if not isinstance(it, Items): return None
    if e.generators[0].ifs: raise Unsupported("part of the values of a list")
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    eng.assign(e.generators[0].target, Item(w), inner)
    old = eng.ghost.get("mapping"); eng.ghost["mapping"] = True
    try: r = eng.eval(e.elt, inner)
    finally: eng.ghost["mapping"] = old
    if isinstance(r, Flags): return r
    if isinstance(r, ItemValue): return Values(w, bool(getattr(r, "plain", False)))
    raise Unsupported("list of %r" % (r,))
def h_condition(eng, a, k):
    w, kind = a; w.kind = kind; w.root = HNode(w); return w.root
def h_unknown(eng, a, k):
    w = a[0]
    tags = {"in list": ["L", "list"], "in query": ["L"], "in variable": ["L", "R"], "other": ["whole"]}.get(w.kind, ["L", "R"] if w.kind in OPS or w.kind == "like" else [])
    parts = []
    for t in tags:
        m = w.missing(t)
        if t == "list": m = z3.And(m, z3.Not(w.all_const))
        elif t == "R": m = z3.And(m, z3.Not(w.is_sub(t)))
        parts.append(m)
    return SBool(z3.And(z3.Not(w.star), z3.Or(parts))) if parts else False
def value_tag(w, t):
    """which operand a term gives the value of"""
    if isinstance(t, Calc): return t.o
    if isinstance(t, list) and len(t) == 3 and t[0] == "@convert_array" and isinstance(t[1], Sub) and t[2] == ":$.:0": return t[1].o
    raise Unsupported("value %r" % (t,))
def is_members(w, t):
    if isinstance(t, list) and len(t) == 2 and t[0] == "@convert_array": return is_members(w, t[1])
    if w.kind == "in list": return isinstance(t, list) and len(t) == 2 and isinstance(t[1], Values) and t[0] == ("#const" if t[1].const else "#make")
    return isinstance(t, (Sub, Calc)) and t.o == "R"
COMPARISONS = {"@mysql::eq": "==", "@mysql::neq": "!=", "@mysql::gt": ">", "@mysql::gte": ">=", "@mysql::lt": "<", "@mysql::lte": "<="}
def eval3(w, t):
    if isinstance(t, CondTerm): return t.h
    if isinstance(t, list) and t and t[0] in COMPARISONS and len(t) == 3: return cmp3(w, COMPARISONS[t[0]], value_tag(w, t[1]), value_tag(w, t[2]))
    if isinstance(t, list) and t and t[0] == "@mysql::and" and len(t) == 3: return and3([eval3(w, x) for x in t[1:]])
    if isinstance(t, list) and t and t[0] == "@mysql::or" and len(t) == 3: return or3([eval3(w, x) for x in t[1:]])
    if isinstance(t, list) and t and t[0] == "@mysql::like" and len(t) == 3: return like3(w, value_tag(w, t[1]), value_tag(w, t[2]))
    if isinstance(t, list) and t and t[0] == "@mysql::in" and len(t) == 3 and value_tag(w, t[1]) == "L" and isinstance(t[2], list) and t[2][0] == "@convert_array" and is_members(w, t[2]): return in3(w)
    raise Unsupported("term %r" % (t,))
def h_exactly(eng, a, k):
    w, node, t = a
    (u1, t1), (u2, t2) = w.truth3(), eval3(w, t)
    return SBool(z3.And(u1 == u2, t1 == t2))
def h_query(eng, a, k): return Sub(a[1].w, a[1].o)
CONTRACT_SUMMARIES["having_term"] = {C.compiler: lambda eng, a, k: object.__new__(Compiler), C.result_condition: h_condition, C.result_of: lambda eng, a, k: HConfig(a[0]), C.table_of: lambda eng, a, k: {"table_name": Nm(a[0].pt), "columns": {}},
    C.unknown_column: h_unknown, C.evaluated_exactly: h_exactly, Compiler.is_column: s_is_column, Compiler.is_const: s_is_const, Compiler.parse_const: h_parse_const, Compiler.parse_column: h_parse_column, Compiler.parse_calculate: h_parse_calculate,
    Compiler.compile_column: h_compile_column, Compiler.compile_calculate: h_compile_calculate, Compiler.compile_query_condition: h_query, Compiler.compile_having_condition: h_having, Compiler.to_sql: lambda eng, a, k: "sql", all: m_all,
    X.GTE: bound(">="), X.LTE: bound("<="), X.GT: bound(">"), X.LT: bound("<"), X.EQ: bound("=="), X.NEQ: bound("!=")}
SYMS["result"] = lambda eng, name: HPlan(eng)
def h_setup(eng): eng.ghost["comprehension"] = h_comprehension
SETUP["having_term"] = h_setup
