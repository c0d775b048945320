from proofs.common import *
from contracts import C24 as C
from syncany.utils import CmpValue
ASSUMPTIONS = ["Python's sorted: a permutation ordered by the key, stable, also with reverse=True", "syncany's CmpValue orders the values of one column totally, NULL first"]
class World:
    """arbitrarily many rows and keys; two rows are looked at, r0 and s0"""
    def __init__(self, eng):
        self.eng, self.r0, self.s0 = eng, eng.fresh("r0", I), eng.fresh("s0", I)
        self.n, self.K = eng.fresh("rows", I), eng.fresh("keys", I)
        eng.assume(z3.And(self.n >= 0, self.K >= 0, self.r0 >= 0, self.r0 < self.n, self.s0 >= 0, self.s0 < self.n, self.r0 != self.s0))
    def rank(self, r, name): return self.eng.uf("rank", I, I, R)(r, name)      # place of the value of a column of a row among all values
    def name(self, k): return self.eng.uf("key_name", I, I)(k)
    def desc(self, k): return self.eng.uf("key_desc", I, B)(k)
    def spec(self):
        def step(i, st):
            k = z3.simplify(self.K - 1 - i); a, b = self.rank(self.r0, self.name(k)), self.rank(self.s0, self.name(k))
            return [z3.If(a == b, st[0], z3.If(self.desc(k), a > b, a < b))]
        return Fold(self.eng, "lex", [self.r0 < self.s0], step, self.K)
def world(eng):
    if "world" not in eng.ghost: eng.ghost["world"] = World(eng)
    return eng.ghost["world"]
class Name(M.LazyInstance):
    def __init__(self, t): self.t = t
class Row(M.LazyInstance):
    def __init__(self, w, r): self.w, self.r = w, r
    def getitem(self, eng, k): return Cell(self, k.t)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "get" and len(args) == 1: return Cell(self, args[0].t)
        raise Unsupported("row.%s" % name)
class Cell(M.LazyInstance):
    def __init__(self, row, name): self.row, self.name = row, name
class Cmp(M.LazyInstance):
    def __init__(self, cell, reverse): self.cell, self.reverse = cell, reverse
class Rows(M.LazyInstance):
    """the rows in some order: before(r0, s0) says which of the two rows looked at comes first"""
    def __init__(self, w, before): self.w, self.before = w, before
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.w.n)
    def truth(self, eng): return SBool(self.w.n > 0)
    def concretize(self, eng, m): return None
def m_sorted(eng, args, kw):
    rows, key, rev = args[0], kw.get("key"), kw.get("reverse", False)
    if not isinstance(rows, Rows) or key is None: raise Unsupported("sorted")
    w = rows.w
    rev = M.bool_of(eng.truth_term(rev)) if not isinstance(rev, bool) else z3.BoolVal(rev)
    def value(r):
        c = eng.call(key, [Row(w, r)])
        if not isinstance(c, Cmp): raise Unsupported("sort key %r" % (c,))
        if not z3.eq(c.cell.row.r, r): raise Unsupported("sort key of another row")
        v = w.rank(r, c.cell.name)
        return -v if c.reverse else v
    a, b = value(w.r0), value(w.s0)
    return Rows(w, z3.simplify(z3.If(a == b, rows.before, z3.If(rev, a > b, a < b))))
def cmpvalue(eng, args, kw):
    r = args[1] if len(args) > 1 else kw.get("reverse", False)
    if not isinstance(r, bool): r = eng.branch(M.bool_of(eng.truth_term(r)))
    if not isinstance(args[0], Cell): raise Unsupported("CmpValue(%r)" % (args[0],))
    return Cmp(args[0], r)
def sym_rows(eng, name):
    w = world(eng); return Rows(w, w.r0 < w.s0)
def sym_keys(eng, name):
    w = world(eng); return M.SSeq(w.K, lambda k: (Name(w.name(k)), SBool(w.desc(k))))
def is_arranged(eng, args, kw):
    got, rows, keys = args; w = world(eng)
    if not isinstance(got, Rows): raise Unsupported("the rows are %r" % (got,))
    return SBool(got.before == w.spec().state(w.K)[0])
class Calc: pass
SUMMARIES = {sorted: m_sorted, CmpValue: cmpvalue, C.is_arranged: is_arranged, C.calculater: lambda eng, args, kw: Calc()}
SYMS = {"rows": sym_rows, "keys": sym_keys}
def inv(eng, fr, st, i):
    w, f = world(eng), world(eng).spec()
    d = rows_of(fr)
    f.at(i)
    return [("arranged by the last keys", d.before == f.state(i)[0])]
def rows_of(fr):
    for v in fr.locals.values():
        if isinstance(v, Rows): last = v
    return fr.locals["datas"] if isinstance(fr.locals.get("datas"), Rows) else last
def havoc(eng, fr, st, i):
    w = world(eng); d = Rows(w, eng.fresh("before", B))
    for k, v in list(fr.locals.items()):
        if isinstance(v, E.Poison) or k == "datas": fr.locals[k] = d
LOOPS = {("syncanysql.calculaters.row_calculater:RowSortCalculater.calculate", 0): LoopSpec(inv, havoc)}

# ---- compile_order over an arbitrary clause, select list, schema and table
from syncanysql.compiler import Compiler
ASSUMPTIONS += ["compile_order: is_column, parse_column, to_sql and generate_sql give the parts of a name (equal parts for equal columns); a name that is no column of the select list is a column of the source",
    "a source orders by the columns of `orders`, and the rest of the plan keeps that order"]
class Nm(M.LazyInstance):
    """a name or text; 0 stands for a missing one"""
    def __init__(self, eng, t): self.eng, self.t = eng, t
    def truth(self, eng): return SBool(self.t != 0)
    def eq(self, eng, o): return SBool(self.t == o.t) if isinstance(o, Nm) else SBool(self.t == 0) if o is None else False
    def isinstance(self, eng, cls): return str in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "lower": return Nm(eng, eng.uf("lower", I, I)(self.t))
        raise Unsupported("text.%s" % name)
class Expr(M.LazyInstance):
    def __init__(self, kind, t): self.kind, self.t = kind, t
class ItemArgs(M.LazyInstance):
    def __init__(self, w, i): self.w, self.i = w, i
    def getitem(self, eng, k):
        if k == "this": return Expr("item", self.i)
        if k == "desc": return SBool(self.w.desc(self.i))
        raise Unsupported("order key argument %s" % k)
    def method(self, eng, name, args, kw):
        if name == "get": return self.getitem(eng, args[0])
        raise Unsupported(name)
    def getattr(self, eng, name): return E.SymMethod(self, name)
class Item(M.LazyInstance):
    def __init__(self, w, i): self.w, self.i = w, i
    def getattr(self, eng, name):
        if name == "args": return ItemArgs(self.w, self.i)
        if name == "this": return Expr("item", self.i)
        raise Unsupported("order key.%s" % name)
class Plan(M.LazyInstance):
    def __init__(self, eng):
        self.eng = eng
        self.N, self.M, self.k0 = eng.fresh("order_keys", I), eng.fresh("select_columns", I), eng.fresh("k0", I)
        self.pt = eng.fresh("primary_table", I); self.joined = eng.fresh("joined", B)
        eng.assume(z3.And(self.N >= 0, self.M >= 0, self.k0 >= 0, self.k0 < self.N, self.pt >= 0)); self.star = None
        eng.ghost["plan"] = self
    def u(self, name, *args): return self.eng.uf(name, *([I] * len(args) + [B if name[:3] in ("is_", "in_", "has") else I]))(*args)
    def desc(self, i): return self.eng.uf("descending", I, B)(i)
    def name(self, f, i):
        t = self.u(f, i); self.eng.axiom((f, t.get_id()), lambda: t > 0); return t
    def opt(self, f, i):
        t = self.u(f, i); self.eng.axiom((f, t.get_id()), lambda: t >= 0); return t
    # the select list
    def alias(self, j):
        t = self.name("alias", j); self.eng.axiom(("sel", t.get_id()), lambda: z3.Implies(z3.And(j >= 0, j < self.M), self.u("in_select", t))); return t
    def plain(self, a): return z3.And(self.u("in_select", a), self.u("is_sel_column", a))
    # what a key means
    def match(self, i, j):
        a = self.alias(j); tab = lambda t: z3.If(t != 0, t, self.pt)
        return z3.And(self.plain(a), self.name("sel_column", a) == self.name("key_column", i), self.opt("sel_cast", a) == self.opt("key_cast", i), tab(self.opt("sel_table", a)) == tab(self.opt("key_table", i)))
    def first(self, f, i, cond=None, at=()):
        t = self.u(f, i)
        self.eng.axiom((f, t.get_id()), lambda: z3.And(t >= 0, t <= self.M, *([z3.Implies(t < self.M, cond(i, t))] if cond else [])))
        for j in at: self.eng.axiom((f, t.get_id(), z3.simplify(j).get_id()), lambda: z3.Implies(z3.And(j >= 0, j < self.M, cond(i, j)), t <= j))
        return t
    def by_name(self, i): return z3.And(self.opt("key_table", i) == 0, self.opt("key_cast", i) == 0, self.u("in_schema", self.name("key_column", i)))
    def bad(self, i):
        if self.star: return z3.Not(self.u("is_key_column", i))
        return z3.And(z3.Not(self.u("is_key_column", i)), z3.Not(self.u("in_schema", self.name("key_sql", i))), self.first("first_text", i) >= self.M, self.first("first_same", i) >= self.M)
    def out(self, i):
        """the output column it names, 0 when none"""
        if self.star: return self.name("key_column", i)
        f = self.first("first_match", i, self.match); t, s = self.first("first_text", i), self.first("first_same", i)
        return z3.If(self.u("is_key_column", i), z3.If(self.by_name(i), self.name("key_column", i), z3.If(f < self.M, self.alias(f), 0)),
                     z3.If(self.u("in_schema", self.name("key_sql", i)), self.name("key_sql", i), z3.If(t < self.M, self.alias(t), z3.If(s < self.M, self.alias(s), 0))))
    def source(self, i):
        """the column of the primary table it is, 0 when none"""
        c = self.name("key_column", i)
        if self.star: return z3.If(self.u("is_key_column", i), c, 0)
        tab = lambda t: z3.And(self.pt != 0, z3.Or(t == 0, t == self.pt))
        a = z3.If(z3.And(self.plain(c), z3.Not(self.u("is_sel_typed", c)), tab(self.opt("sel_table", c))), self.name("sel_column", c), 0)
        foreign = z3.And(self.opt("key_table", i) == 0, self.joined, z3.Not(self.u("in_primary", c)))
        b = z3.If(z3.And(z3.Not(foreign), z3.Not(self.u("is_key_typed", i)), tab(self.opt("key_table", i))), c, 0)
        return z3.If(self.u("is_key_column", i), z3.If(self.by_name(i), a, b), 0)
    def all_sources(self): return Fold(self.eng, "all_sources", [z3.BoolVal(True)], lambda i, st: [z3.And(st[0], self.source(i) != 0)], self.N)
    def concretize(self, eng, m): return None
class Names(M.LazyInstance):
    def __init__(self, w, f, isdict=True): self.w, self.f, self.isdict = w, f, isdict
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return SBool(eng.fresh("nonempty", B))
    def contains(self, eng, k): return False if k is None else SBool(z3.And(k.t != 0, self.w.u(self.f, k.t)))
class SelectColumns(Names):
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def seq(self, kind):
        w = self.w
        if kind == "items": return M.SSeq(w.M, lambda j: (Nm(w.eng, w.alias(j)), Expr("select", w.alias(j))))
        return M.SSeq(w.M, lambda j: Nm(w.eng, w.alias(j)))
    def getitem(self, eng, k):
        if not eng.branch(self.w.u(self.f, k.t)): eng.raise_(KeyError, "no such column")
        return Expr("select", k.t)
    def method(self, eng, name, args, kw):
        if name in ("items", "keys"): return self.seq(name)
        if name == "get": return Expr("select", args[0].t) if eng.branch(self.w.u(self.f, args[0].t)) else (args[1] if len(args) > 1 else None)
        raise Unsupported("select_columns.%s" % name)
class Keys(M.LazyInstance):
    """a list of (name, direction)"""
    def __init__(self, eng, n, name, desc): self.eng, self.n, self.name, self.desc = eng, n, name, desc
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.n)
    def truth(self, eng): return SBool(self.n > 0)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append": raise Unsupported("list.%s" % name)
        M.log_write(eng, self)
        k, d = args[0]
        k = z3.IntVal(0) if k is None else k.t
        d = M.bool_of(d) if not isinstance(d, bool) else z3.BoolVal(d)
        n0, f, g = self.n, self.name, self.desc
        self.n = z3.simplify(n0 + 1)
        self.name, self.desc = (lambda i: z3.If(i == n0, k, f(i))), (lambda i: z3.If(i == n0, d, g(i)))
        return None
class Orders(M.LazyInstance):
    def __init__(self): self.value = None
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "extend" or self.value is not None: raise Unsupported("orders.%s" % name)
        M.log_write(eng, self); self.value = args[0]; return None
def as_keys(eng, v):
    if isinstance(v, Keys): return v
    if isinstance(v, list) and not v: return Keys(eng, z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: z3.BoolVal(False))
    if isinstance(v, list):
        k = Keys(eng, z3.IntVal(0), lambda i: z3.IntVal(0), lambda i: z3.BoolVal(False))
        for x in v: k.method(eng, "append", [x], {})
        return k
    raise Unsupported("keys %r" % (v,))
def s_is_column(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if not isinstance(e, Expr): raise Unsupported("is_column")
    return SBool(w.u("is_key_column", e.t) if e.kind == "item" else w.u("is_sel_column", e.t))
def s_parse_column(eng, a, k):
    e, w = a[1], eng.ghost["plan"]
    if not isinstance(e, Expr): raise Unsupported("parse_column")
    p = "key" if e.kind == "item" else "sel"
    typed, cast = w.u("is_%s_typed" % p, e.t), w.opt(p + "_cast", e.t)
    eng.axiom(("cast", typed.get_id()), lambda: z3.Implies(cast != 0, typed))
    return {"table_name": Nm(eng, w.opt(p + "_table", e.t)), "column_name": Nm(eng, w.name(p + "_column", e.t)), "typing_filters": SBool(typed), "convert_typing_filter": Nm(eng, cast), "expression": e}
def s_sql(f):
    def g(eng, a, k):
        e, w = a[1], eng.ghost["plan"]
        if not isinstance(e, Expr): return "the clause"
        return Nm(eng, w.name("key_" + f if e.kind == "item" else "sel_" + f, e.t))
    return g
class First(M.LazyInstance):
    """the members of the select list that satisfy a condition, in order"""
    def __init__(self, w, f, get): self.w, self.f, self.get = w, f, get
    def truth(self, eng): return SBool(self.f < self.w.M)
    def len(self, eng): raise Unsupported("number of matches")
    def getitem(self, eng, k):
        if k != 0: raise Unsupported("a later match")
        if not eng.branch(self.f < self.w.M): eng.raise_(IndexError, "no match")
        return self.get(self.f)
def o_comprehension(eng, e, fr):
    w = eng.ghost["plan"]
    if len(e.generators) != 1 or isinstance(e, E.ast.GeneratorExp): return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if isinstance(it, SelectColumns): it = it.seq("keys")
    if not isinstance(it, M.SSeq): return None
    def at(i, node):
        inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
        inner.localnames = set(); inner.node = fr.node
        eng.assign(g.target, it.get(i), inner)
        return eng.eval(node, inner)
    if not g.ifs: return M.SSeq(it.n, lambda i: at(i, e.elt))
    j = z3.Int("J"); t = z3.And([zb(eng, at(j, c)) for c in g.ifs]) if len(g.ifs) > 1 else zb(eng, at(j, g.ifs[0]))
    if not (z3.is_eq(t) and t.num_args() == 2): raise Unsupported("filter %s" % t)
    sides = [t.arg(0), t.arg(1)]
    low = all(s.decl().name() == "lower" for s in sides)
    if low: sides = [s.arg(0) for s in sides]
    by = {s.decl().name(): s for s in sides}
    if set(by) != {"key_text", "sel_text"} or not z3.eq(z3.simplify(by["sel_text"].arg(0)), z3.simplify(w.alias(j))): raise Unsupported("filter %s" % t)
    return First(w, w.first("first_same" if low else "first_text", by["key_text"].arg(0)), lambda i: at(i, e.elt))
def s_config(eng, a, k):
    w, star = a; w.star = star
    w.pipelines, w.orders = [], Orders()
    return {"schema": "$.*" if star else Names(w, "in_schema"), "pipelines": w.pipelines, "orders": w.orders, "querys": {}}
def s_table(eng, a, k):
    w = a[0]
    return {"table_name": Nm(eng, w.pt), "select_columns": SelectColumns(w, "in_select"), "columns": Names(w, "in_primary"), "name": "t"}
class Joins(M.LazyInstance):
    def __init__(self, w): self.w = w
    def truth(self, eng): return SBool(self.w.joined)
    def len(self, eng): return SInt(z3.If(self.w.joined, 1, 0))
def s_arranged_by(eng, a, k):
    w, ok, config = a
    ok = ok if isinstance(ok, bool) else eng.branch(M.bool_of(ok))
    alls = w.all_sources().state(w.N)[0]; k0 = w.k0
    w.all_sources().at(k0)
    if not ok:
        g = eng.ghost.get("at", {})
        i1, i2 = g.get(0), g.get(2)
        legit = []
        if i1 is not None: legit.append(z3.And(i1 >= 0, i1 < w.N, w.bad(i1)))
        if i2 is not None: legit.append(z3.Or(i2 != k0, z3.And(i2 >= 0, i2 < w.N, z3.Not(alls), z3.Or(w.out(i2) == 0, z3.Not(w.u("in_schema", w.out(i2)))))))      # k0 is any position, in particular the one refused
        return SBool(z3.Or(legit)) if legit else False
    p, o = w.pipelines, w.orders.value
    none = w.N == 0
    if not p:
        if o is None: return SBool(none)
        o = as_keys(eng, o)
        return SBool(z3.And(o.n == w.N, alls, o.name(k0) == w.source(k0), o.desc(k0) == w.desc(k0)))
    if len(p) != 1 or o is not None or len(p[0]) != 3 or p[0][0] != ">>@row_sort" or p[0][1] != "$.*|array": return False
    s = as_keys(eng, p[0][2])
    return SBool(z3.And(s.n == w.N, s.name(k0) == w.out(k0), s.desc(k0) == w.desc(k0), *([] if w.star else [w.out(k0) != 0, w.u("in_schema", w.out(k0))])))
O = "syncanysql.compiler:Compiler.compile_order"
def keys_inv(eng, fr, st, i):
    w = eng.ghost["plan"]; k0 = w.k0
    eng.ghost.setdefault("at", {})[0] = i
    s, p = as_keys(eng, fr.locals["sort_keys"]), as_keys(eng, fr.locals["primary_sort_keys"])
    f = w.all_sources(); f.at(i)
    seen = k0 < i
    return [("one output key per key", s.n == i), ("it names the column", z3.Implies(seen, s.name(k0) == w.out(k0))), ("in its direction", z3.Implies(seen, s.desc(k0) == w.desc(k0))),
            ("source keys", z3.And(p.n >= 0, p.n <= i, (p.n == i) == f.state(i)[0])), ("each is the source column", z3.Implies(z3.And(seen, p.n == i), z3.And(p.name(k0) == w.source(k0), p.desc(k0) == w.desc(k0)))),
            ("the keys so far are known", z3.Implies(seen, z3.Not(w.bad(k0))))]
def fresh_keys(eng, name):
    f, g = eng.fresh(name + "_name", z3.ArraySort(I, I)), eng.fresh(name + "_desc", z3.ArraySort(I, B))
    return Keys(eng, eng.fresh(name + "_n", I), lambda i: z3.Select(f, i), lambda i: z3.Select(g, i))
def keys_havoc(eng, fr, st, i):
    eng.ghost.setdefault("at", {})[0] = i
    fr.locals["sort_keys"], fr.locals["primary_sort_keys"] = fresh_keys(eng, "sort"), fresh_keys(eng, "primary")
def match_inv(eng, fr, st, j):
    w = eng.ghost["plan"]; i = eng.ghost["at"][0]
    f = w.first("first_match", i, w.match, at=(j,))
    r = [("no earlier select column matches", j <= f)]
    if not isinstance(fr.locals.get("column_alias"), E.Poison): r.append(("no column found yet", fr.locals.get("column_alias") is None))
    return r
def match_havoc(eng, fr, st, j):
    fr.locals["column_alias"] = None
def check_inv(eng, fr, st, i):
    w = eng.ghost["plan"]
    eng.ghost.setdefault("at", {})[2] = i
    s = fr.locals["sort_keys"]
    return [("the keys so far are output columns", z3.Implies(w.k0 < i, z3.And(w.out(w.k0) != 0, w.u("in_schema", w.out(w.k0))) if not w.star else True))]
ORDER_LOOPS = {(O, 0): LoopSpec(keys_inv, keys_havoc, modifies=lambda eng, fr, st: [fr.locals["sort_keys"], fr.locals["primary_sort_keys"]], seq=lambda eng, it: (it.n, it.get)),
    (O, 1): LoopSpec(match_inv, match_havoc, seq=lambda eng, it: (lambda s: (s.n, s.get))(it.seq("keys") if isinstance(it, SelectColumns) else it)),
    (O, 2): LoopSpec(check_inv, lambda eng, fr, st, i: None, seq=lambda eng, it: (as_keys(eng, it).n, lambda i: (Nm(eng, it.name(i)), SBool(it.desc(i)))))}
CONTRACT_LOOPS = {"order_plan": ORDER_LOOPS}
CONTRACT_SUMMARIES = {"order_plan": {C.compiler: lambda eng, a, k: object.__new__(Compiler), C.order_keys_of: lambda eng, a, k: M.SSeq(a[0].N, lambda i: Item(a[0], i)), C.config_of: s_config, C.table_of: s_table,
    C.joins_of: lambda eng, a, k: Joins(a[0]), C.arranged_by: s_arranged_by, Compiler.is_column: s_is_column, Compiler.parse_column: s_parse_column, Compiler.to_sql: s_sql("sql"), Compiler.generate_sql: s_sql("text")}}
SYMS["plan"] = lambda eng, name: Plan(eng)
def o_setup(eng): eng.ghost["comprehension"] = o_comprehension
SETUP = {"order_plan": o_setup}
