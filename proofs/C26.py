from proofs.common import *
from contracts import C26 as C
ASSUMPTIONS = ["rows: equality of rows is an equivalence, equal rows have the same hash and are hashable alike (the values of a column; not a frozenset next to a set)",
    "compile_union: is_column, to_sql and sqlglot's tree classes as in the source of the dependency; compile_query gives some plan of the select it is given"]
# ---- arbitrary rows: a row is its position; its values are looked up by name
class Name(M.LazyInstance):
    def __init__(self, t): self.t = t
class Value(M.LazyInstance):
    """the value of a column of a row (NULL when the row has no such column)"""
    def __init__(self, r, name): self.r, self.name = r, name
class Row(M.LazyInstance):
    def __init__(self, w, r): self.w, self.r = w, r
    def isinstance(self, eng, cls): return dict in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def has(self, name): return self.w.eng.uf("has_column", I, I, B)(self.r, name.t)
    def getitem(self, eng, k):
        if not isinstance(k, Name): raise Unsupported("row[%r]" % (k,))
        if not eng.branch(self.has(k)): eng.raise_(KeyError, "no such column")
        return Value(self.r, k.t)
    def contains(self, eng, k): return SBool(self.has(k))
    def method(self, eng, name, args, kw):
        if name == "get" and (len(args) == 1 or len(args) == 2 and args[1] is None): return Value(self.r, args[0].t)
        if name in ("items", "keys", "values"): return Columns(self, name, False)
        if name == "copy": return self
        raise Unsupported("row.%s" % name)
    def iterate(self, eng): raise Unsupported("loop over the columns of a row")
class Columns(M.LazyInstance):
    """all columns of a row: as names, values or pairs; in the order of the row or of the names"""
    def __init__(self, row, what, ordered): self.row, self.what, self.ordered = row, what, ordered
class Class(M.LazyInstance):
    """a value that is equal for equal rows and different for different ones"""
    def __init__(self, row): self.row = row
class Rows(M.LazyInstance):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.w.n)
    def truth(self, eng): return SBool(self.w.n > 0)
    def concretize(self, eng, m): return None
    spec = property(lambda self: DISTINCT)
class World:
    def __init__(self, eng):
        self.eng = eng
        self.n, self.K, self.r0, self.k0 = eng.fresh("rows", I), eng.fresh("names", I), eng.fresh("r0", I), eng.fresh("k0", I)
        eng.assume(z3.And(self.n >= 0, self.K >= 0, self.r0 >= 0, self.r0 < self.n, self.k0 >= 0, self.k0 < self.K))
    def old(self, k): return self.eng.uf("old_name", I, I)(k)
    def new(self, k): return self.eng.uf("new_name", I, I)(k)
    def cls(self, r): return self.eng.uf("class", I, I)(r)
    def unhashable(self, r): return self.eng.uf("unhashable_row", I, B)(self.cls(r))
    def first(self, r):
        """the first row equal to row r"""
        f = self.eng.uf("first_of_class", I, I)(self.cls(r))
        self.eng.axiom(("first", r.get_id() if hasattr(r, "get_id") else r), lambda: z3.Implies(z3.And(r >= 0, r < self.n), z3.And(f >= 0, f <= r, self.cls(f) == self.cls(r))))
        return f
def world(eng):
    if "world" not in eng.ghost: eng.ghost["world"] = World(eng)
    return eng.ghost["world"]
class Calc: pass
def at(eng, fr, target, x, node):
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    eng.assign(target, x, inner)
    return eng.eval(node, inner)
class Mapped(M.LazyInstance):
    """[f(row) for row in rows]: f at the row looked at"""
    def __init__(self, w, r, item): self.w, self.r, self.item = w, r, item
    def isinstance(self, eng, cls): return list in cls
class NewRow(M.LazyInstance):
    """{key: value for .. in names}: at the name looked at"""
    def __init__(self, key, value): self.key, self.value = key, value
def comprehension(eng, e, fr):
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if isinstance(it, Rows): return Mapped(it.w, it.w.r0, at(eng, fr, g.target, Row(it.w, it.w.r0), e.elt))
    if isinstance(it, Columns):
        # (name, row[name]) for each column of the row, in the order of the names: equal for equal rows only
        n = Name(eng.fresh("column", I))
        r = it.row
        if it.what == "keys":
            eng.assume(r.has(n)); x = at(eng, fr, g.target, n, e.elt)
        elif it.what == "items":
            eng.assume(r.has(n)); x = at(eng, fr, g.target, (n, Value(r.r, n.t)), e.elt)
        else: raise Unsupported("comprehension over values")
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Name) and x[0].t is n.t and isinstance(x[1], Value) and x[1].r is r.r and x[1].name is n.t: return Columns(r, "items", it.ordered)
        raise Unsupported("columns as %r" % (x,))
    return None
def dictcomp(eng, e, fr):
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if not isinstance(it, M.SSeq): return None
    w = world(eng); x = it.get(w.k0)
    return NewRow(at(eng, fr, g.target, x, e.key), at(eng, fr, g.target, x, e.value))
def has_names(eng, args, kw):
    got, rows, names = args; w = world(eng)
    if isinstance(got, Rows): raise Unsupported("the rows themselves")
    if not isinstance(got, Mapped) or not isinstance(got.item, NewRow): raise Unsupported("the rows are %r" % (got,))
    key, value = got.item.key, got.item.value
    if not isinstance(key, Name) or not isinstance(value, Value): return False
    return SBool(z3.And(key.t == w.new(w.k0), value.r == w.r0, value.name == w.old(w.k0)))
# ---- duplicates
class Keys(M.LazyInstance):
    """the classes of the (hashable) rows before position i"""
    def __init__(self, w, i): self.w, self.i = w, i
    def isinstance(self, eng, cls): return set in cls
    def truth(self, eng): raise Unsupported("truth of the keys")
    def has(self, r): return z3.And(self.w.first(r) < self.i, z3.Not(self.w.unhashable(r)))
    def contains(self, eng, x):
        r = class_of(eng, x)
        if eng.branch(self.w.unhashable(r)): eng.raise_(TypeError, "unhashable type")
        return SBool(self.has(r))
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "add": raise Unsupported("keys.%s" % name)
        r = class_of(eng, args[0])
        if eng.branch(self.w.unhashable(r)): eng.raise_(TypeError, "unhashable type")
        M.log_write(eng, self); eng.ghost["added"] = r
        return None
def class_of(eng, x):
    """the row a key stands for: the pairs of names and values in the order of the names, as a tuple"""
    if isinstance(x, Class): return x.row.r
    raise Unsupported("key %r" % (x,))
class Out(M.LazyInstance):
    """the rows before position i that are the first of their class"""
    def __init__(self, w, i): self.w, self.i = w, i
    def isinstance(self, eng, cls): return list in cls
    def contains(self, eng, x):
        if not isinstance(x, Row): raise Unsupported("%r in rows" % (x,))
        return SBool(self.w.first(x.r) < self.i)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append" or not isinstance(args[0], Row): raise Unsupported("rows.%s" % name)
        M.log_write(eng, self)
        if eng.ghost["appended"] is not None: raise Unsupported("a row twice")
        eng.ghost["appended"] = args[0].r
        return None
def entry(eng, fr, st):
    w = world(eng)
    for k, v in list(fr.locals.items()):
        if isinstance(v, set) and not v or isinstance(v, M.SSet): fr.locals[k] = Keys(w, z3.IntVal(0))
        elif isinstance(v, list) and not v: fr.locals[k] = Out(w, z3.IntVal(0))
    eng.ghost["added"] = eng.ghost["appended"] = None
def inv(eng, fr, st, i):
    w = world(eng); out = []
    for v in fr.locals.values():
        if isinstance(v, Keys):
            added = eng.ghost["added"]
            if added is None: out.append(("keys so far", z3.And(v.i == i) if added is None and not st.get("body") else z3.BoolVal(True)))
        if isinstance(v, Out) and not st.get("body"): out.append(("rows so far", v.i == i))
    if st.get("body"):
        j = st["j"]; f = w.first(j); a, d = eng.ghost["appended"], eng.ghost["added"]
        out.append(("the row is kept exactly when no equal row came before", (z3.And(a == j, f == j) if a is not None else f < j)))
        keys = [v for v in fr.locals.values() if isinstance(v, Keys)]
        if keys: out.append(("its key is remembered", z3.Or(w.unhashable(j), f < j, d == j if d is not None else z3.BoolVal(False))))
    return out
def havoc(eng, fr, st, i):
    w = world(eng)
    for k, v in list(fr.locals.items()):
        if isinstance(v, Keys): fr.locals[k] = Keys(w, i)
        elif isinstance(v, Out): fr.locals[k] = Out(w, i)
    eng.ghost["added"] = eng.ghost["appended"] = None
    st["pending"] = i
def seq(eng, it):
    def get(i): return Row(it.w, i)
    return it.w.n, get
class Distinct(LoopSpec):
    def _body(self, eng, s, fr, st):
        st["body"], st["j"] = True, st["pending"]
        w = world(eng); w.first(st["j"])
        super()._body(eng, s, fr, st)
DISTINCT = Distinct(inv, havoc, seq=seq, entry=entry, modifies=lambda eng, fr, st: [v for v in fr.locals.values() if isinstance(v, (Keys, Out))])
def without_duplicates(eng, args, kw):
    got, rows = args; w = world(eng)
    if not isinstance(got, Out): raise Unsupported("the rows are %r" % (got,))
    return SBool(got.i == w.n)
def m_sorted(eng, args, kw):
    x = args[0]
    if kw: raise Unsupported("sorted(.., %s)" % ", ".join(kw))
    if isinstance(x, Row): return Columns(x, "keys", True)
    if isinstance(x, Columns) and x.what in ("keys", "items"): return Columns(x.row, x.what, True)
    return NotImplemented
def m_tuple(eng, args, kw):
    x = args[0] if args else ()
    if isinstance(x, Columns) and x.what == "items" and x.ordered: return Class(x.row)
    return NotImplemented
# ---- the plan of a union
from proofs.C25 import Text, plain, Obj, Name as Token
from syncanysql.compiler import Compiler
from syncanysql import compiler as CM
from sqlglot import expressions as X
import uuid
KEYS = ("order", "limit", "offset")
class Union:
    """selects 0..n-1 with an operator after each but the last; L: the last UNION without ALL (-1: none); F: the first select whose columns are known"""
    def __init__(self, eng):
        self.eng = eng
        self.n, self.L, self.F = eng.fresh("selects", I), eng.fresh("last_distinct", I), eng.fresh("first_named", I)
        eng.assume(z3.And(self.n >= 2, self.L >= -1, self.L <= self.n - 2, self.F >= 0))
        eng.assume(z3.Implies(self.L >= 0, self.distinct(self.L)))
        self.calls, self.accs, self.names, self.unique, self.taken, self.body = [], None, {}, 0, False, False
        self.root = Sub(self, z3.IntVal(0), self.n)
    def distinct(self, j):
        d = self.eng.uf("without_all", I, B)(j)
        self.eng.assume(z3.Implies(z3.And(j > self.L, j <= self.n - 2), z3.Not(d))); return d
    def whole(self): return self.L == self.n - 2
    def prefix(self): return z3.And(z3.Not(self.whole()), self.L >= 0)
    def is_sub(self, k): return self.eng.uf("in_parentheses", I, B)(k)
    def leaf_has(self, k, key): return self.eng.uf("select_has_" + key, I, B)(k)
    def tree_has(self, lo, hi, key): return self.eng.uf("tree_has_" + key, I, I, B)(lo, hi)
    def named(self, j):
        d = self.eng.uf("columns_known", I, B)(j)
        self.eng.assume(z3.And(z3.Implies(j < self.F, z3.Not(d)), z3.Implies(j == self.F, d))); return d
    def count(self, j): return self.eng.uf("number_of_columns", I, I)(j)
    def same_names(self, j):
        s = self.eng.uf("same_names", I, B)(j)
        self.eng.assume(z3.Implies(s, self.count(j) == self.count(self.F))); return s
    def fit(self, i):
        j = z3.Int("j"); return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i, self.eng.uf("columns_known", I, B)(j)), self.count(j) == self.count(self.F)), patterns=[self.count(j)])
def union(eng):
    if "union" not in eng.ghost: eng.ghost["union"] = Union(eng)
    return eng.ghost["union"]
class Parts(Obj):
    """args of an expression"""
    def __init__(self, get): self.get = get
    def getitem(self, eng, k): return self.get(eng, k)
    def method(self, eng, name, args, kw):
        if name == "get" and len(args) == 1: return self.get(eng, args[0])
        raise Unsupported("args.%s" % name)
class Modifier(Obj):
    """ORDER BY, LIMIT or OFFSET of the union, or of a select that is not the last"""
    def __init__(self, key): self.key = key
    def getattr(self, eng, name):
        if name == "args": return Parts(lambda eng, k: ModifierPart(self.key, k))
        raise Unsupported("modifier.%s" % name)
class ModifierPart(Obj):
    def __init__(self, key, part): self.key, self.part = key, part
class Sub(Obj):
    """the part of the tree with the selects lo..hi-1"""
    def __init__(self, u, lo, hi): self.u, self.lo, self.hi, self.parts = u, lo, hi, {}
    def isinstance(self, eng, cls):
        if eng.branch(self.hi - self.lo > 1): return any(isinstance(c, type) and issubclass(X.Union, c) for c in cls)
        return Item(self.u, self.lo).isinstance(eng, cls)
    def getattr(self, eng, name):
        if name == "args": return Parts(self.part)
        raise Unsupported("union.%s" % name)
    def part(self, eng, k):
        if not eng.branch(self.hi - self.lo > 1): raise Unsupported("part %s of a select" % k)
        if k in KEYS:
            if k not in self.parts: self.parts[k] = Modifier(k) if eng.branch(eng.uf("node_has_" + k, I, I, B)(self.lo, self.hi)) else None
            return self.parts[k]
        if "m" not in self.parts:
            m = self.parts["m"] = eng.uf("middle", I, I, I)(self.lo, self.hi)
            eng.assume(z3.And(self.lo < m, m < self.hi))
            self.parts["this"], self.parts["expression"] = Sub(self.u, self.lo, m), Sub(self.u, m, self.hi)
            for key in KEYS: eng.assume(self.u.tree_has(self.lo, self.hi, key) == z3.Or(eng.uf("node_has_" + key, I, I, B)(self.lo, self.hi), *[z3.And(c.hi - c.lo > 1, self.u.tree_has(c.lo, c.hi, key)) for c in (self.parts["this"], self.parts["expression"])]))
        if k in ("this", "expression"): return self.parts[k]
        if k == "distinct": return SBool(self.u.distinct(self.parts["m"] - 1))
        raise Unsupported("union[%s]" % k)
class Acc(Obj):
    """a list that parsing fills: the selects, or the operators between them"""
    def __init__(self, u, kind): self.u, self.kind, self.count = u, kind, z3.IntVal(0)
    def isinstance(self, eng, cls): return list in cls
    def method(self, eng, name, args, kw):
        if name != "append": raise Unsupported("list.%s" % name)
        x, = args; M.log_write(eng, self); c = self.count
        if self.kind == "selects":
            if not isinstance(x, Sub): raise Unsupported("select %r" % (x,))
            eng.prove("selects in order", z3.And(x.hi - x.lo == 1, x.lo == c))
        elif isinstance(x, (bool, SBool)): eng.prove("operators in order", (x.t if isinstance(x, SBool) else z3.BoolVal(x)) == self.u.distinct(c))
        else: raise Unsupported("operator %r" % (x,))
        self.count = c + 1
    def parsed(self, eng, lo, hi): eng.prove("parts in order", self.count == lo); self.count = hi if self.kind == "selects" else hi - 1
class Probe(Obj):
    """a union of two selects, to see which list parsing fills with what"""
    def __init__(self, cls, parts): self.cls, self.parts = cls, parts
    def isinstance(self, eng, cls): return any(isinstance(c, type) and issubclass(self.cls, c) for c in cls)
    def truth(self, eng): return True
    def getattr(self, eng, name):
        if name == "args": return Parts(lambda eng, k: self.parts.get(k))
        raise Unsupported("probe.%s" % name)
def kinds_of(eng, f, lists):
    eng.call_node(f.node, f.frame.globals, [Probe(X.Union, {"this": Probe(X.Select, {}), "expression": Probe(X.Select, {}), "distinct": True})], {}, f.defaults, f.kwdefaults, parent=f.frame, qualname=f.__qualname__)
    kinds = {k: "selects" if all(isinstance(x, Probe) for x in f.frame.locals[k]) else "operators" for k in lists}
    for k in lists: f.frame.locals[k].clear()
    if sorted(kinds.values()) != ["operators", "selects"]: raise Unsupported("what parsing fills")
    return kinds
class Mods(Obj):
    """the modifiers found: key -> ModifierFound"""
    def __init__(self, has): self.has = has
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return SBool(z3.Or(*self.has.values()))
    def contains(self, eng, k): self.outside(eng); return SBool(self.has[k])
    def outside(self, eng):
        if union(eng).body: raise Unsupported("modifiers read in a loop")
    def setitem(self, eng, k, v):
        if k not in KEYS or not isinstance(v, Modifier) or v.key != k: raise Unsupported("modifiers[%r] = %r" % (k, v))
        M.log_write(eng, self); self.has[k] = z3.BoolVal(True)
    def getitem(self, eng, k):
        self.outside(eng)
        if not eng.branch(self.has[k]): eng.raise_(KeyError, k)
        return Modifier(k)
    def method(self, eng, name, args, kw):
        self.outside(eng)
        if name == "get" and len(args) == 1: return Modifier(args[0]) if eng.branch(self.has[args[0]]) else None
        raise Unsupported("modifiers.%s" % name)
    def items(self, eng): return [(k, Modifier(k)) for k in KEYS if eng.branch(self.has[k])]
def nested(eng, f, args, kw):
    """a nested function called with a part of the tree: its body for the union as a whole, the induction hypothesis below"""
    u = union(eng); x = args[0] if args else None
    if not isinstance(x, Sub) or not (x is u.root or u.accs): return NotImplemented
    if x is u.root:
        if u.accs is not None: raise Unsupported("parsed twice")
        fr = f.frame; u.accs = []
        kinds = kinds_of(eng, f, [k for k, v in fr.locals.items() if isinstance(v, list) and not v])
        for k, kind in kinds.items(): fr.locals[k] = Acc(u, kind); u.accs.append(fr.locals[k])
        mods = [k for k, v in fr.locals.items() if isinstance(v, dict) and not v]
        if len(mods) != 1: raise Unsupported("what parsing fills")
        u.modifiers = fr.locals[mods[0]] = Mods({k: z3.BoolVal(False) for k in KEYS})
        if eng.branch(eng.uf("look_at_parsing", B)()):
            eng.call_node(f.node, fr.globals, args, kw, f.defaults, f.kwdefaults, parent=fr, qualname=f.__qualname__)
            for a in u.accs: eng.prove("all %s" % a.kind, a.count == (u.n if a.kind == "selects" else u.n - 1))
            for key in KEYS: eng.prove("modifiers of the whole are found", u.modifiers.has[key] == u.tree_has(u.root.lo, u.root.hi, key))
            raise E.PathEnd()
        for k, kind in kinds.items(): fr.locals[k] = Items(u, u.n, lambda j: Item(u, j)) if kind == "selects" else Flags(u)
        u.modifiers.has = {k: u.tree_has(u.root.lo, u.root.hi, k) for k in KEYS}
        u.accs = []; return None
    eng.prove("the hypothesis is used for a smaller union", z3.And(x.hi - x.lo > 1, x.hi - x.lo < u.n))
    for a in u.accs: M.log_write(eng, a); a.parsed(eng, x.lo, x.hi)
    M.log_write(eng, u.modifiers)
    for key in KEYS: u.modifiers.has[key] = z3.Or(u.modifiers.has[key], u.tree_has(x.lo, x.hi, key))
    return None
class Flags(Obj):
    def __init__(self, u, rev=False): self.u, self.rev = u, rev
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.u.n - 1)
    def truth(self, eng): return True
    def getitem(self, eng, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, -1): return Flags(self.u, not self.rev)
        if k == -1 and not self.rev or k == 0 and self.rev: return SBool(self.u.distinct(self.u.n - 2))
        raise Unsupported("operator %r" % (k,))
    def method(self, eng, name, args, kw):
        if name == "index" and self.rev and args == [True]:
            if not eng.branch(self.u.L >= 0): eng.raise_(ValueError, "not in list")
            return SInt(self.u.n - 2 - self.u.L)
        raise Unsupported("operators.%s" % name)
class Item(Obj):
    """select k, or what its parentheses enclose; without the modifiers removed; its columns renamed or not"""
    def __init__(self, u, k, inner=False, removed=(), copied=False, renamed=False): self.u, self.k, self.inner, self.removed, self.copied, self.renamed = u, k, inner, set(removed), copied, renamed
    def isinstance(self, eng, cls):
        if self.inner: c = X.Select if eng.branch(eng.uf("encloses_select", I, B)(self.k)) else X.Union
        else: c = X.Subquery if eng.branch(self.u.is_sub(self.k)) else X.Select
        return any(isinstance(x, type) and issubclass(c, x) for x in cls)
    def getattr(self, eng, name):
        if name == "args": return Parts(self.part)
        return E.SymMethod(self, name)
    def part(self, eng, k):
        if k == "this" and not self.inner and eng.branch(self.u.is_sub(self.k)): return Item(self.u, self.k, True)
        if k in KEYS and self.u.body: raise Unsupported("modifiers of a select read in a loop")
        if k in KEYS and not self.inner: return Modifier(k) if k not in self.removed and eng.branch(self.u.leaf_has(self.k, k)) else None
        if k == "expressions": return SelectList(self)
        raise Unsupported("select[%s]" % k)
    def method(self, eng, name, args, kw):
        if name == "copy": return Item(self.u, self.k, self.inner, self.removed, True, self.renamed)
        if name == "set" and len(args) == 2 and args[0] in KEYS and args[1] is None:
            if not self.copied: raise Unsupported("change of the statement")
            M.log_write(eng, self); self.removed.add(args[0]); self.u.taken = True; return None
        raise Unsupported("select.%s" % name)
    def without(self, eng):
        """only the last select gives its modifiers to the whole"""
        u = self.u; last = self.k == u.n - 1
        for key in KEYS:
            taken = z3.And(last, z3.Not(u.is_sub(self.k)), u.leaf_has(self.k, key))
            eng.prove("only the last select gives its modifiers to the whole", z3.And(z3.Implies(taken, z3.BoolVal(key in self.removed)), z3.Implies(z3.Not(last), z3.BoolVal(key not in self.removed))))
class Dist(Obj):
    """the union without duplicates of the selects 0..hi-1"""
    def __init__(self, u, hi): self.u, self.hi = u, hi
    def isinstance(self, eng, cls): return any(isinstance(c, type) and issubclass(X.Union, c) for c in cls)
class Items(Obj):
    """a list of n selects"""
    def __init__(self, u, n, get): self.u, self.n, self.get = u, n, get
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.n)
    def truth(self, eng): return SBool(self.n > 0)
    def pos(self, x, default): return default if x is None else x.t if isinstance(x, SInt) else self.n + x if x < 0 else z3.IntVal(x)
    def getitem(self, eng, k):
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported("step")
            a, b = self.pos(k.start, z3.IntVal(0)), self.pos(k.stop, self.n)
            eng.prove("positions within the selects", z3.And(a >= 0, a <= b, b <= self.n))
            return Items(self.u, z3.simplify(b - a), lambda j, a=a, g=self.get: g(z3.simplify(a + j)))
        p = self.pos(k, None); eng.prove("positions within the selects", z3.And(p >= 0, p < self.n)); return self.get(p)
    def setitem(self, eng, k, v):
        M.log_write(eng, self); p = self.pos(k, None); g = self.get
        self.get = lambda j: v if eng.branch(j == p) else g(j)
    def binop(self, eng, op, o, right):
        if op != "Add": raise Unsupported("selects %s" % op)
        o = Items(self.u, z3.IntVal(len(o)), lambda j, o=o: o[0]) if isinstance(o, list) and len(o) == 1 else o
        if not isinstance(o, Items): raise Unsupported("selects + %r" % (o,))
        a, b = (o, self) if right else (self, o)
        ag, bg, n = a.get, b.get, a.n
        return Items(self.u, z3.simplify(n + b.n), lambda j: ag(j) if eng.branch(j < n) else bg(z3.simplify(j - n)))
    spec = property(lambda self: EACH)
# ---- the columns of a select
class SelectList(Obj):
    def __init__(self, item): self.item = item
    def isinstance(self, eng, cls): return list in cls
    def setitem(self, eng, i, v):
        w = self.item
        if not w.copied: raise Unsupported("change of the statement")
        M.log_write(eng, self.item)
        if not isinstance(i, SInt) or not isinstance(v, Aliased) or not isinstance(v.this, ColumnPart): raise Unsupported("column[%r] = %r" % (i, v))
        eng.ghost["replaced"] = (i.t, v)
class Column(Obj):
    def __init__(self, item, i): self.item, self.i = item, i
    def kind(self, eng): return X.Alias if eng.branch(eng.uf("is_alias", I, I, B)(self.item.k, self.i)) else X.Column if eng.branch(eng.uf("is_column", I, I, B)(self.item.k, self.i)) else X.Func
    def isinstance(self, eng, cls): k = self.kind(eng); return any(isinstance(c, type) and issubclass(k, c) for c in cls)
    def getattr(self, eng, name):
        if name == "alias_or_name": return ColumnName(self)
        if name == "args": return Parts(self.part)
        raise Unsupported("column.%s" % name)
    def part(self, eng, k):
        if k == "this" and self.kind(eng) is X.Alias: return ColumnPart(self)
        raise Unsupported("column[%s]" % k)
class ColumnPart(Obj):
    """what an aliased column computes"""
    def __init__(self, column): self.column = column
class ColumnName(Obj):
    def __init__(self, column): self.column = column
    def isinstance(self, eng, cls): return str in cls
class Aliased(Obj):
    def __init__(self, this, alias): self.this, self.alias = this, alias
class Ident(Obj):
    def __init__(self, name): self.name = name
class Seen(Obj):
    """the names of the columns before i"""
    def __init__(self): self.added = []
    def isinstance(self, eng, cls): return set in cls
    def contains(self, eng, x):
        if isinstance(x, SStr): return False
        if isinstance(x, ColumnName): return SBool(eng.uf("name_used_before", I, I, B)(x.column.item.k, x.column.i))
        raise Unsupported("%r in the names" % (x,))
    def method(self, eng, name, args, kw):
        if name != "add": raise Unsupported("names.%s" % name)
        M.log_write(eng, self); self.added.append(args[0])
def m_enumerate(eng, a, k):
    if len(a) != 1 or not isinstance(a[0], SelectList): return NotImplemented
    item = a[0].item; n = eng.uf("columns_selected", I, I)(item.k)
    eng.assume(n >= 0)
    return M.SSeq(n, lambda i: (SInt(i), Column(item, i)), spec=Renaming(item))
def once(eng, body):
    """the body of a loop reads no modifiers (they are refused), so it is checked on the paths where none has been taken from the last select"""
    u = union(eng)
    if u.taken: raise E.PathEnd()
    before, u.body = u.body, True
    try: body()
    finally: u.body = before
class Renaming(LoopSpec):
    def __init__(self, item): super().__init__(self.check, self.fresh, entry=self.enter, modifies=lambda eng, fr, st: [item] + [v for v in fr.locals.values() if isinstance(v, Seen)]); self.item = item
    def enter(self, eng, fr, st):
        names = [k for k, v in fr.locals.items() if isinstance(v, set) and not v]
        if len(names) != 1: raise Unsupported("names")
        st["name"] = names[0]; fr.locals[names[0]] = Seen(); eng.ghost["replaced"] = None
    def fresh(self, eng, fr, st, i): fr.locals[st["name"]] = Seen(); eng.ghost["replaced"] = None; st["i"] = i
    def check(self, eng, fr, st, i):
        seen = fr.locals[st["name"]]
        if "i" not in st or not st.get("body"): return []
        j, k = st["i"], self.item.k; used = eng.uf("name_used_before", I, I, B)(k, j)
        r = eng.ghost["replaced"]; out = []
        if len(seen.added) != 1: return [("the name of every column is remembered", z3.BoolVal(False))]
        x = seen.added[0]
        if r is None: ok = z3.And(z3.Not(used), z3.BoolVal(isinstance(x, ColumnName))) if isinstance(x, ColumnName) and x.column.i.eq(j) else z3.BoolVal(False)
        else:
            at, v = r; t = v.alias.name if isinstance(v.alias, Ident) else None
            new = M.binop(eng, "Mod", "__unioncolumn_%d", SInt(j))
            ok = z3.And(used, at == j, t.t == new.t, x.t == new.t, v.this.column.i == j) if isinstance(t, SStr) and isinstance(x, SStr) else z3.BoolVal(False)
        return [("a column keeps its value, and its name unless that was used before", ok)]
    def _body(self, eng, s, fr, st): st["body"] = True; once(eng, lambda: LoopSpec._body(self, eng, s, fr, st))
    def run_for(self, eng, s, fr, it): super().run_for(eng, s, fr, it); self.item.renamed = True
def s_alias(eng, a, k):
    if a or set(k) != {"this", "alias"} or not isinstance(k["this"], (Column, ColumnPart)): return NotImplemented
    x = k["this"]
    if isinstance(x, Column):
        if x.kind(eng) is X.Alias: raise Unsupported("alias of an alias")
        x = ColumnPart(x)
    return Aliased(x, k["alias"])
def s_ident(eng, a, k): return Ident(a[0]) if isinstance(a[0], (Text, SStr)) else NotImplemented
def s_to_sql(eng, a, k): return ColumnName(a[1]) if isinstance(a[1], Column) else "sql"
# ---- the plans of the selects
class Unique(Obj):
    def getattr(self, eng, name):
        if name == "int": u = union(eng); u.unique += 1; return Token("unique", z3.IntVal(u.unique) if not eng.ghost.get("in_loop") else eng.fresh("unique", I))
        raise Unsupported("uuid.%s" % name)
def m_str(eng, a, k): return a[0] if len(a) == 1 and isinstance(a[0], (Token, Text)) else NotImplemented
class Known(Obj):
    """the columns of the plan of a select: name -> .., or not known"""
    def __init__(self, u, j): self.u, self.j = u, j
    def isinstance(self, eng, cls): return eng.branch(self.u.named(self.j)) and dict in cls
    def method(self, eng, name, args, kw):
        if name == "keys": return Names(self.u, self.j)
        raise Unsupported("schema.%s" % name)
    def iterate(self, eng): raise Unsupported("loop over columns")
class Names(Obj):
    def __init__(self, u, j): self.u, self.j = u, j
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.u.count(self.j))
    def truth(self, eng): return SBool(self.u.count(self.j) > 0)
    def eq(self, eng, o):
        if not isinstance(o, Names): return False
        if eng.entailed(self.j == o.j): return True
        a, b = (self, o) if eng.entailed(o.j == self.u.F) else (o, self)
        if not eng.entailed(b.j == self.u.F): raise Unsupported("names compared")
        return SBool(self.u.same_names(a.j))
class Pairs(Obj):
    def __init__(self, a, b): self.a, self.b = a, b
class Schema(Obj):
    def __init__(self, names): self.names = names
def m_list(eng, a, k): return a[0] if len(a) == 1 and isinstance(a[0], (Names, Pairs)) else Names(a[0].u, a[0].j) if len(a) == 1 and isinstance(a[0], Known) else NotImplemented
def m_zip(eng, a, k): return Pairs(a[0], a[1]) if len(a) == 2 and isinstance(a[0], Names) and isinstance(a[1], Names) else NotImplemented
def m_any(eng, a, k):
    if not isinstance(a[0], Flags): return NotImplemented
    return SBool(a[0].u.L >= 0)
def s_compile_query(eng, a, k):
    u = union(eng); item, options = a[1], a[2]; j = u.at
    eng.prove("every option is passed on", z3.BoolVal(isinstance(options, dict) and set(options) == set(CM.CONST_CONFIG_KEYS) and all(isinstance(v, Option) and v.key == kk for kk, v in options.items())))
    if isinstance(item, Dist):
        eng.prove("the selects up to the last UNION without ALL come first, without duplicates", z3.And(u.prefix(), j == 0, item.hi == u.L + 2))
    elif isinstance(item, Item):
        e = z3.If(u.prefix(), u.L + 1 + j, j)
        eng.prove("the selects in order", z3.And(item.k == e, z3.Not(z3.And(u.prefix(), j == 0))))
        eng.prove("parentheses are taken off", z3.BoolVal(item.inner) == u.is_sub(item.k))
        item.without(eng)
        select = item.isinstance(eng, (X.Select,))
        eng.prove("columns are told apart by position", z3.Or(j == 0, z3.BoolVal(item.renamed or not select)))
    else: raise Unsupported("select %r" % (item,))
    u.plan = {"name": Token("plan", j), "output": Text(["&.-.&1::", Token("key", j)] + ([" use ", Token("mode", j)] if eng.branch(eng.uf("has_mode", I, B)(j)) else [])), "schema": Known(u, j), "pipelines": [], "dependencys": []}
    options["@limit"] = Option("@limit"); u.given = options
    return u.plan
class Option(Obj):
    def __init__(self, key): self.key = key
class Options(Obj):
    """the options of the statement"""
    def __init__(self, u): self.u, self.set, self.forward = u, {}, None
    def isinstance(self, eng, cls): return dict in cls
    def contains(self, eng, k): return k in CM.CONST_CONFIG_KEYS
    def getitem(self, eng, k): return Option(k)
    def setitem(self, eng, k, v): M.log_write(eng, self); self.set[k] = v
    def method(self, eng, name, args, kw):
        if name == "get": return Option(args[0])
        if name == "update" and isinstance(args[0], Forward): M.log_write(eng, self); self.forward = args[0]; return None
        raise Unsupported("options.%s" % name)
class Forward(Obj):
    def __init__(self, name, options): self.name, self.options = name, options
class Deps(Obj):
    def __init__(self, u, i): self.u, self.i, self.pending = u, i, None
    def isinstance(self, eng, cls): return list in cls
    def method(self, eng, name, args, kw):
        if name != "append" or self.pending is not None: raise Unsupported("dependencys.%s" % name)
        M.log_write(eng, self); self.pending = args[0]
def u_comprehension(eng, e, fr):
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]; it = eng.eval(g.iter, fr)
    if isinstance(it, Items): return Items(it.u, it.n, lambda j, get=it.get: at(eng, fr, g.target, get(j), e.elt))
    return None
def u_dictcomp(eng, e, fr):
    if len(e.generators) != 1: return None
    g = e.generators[0]
    u = union(eng)
    if g.ifs: return None
    it = eng.eval(g.iter, fr)
    if isinstance(it, Names):
        n = Token("column", eng.fresh("column", I)); k, v = at(eng, fr, g.target, n, e.key), at(eng, fr, g.target, n, e.value)
        if k is n and isinstance(v, Text) and len(v.parts) == 2 and v.parts[0] == "$." and v.parts[1] is n: return Schema(it)
        raise Unsupported("columns as %r: %r" % (k, v))
    if type(it).__name__ in ("dict_items",) or isinstance(it, list):
        items = list(it); out = []
        if not items or not all(isinstance(v, Option) for _, v in items): return None
        names = []
        for key, v in items:
            k = at(eng, fr, g.target, (key, v), e.key)
            if not isinstance(k, Text) or at(eng, fr, g.target, (key, v), e.value) is not v or not isinstance(k.parts[-1], str) or not k.parts[-1].endswith("@" + key): raise Unsupported("option %r" % (k,))
            names.append(plain(Text(k.parts[:-1] + [k.parts[-1][:-len("@" + key)]])))
        if any(parts(x) != parts(names[0]) for x in names): raise Unsupported("names of options")
        return Forward(names[0], dict(items))
    return None
def parts(x): return [p if isinstance(p, str) else (p.what, p.t.get_id()) for p in (x.parts if isinstance(x, Text) else [x])]
def s_order(eng, a, k):
    u = union(eng); p = a[1]
    u.calls.append(("order", p, len(a[2]["pipelines"]) if isinstance(a[2], dict) else None))
def s_limit(eng, a, k): u = union(eng); u.calls.append(("limit", a[1], len(a[2]["pipelines"])))
class Limits(Obj):
    def __init__(self, parts): self.parts = parts
def s_select(eng, a, k): return Limits(dict(k)) if not a and k and all(isinstance(v, Modifier) for v in k.values()) else NotImplemented
def s_tree(eng, a, k):
    if a or set(k) != {"this", "expression", "distinct"} or not isinstance(k["this"], (Item, Dist)): return NotImplemented
    x, y = k["this"], k["expression"]
    if not isinstance(y, Item) or not y.copied and False: raise Unsupported("union of %r" % (y,))
    hi = x.hi if isinstance(x, Dist) else z3.IntVal(1)
    if isinstance(x, Item): eng.prove("the first select is first", z3.And(x.k == 0, z3.BoolVal(not x.inner)))
    eng.prove("the next select is next", z3.And(y.k == hi, z3.BoolVal(not y.inner))); eng.prove("duplicates are removed", z3.BoolVal(k["distinct"] is True))
    return Dist(y.u, hi + 1)
# ---- loops over selects
def e_each(eng, fr, st):
    u = union(eng)
    firsts = [k for k, v in fr.locals.items() if isinstance(v, Item) and v.copied]
    st["what"] = "distinct" if firsts else "plans"
    if not firsts and u.taken: st["get"](st["n"] - 1).without(eng)
    if firsts:
        if len(firsts) != 1: raise Unsupported("the first select")
        st["name"], st["first"] = firsts[0], fr.locals[firsts[0]]; return
    nones = [k for k, v in fr.locals.items() if v is None]
    keys = [k for k in nones if "key" in k]
    if len(nones) != 2 or len(keys) != 1: raise Unsupported("names and key")
    st["key"] = keys[0]; st["names"] = [k for k in nones if k not in keys][0]
    st["mode"] = [k for k, v in fr.locals.items() if isinstance(v, str) and v == "I"]
    config = u.config
    if config["dependencys"] != []: raise Unsupported("plans before the first")
    config["dependencys"] = Deps(u, z3.IntVal(0)); u.tables = [k for k, v in fr.locals.items() if isinstance(v, Text)]
    if len(u.tables) != 1: raise Unsupported("the table of the union")
    u.table = fr.locals[u.tables[0]]
def names_ok(u, v, i): return (i <= u.F) if v is None else z3.And(i > u.F, v.j == u.F) if isinstance(v, Names) else z3.BoolVal(False)
def key_ok(u, v, i): return (i == 0) if v is None else z3.And(i > 0, v.t == 0) if isinstance(v, Token) and v.what == "key" else z3.BoolVal(False)
def i_each(eng, fr, st, i):
    u = union(eng)
    if st["what"] == "distinct":
        x = fr.locals[st["name"]]
        return [("the selects so far", z3.And(i == 0, x.k == 0, z3.BoolVal(not x.inner)) if isinstance(x, Item) else x.hi == i + 1 if isinstance(x, Dist) else z3.BoolVal(False))]
    c = u.config; d = c["dependencys"]
    key = fr.locals[st["key"]]
    if isinstance(key, Text) and len(key.parts) == 1: key = key.parts[0]
    schema = c["schema"]
    out = [("columns of the first", names_ok(u, fr.locals[st["names"]], i)), ("key of the first", key_ok(u, key, i)), ("as many columns as the first", u.fit(i)),
           ("the plan has the columns of the first", names_ok(u, schema.names if isinstance(schema, Schema) else None, i)), ("each plan is kept", d.i == i if d.pending is None else d.i + 1 == i)]
    if st.get("body") and d.pending is not None:
        p, j, o = d.pending, u.at, u.options
        if p is not u.plan: return [("the plan of the select is kept", z3.BoolVal(False))]
        t = parts(Text(["&.--.", *u.table.parts, "::", Token("key", j), " use I"]))
        out.append(("each select is written to the table of the union", z3.BoolVal(isinstance(p["output"], Text) and parts(p["output"]) == t)))
        out.append(("the options of the select are passed on under its name", z3.BoolVal(o.forward is not None and parts(o.forward.name) == parts(p["name"]) and o.forward.options == u.given)))
        rename = z3.And(u.named(j), j > u.F, z3.Not(u.same_names(j)))
        l = p["pipelines"]
        if l == []: out.append(("columns of other names are renamed", z3.Not(rename)))
        else:
            ok = len(l) == 1 and len(l[0]) == 3 and l[0][:2] == [">>@row_rename", "$.*|array"] and isinstance(l[0][2], Pairs)
            # renaming equal names changes nothing
            out.append(("columns are renamed by position", z3.And(z3.BoolVal(ok), u.named(j), *([l[0][2].a.j == j, l[0][2].b.j == u.F] if ok else []))))
    return out
def h_each(eng, fr, st, i):
    u = union(eng)
    if st["what"] == "distinct":
        fr.locals[st["name"]] = Item(u, z3.IntVal(0), copied=True) if eng.branch(i == 0) else Dist(u, i + 1); return
    eng.ghost["in_loop"] = True
    u.at = i
    later = eng.branch(i > u.F)
    fr.locals[st["names"]] = Names(u, u.F) if later else None
    u.config["schema"] = Schema(Names(u, u.F)) if later else "$.*"
    fr.locals[st["key"]] = None if eng.branch(i == 0) else Token("key", z3.IntVal(0))
    for k in st["mode"]: fr.locals[k] = "I" if eng.branch(eng.uf("mode_so_far_I", B)()) else Token("mode", eng.fresh("m", I))
    d = u.config["dependencys"]; d.i, d.pending = i, None
    u.options.forward = None
class Each(LoopSpec):
    def _body(self, eng, s, fr, st): st["body"] = True; once(eng, lambda: LoopSpec._body(self, eng, s, fr, st))
def m_each(eng, fr, st):
    u = union(eng); return [u.config, u.config["dependencys"], u.options] if st["what"] == "plans" else []
EACH = Each(i_each, h_each, seq=lambda eng, it: (it.n, it.get), entry=e_each, modifies=m_each)
def s_plan(eng, a, k):
    u = a[0]; u.config = {"name": "q", "output": Text(["&.", Token("db", z3.IntVal(0)), ".", Token("table", z3.IntVal(0)), "::id use ", Token("mode", z3.IntVal(-1))]), "input": None, "schema": "$.*", "dependencys": [], "pipelines": []}
    return u.config
def s_options(eng, a, k): a[0].options = Options(a[0]); return a[0].options
def s_refuse(eng, a, k):
    u = a[0]; j = z3.Int("j"); return SBool(z3.Exists([j], z3.And(j >= 0, eng.uf("columns_known", I, B)(j), u.count(j) != u.count(u.F))))
def s_combined(eng, a, k):
    u, c, o = a
    d, l = c["dependencys"], c["pipelines"]
    if not isinstance(d, Deps): return False
    m = z3.If(u.prefix(), u.n - u.L - 1, u.n)
    eng.prove("every select has a plan", d.i == m); eng.prove("selects with other numbers of columns are refused", u.fit(m))
    eng.prove("duplicates are removed in the end exactly when the last operator is UNION without ALL", (l == [[">>@row_distinct", "$.*|array"]]) == u.whole() if l in ([], [[">>@row_distinct", "$.*|array"]]) else z3.BoolVal(False))
    eng.prove("the limit of the caller is for the rows of the union", z3.BoolVal(o.set == {"@primary_order": False, "@limit": 0}))
    last = u.n - 1
    has = {key: z3.Or(z3.And(z3.Not(u.is_sub(last)), u.leaf_has(last, key)), u.tree_has(u.root.lo, u.root.hi, key)) for key in KEYS}
    called = [x[0] for x in u.calls]
    if called not in ([], ["order"], ["limit"], ["order", "limit"]): return False
    eng.prove("sorted when asked for", z3.BoolVal("order" in called) == has["order"]); eng.prove("cut when asked for", z3.BoolVal("limit" in called) == z3.Or(has["limit"], has["offset"]))
    for what, x, n in u.calls:
        if n != len(l): return False
        if what == "order" and not (isinstance(x, ModifierPart) and x.key == "order" and x.part == "expressions"): return False
        if what == "limit":
            if not isinstance(x, Limits) or any(v.key != kk for kk, v in x.parts.items()): return False
            for key in ("limit", "offset"): eng.prove("cut as asked for", z3.BoolVal(key in x.parts) == has[key])
    key = Token("key", z3.IntVal(0))
    want = parts(Text(["&.--.", *u.table.parts, "::", key])), parts(Text(["&.", Token("db", z3.IntVal(0)), ".", Token("table", z3.IntVal(0)), "::", key, " use ", Token("mode", z3.IntVal(-1))]))
    return isinstance(c["input"], Text) and parts(c["input"]) == want[0] and isinstance(c["output"], Text) and parts(c["output"]) == want[1]
def s_union_of(eng, a, k):
    u, form = a; kind, last = form.split(", ")
    eng.assume({"UNION": u.whole(), "UNION ALL": z3.And(z3.Not(u.whole()), u.L < 0), "both": u.prefix()}[kind])
    eng.assume(u.is_sub(u.n - 1) if last == "parentheses" else z3.Not(u.is_sub(u.n - 1)))
    return u.root
def u_compiler(eng, a, k): return object.__new__(Compiler)
UNITED = {C.compiler: u_compiler, C.union_of: s_union_of, C.plan_of: s_plan, C.options_of: s_options, C.may_refuse: s_refuse, C.combined: s_combined,
    Compiler.compile_query: s_compile_query, Compiler.compile_order: s_order, Compiler.compile_limit: s_limit, Compiler.to_sql: s_to_sql, uuid.uuid1: lambda eng, a, k: Unique(),
    X.Alias: s_alias, X.to_identifier: s_ident, X.Select: s_select, X.Union: s_tree, str: m_str, list: m_list, zip: m_zip, any: m_any, enumerate: m_enumerate}
CONTRACT_SUMMARIES = {"united": UNITED}
SUMMARIES = {sorted: m_sorted, tuple: m_tuple, C.has_names: has_names, C.without_duplicates: without_duplicates, C.renamer: lambda eng, a, k: Calc(), C.distincter: lambda eng, a, k: Calc()}
def sym_case(eng, name):
    w = world(eng); return (Rows(w), M.SSeq(w.K, lambda k: (Name(w.old(k)), Name(w.new(k)))))
SYMS = {"statement": lambda eng, name: union(eng), "case": sym_case, "rows": lambda eng, name: Rows(world(eng))}
def setup(eng): eng.ghost["comprehension"], eng.ghost["dictcomp"] = comprehension, dictcomp
def u_setup(eng): eng.ghost["comprehension"], eng.ghost["dictcomp"], eng.ghost["calls"] = u_comprehension, u_dictcomp, nested
SETUP = {"united": u_setup, "rename_rows": setup, "distinct_rows": setup}
