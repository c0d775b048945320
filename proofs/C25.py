from proofs.common import *
from contracts import C25 as C
from syncanysql.compiler import Compiler
from sqlglot import expressions as X
ASSUMPTIONS = ["compile_insert_into: parse_table gives the database, name and options of the table; compile_select, compile_union and compile_with compile what they are given and keep the mode of the output they find (checked by the statements, bounded); is_const and parse_const as in C21",
    "names of tables and columns contain neither '::' nor ' use '; the columns listed are all different"]
MODE = {"I": 0, "U": 1, "UI": 2, "UDI": 3, "DI": 4}
KINDS = {int: 0, float: 1, bool: 2}
class World:
    def __init__(self, eng):
        self.eng, self.form = eng, None
        self.n, self.K, self.N = [eng.fresh(x, I) for x in ("options", "columns", "rows")]
        self.f, self.k0, self.r0 = [eng.fresh(x, I) for x in ("first_known", "k0", "r0")]
        eng.assume(z3.And(self.n >= 0, self.K >= 1, self.N >= 0, self.f >= 0, self.f <= self.n, self.k0 >= 0, self.k0 < self.K, self.r0 >= 0, self.r0 < self.N))
        eng.assume(z3.Implies(self.f < self.n, self.known(self.f)))
        self.calls, self.special, self.flags = [], None, None
    def upper(self, j): return self.eng.uf("upper_of_option", I, I)(j)
    def known(self, j): return z3.And(self.upper(j) >= 0, self.upper(j) <= 4)
    def option(self, j):
        """f is the first option that is known"""
        self.eng.assume(z3.Implies(z3.And(j >= 0, j < self.f), z3.Not(self.known(j)))); return Option(self, j)
    def mode(self): return z3.If(self.f < self.n, self.upper(self.f), z3.IntVal(0))
    def declared(self, k): return self.eng.uf("has_type", I, B)(k)
    def name(self, k): return self.eng.uf("column_name", I, I)(k)
    def size(self, r): return self.eng.uf("values_in_row", I, I)(r)
    def fit(self, i):
        r = z3.Int("r"); return z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < i), self.size(r) == self.K), patterns=[self.size(r)])
    def has_id(self): return self.eng.uf("some_column_is_id", B)()
def world(eng):
    if "world" not in eng.ghost: eng.ghost["world"] = World(eng)
    return eng.ghost["world"]
class Obj(M.LazyInstance):
    def isinstance(self, eng, cls): return False
    def truth(self, eng): return True
    def getattr(self, eng, name): return E.SymMethod(self, name)
class Option(Obj):
    def __init__(self, w, j): self.w, self.j = w, j
    def isinstance(self, eng, cls): return str in cls
    def method(self, eng, name, args, kw):
        if name == "upper": return Upper(self.w, self.w.upper(self.j))
        raise Unsupported("option.%s" % name)
class Upper(Obj):
    def __init__(self, w, t): self.w, self.t = w, t
    def isinstance(self, eng, cls): return str in cls
    def eq(self, eng, o):
        if isinstance(o, str) and o in MODE: return SBool(self.t == MODE[o])
        raise Unsupported("option compared with %r" % (o,))
    def method(self, eng, name, args, kw):
        if name == "upper": return self
        raise Unsupported("option.%s" % name)
    def binop(self, eng, op, o, right): return Text([self]).binop(eng, op, o, right)
class Name(Obj):
    """a name: kind and number"""
    def __init__(self, what, t): self.what, self.t = what, t
    def isinstance(self, eng, cls): return str in cls
    def same(self, o): return isinstance(o, Name) and o.what == self.what and o.t.eq(self.t)
    def eq(self, eng, o):
        if isinstance(o, str): return SBool(eng.uf("name_is_" + o, I, B)(self.t)) if self.what != "db" and self.what != "table" else SBool(eng.uf("%s_is_%s" % (self.what, o), B)())
        return SBool(self.t == o.t) if isinstance(o, Name) and o.what == self.what else False
    def binop(self, eng, op, o, right): return Text([self]).binop(eng, op, o, right)
class Text(Obj):
    """a text put together of literals and names"""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str): self.parts[-1] += p
            elif p != "": self.parts.append(p)
    def isinstance(self, eng, cls): return str in cls
    def binop(self, eng, op, o, right):
        if op != "Add": raise Unsupported("text %s" % op)
        other = o.parts if isinstance(o, Text) else [o]
        if not all(isinstance(p, (str, Name, Upper, TypeText)) for p in other): raise Unsupported("text + %r" % (o,))
        return Text(other + self.parts if right else self.parts + other)
    def eq(self, eng, o):
        if len(self.parts) == 1: return self.parts[0].eq(eng, o)
        raise Unsupported("texts compared")
    def method(self, eng, name, args, kw):
        if name == "split" and len(args) == 1 and args[0] in ("::", " use "):
            out = [[]]
            for p in self.parts:
                if not isinstance(p, str): out[-1].append(p); continue
                pieces = p.split(args[0]); out[-1].append(pieces[0])
                for x in pieces[1:]: out.append([x])
            return [plain(Text(x)) for x in out]
        if name == "strip" and not args: return plain(Text([p.lstrip() if k == 0 and isinstance(p, str) else p.rstrip() if k == len(self.parts) - 1 and isinstance(p, str) else p for k, p in enumerate(self.parts)]))
        raise Unsupported("text.%s" % name)
    def getitem(self, eng, s):
        if isinstance(s, slice) and s.step is None and s.stop is None and isinstance(s.start, int) and isinstance(self.parts[0], str) and 0 <= s.start <= len(self.parts[0]): return plain(Text([self.parts[0][s.start:]] + self.parts[1:]))
        raise Unsupported("part of a text")
    def contains(self, eng, x):
        if x in ("::", " use "): return any(isinstance(p, str) and x in p for p in self.parts)
        raise Unsupported("in text")
def plain(t): return "".join(t.parts) if all(isinstance(p, str) for p in t.parts) else t
def join(eng, sep, xs):
    if sep != "" or not all(isinstance(x, (str, Name, Upper, Text)) for x in xs): raise Unsupported("join")
    return Text([p for x in xs for p in (x.parts if isinstance(x, Text) else [x])])
# ---- the statement
class Tree(Obj):
    def __init__(self, w, cls, parts): self.w, self.cls, self.parts = w, cls, parts
    def isinstance(self, eng, cls): return any(isinstance(c, type) and issubclass(self.cls, c) for c in cls)
    def getattr(self, eng, name):
        if name == "args": return Args(self)
        if name in self.parts: return self.parts[name]
        raise Unsupported("%s.%s" % (self.cls.__name__, name))
class Args(Obj):
    def __init__(self, tree): self.tree = tree
    def getitem(self, eng, k):
        if k not in self.tree.parts: eng.raise_(KeyError, k)
        return self.tree.parts[k]
    def method(self, eng, name, args, kw):
        if name == "get": return self.tree.parts.get(args[0])
        raise Unsupported("args.%s" % name)
class With(Obj): pass
class Query(Tree):
    def __init__(self, w, cls):
        super().__init__(w, cls, {"with": With() if w.eng.branch(w.eng.uf("has_with", B)()) else None})
class Rewritten(Obj):
    def __init__(self, q): self.q = q
class RowTree(Tree):
    def __init__(self, w, r): self.r = r; super().__init__(w, X.Tuple, {"expressions": Cells(w, r)})
class Cells(Obj):
    """the values of a row"""
    def __init__(self, w, r): self.w, self.r = w, r
    def isinstance(self, eng, cls): return list in cls
    def len(self, eng): return SInt(self.w.size(self.r))
class Cell(Obj):
    def __init__(self, w, r, k): self.w, self.r, self.k = w, r, k
    def isinstance(self, eng, cls):
        if X.Parameter in cls: return eng.branch(eng.uf("is_variable", I, I, B)(self.r, self.k))
        return X.Expression in cls
    def method(self, eng, name, args, kw):
        if name == "copy": return self
        raise Unsupported("value.%s" % name)
class Rows(Obj):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return SBool(self.w.N > 0)
    def len(self, eng): return SInt(self.w.N)
    def getitem(self, eng, k):
        if k == 0: return RowTree(self.w, z3.IntVal(0))
        raise Unsupported("row %r" % (k,))
    spec = property(lambda self: ROWS)
class Raw(Obj):
    """the name of a column as written: plain, or with types between brackets"""
    def __init__(self, w, k, looked=False): self.w, self.k, self.looked = w, k, looked
    def isinstance(self, eng, cls): return str in cls
    def final(self, eng):
        """a column of the mapping stands for the name it is mapped to"""
        eng.prove("a mapped name is looked up", z3.BoolVal(self.looked) == eng.uf("is_mapped", I, B)(self.k))
    def at(self, which): return self.w.eng.uf(which, I, I)(self.k)
    def getitem(self, eng, s):
        a, b = self.at("open_bracket"), self.at("close_bracket")
        if not isinstance(s, slice) or s.step is not None: raise Unsupported("name[%r]" % (s,))
        term = lambda x: x.t if isinstance(x, SInt) else z3.IntVal(x)
        self.final(self.w.eng)
        if s.start is None and s.stop is not None and eng.entailed(term(s.stop) == a): return Name("column", self.w.name(self.k))
        if s.start is not None and s.stop is not None and eng.entailed(z3.And(term(s.start) == a + 1, term(s.stop) == b)): return Between(self.w, self.k)
        raise Unsupported("part of a name")
    def method(self, eng, name, args, kw):
        if name in ("index", "rindex") and tuple(args) in (("[",), ("]",)):
            self.final(eng)
            if (name, args[0]) not in (("index", "["), ("rindex", "]")): raise Unsupported("position of %s" % args[0])
            if not eng.branch(self.w.declared(self.k)): eng.raise_(ValueError, "substring not found")
            return SInt(self.at("open_bracket" if args[0] == "[" else "close_bracket"))
        raise Unsupported("name.%s" % name)
class Between(Obj):
    def __init__(self, w, k): self.w, self.k = w, k
    def method(self, eng, name, args, kw):
        if name == "split" and tuple(args) == (";",): return [TypeText(self.w, self.k)] + ([Obj()] if eng.branch(eng.uf("has_more_filters", I, B)(self.k)) else [])
        raise Unsupported("types.%s" % name)
class TypeText(Obj):
    """the declared type of a column"""
    def __init__(self, w, k): self.w, self.k = w, k
    def isinstance(self, eng, cls): return str in cls
    def binop(self, eng, op, o, right): return Text([self]).binop(eng, op, o, right)
class Mapping(Obj):
    def __init__(self, w): self.w = w
    def contains(self, eng, x):
        if isinstance(x, Raw): return SBool(eng.uf("is_mapped", I, B)(x.k)) if not x.looked else False
        raise Unsupported("in mapping")
    def getitem(self, eng, x):
        if isinstance(x, Raw) and not x.looked: return Raw(x.w, x.k, True)
        raise Unsupported("mapping")
class ColumnTree(Tree):
    def __init__(self, w, k):
        super().__init__(w, X.Identifier, {"name": Raw(w, k, False)}); self.k = k
class Column(Obj):
    """a column of the list: name and type"""
    def __init__(self, w, k, final): self.w, self.k, self.final, self.set = w, k, final, None
    def isinstance(self, eng, cls): return list in cls
    def type(self, eng):
        if eng.branch(self.w.declared(self.k)): return TypeText(self.w, self.k)
        return TypeName(self.w, self.k) if self.final and eng.branch(eng.uf("type_added", I, B)(self.k)) else None
    def getitem(self, eng, i):
        if i == 0: return Name("column", self.w.name(self.k))
        if i == 1: return self.type(eng) if self.set is None else self.set
        raise Unsupported("column[%r]" % (i,))
    def setitem(self, eng, i, v):
        if i != 1 or not isinstance(v, TypeName): raise Unsupported("column[%r] = %r" % (i, v))
        M.log_write(eng, self)
        eng.prove("a type given to a column is the one all its values have", z3.And(v.k == self.k, uniform(self.w, self.k), z3.Not(self.w.declared(self.k)))); self.set = v
    def iterate(self, eng): return [self.getitem(eng, 0), self.getitem(eng, 1)]
class Columns(Obj):
    def __init__(self, w, i): self.w, self.i, self.final, self.pending = w, i, False, None
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return SBool(self.i > 0)
    def len(self, eng): return SInt(self.i)
    def getitem(self, eng, k):
        if k == 0: return Column(self.w, z3.IntVal(0), self.final)
        raise Unsupported("column %r" % (k,))
    def method(self, eng, name, args, kw):
        if name != "append" or self.pending is not None: raise Unsupported("columns.%s" % name)
        M.log_write(eng, self); self.pending = args[0]
    spec = property(lambda self: TYPES)
def uniform(w, k): return z3.And(w.eng.uf("number_of_types", I, I)(k) == 1, w.eng.uf("type_of_all", I, I)(k) >= 0, w.eng.uf("type_of_all", I, I)(k) <= 2)
class Value(Obj):
    """the constant a value is"""
    def __init__(self, w, r, k): self.w, self.r, self.k = w, r, k
class TypeOf(Obj):
    def __init__(self, w, r, k): self.w, self.r, self.k = w, r, k
class TypesIn(Obj):
    """the types of the values of a column, one per row; as a set"""
    def __init__(self, w, k, aset=False): self.w, self.k, self.aset = w, k, aset
    def isinstance(self, eng, cls): return (set if self.aset else list) in cls
    def len(self, eng):
        if not self.aset: return SInt(self.w.N)
        return SInt(eng.uf("number_of_types", I, I)(self.k))
    def order(self, eng, op, o):
        if op == "LtE" and self.aset and isinstance(o, (set, frozenset)) and all(t in KINDS for t in o) and eng.entailed(eng.uf("number_of_types", I, I)(self.k) == 1): return SBool(z3.Or([eng.uf("type_of_all", I, I)(self.k) == KINDS[t] for t in o]))
        raise Unsupported("types compared with %r" % (o,))
    def method(self, eng, name, args, kw):
        if name == "pop" and self.aset: return OneType(self.w, self.k)
        raise Unsupported("types.%s" % name)
class OneType(Obj):
    def __init__(self, w, k): self.w, self.k = w, k
    def getattr(self, eng, name):
        if name == "__name__": return TypeName(self.w, self.k)
        raise Unsupported("type.%s" % name)
class TypeName(TypeText): pass
# ---- the rows written
class Entry(Obj):
    """{name: value of a row, for every column}, at the column looked at"""
    def __init__(self, w, r, key, value): self.w, self.r, self.key, self.value = w, r, key, value
class Datas(Obj):
    def __init__(self, w, i): self.w, self.i, self.pending = w, i, None
    def isinstance(self, eng, cls): return list in cls
    def method(self, eng, name, args, kw):
        if name != "append" or self.pending is not None: raise Unsupported("rows.%s" % name)
        M.log_write(eng, self); self.pending = args[0]
class Data(Obj):
    def __init__(self, w, r): self.w, self.r = w, r
    def getitem(self, eng, k):
        if isinstance(k, Name) and k.what == "column" and z3.is_app(k.t) and k.t.decl().name() == "column_name": return Value(self.w, self.r, k.t.arg(0))
        raise Unsupported("row[%r]" % (k,))
class Zip(Obj):
    def __init__(self, cells): self.cells = cells
class AllCells(Obj):
    def __init__(self, w): self.w = w
class Each(Obj):
    """a test of every value"""
    def __init__(self, w, test): self.w, self.test = w, test
class IsId(Obj): pass
def at(eng, fr, target, x, node):
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    if target is not None: eng.assign(target, x, inner)
    return eng.eval(node, inner) if node is not None else inner
def comprehension(eng, e, fr):
    if any(g.ifs for g in e.generators): return None
    w = world(eng); g = e.generators[0]; it = eng.eval(g.iter, fr)
    if isinstance(it, Rows) and len(e.generators) == 2:
        r, k = eng.fresh("row", I), eng.fresh("column", I)
        inner = at(eng, fr, g.target, RowTree(w, r), None)
        cells = eng.eval(e.generators[1].iter, inner)
        if not isinstance(cells, Cells) or not cells.r.eq(r): raise Unsupported("values of %r" % (cells,))
        v = at(eng, inner, e.generators[1].target, Cell(w, r, k), e.elt)
        if isinstance(v, Cell) and v.r.eq(r) and v.k.eq(k): return AllCells(w)
        return Each(w, lambda r, k: at(eng, at(eng, fr, g.target, RowTree(w, r), None), e.generators[1].target, Cell(w, r, k), e.elt))
    if len(e.generators) != 1: return None
    if isinstance(it, AllCells): return Each(w, lambda r, k: at(eng, fr, g.target, Cell(w, r, k), e.elt))
    if isinstance(it, Columns):
        c = Column(w, w.k0, it.final); x = at(eng, fr, g.target, c, e.elt)
        if isinstance(x, SBool) and x.t.eq(eng.uf("name_is_id", I, B)(w.name(w.k0))): return IsId()
        if isinstance(x, (TypeText, type(None))): return AnyType(w)
        raise Unsupported("columns as %r" % (x,))
    if isinstance(it, Datas):
        eng.prove("all rows are looked at", it.i == w.N)
        r = eng.fresh("row", I); x = at(eng, fr, g.target, Data(w, r), e.elt)
        if isinstance(x, TypeOf) and x.r.eq(r): return TypesIn(w, x.k)
        raise Unsupported("rows as %r" % (x,))
    if isinstance(it, Zip):
        x = at(eng, fr, g.target, (Column(w, w.k0, False), Cell(w, it.cells.r, w.k0)), e.elt)
        return SelectList(w, it.cells.r, x)
    return None
class AnyType(Obj):
    def __init__(self, w): self.w = w
def dictcomp(eng, e, fr):
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    w = world(eng); g = e.generators[0]; it = eng.eval(g.iter, fr)
    if isinstance(it, Zip):
        x = (Column(w, w.k0, False), Cell(w, it.cells.r, w.k0))
        return Entry(w, it.cells.r, at(eng, fr, g.target, x, e.key), at(eng, fr, g.target, x, e.value))
    if isinstance(it, Columns):
        eng.prove("all columns are written", it.i == w.K)
        c = Column(w, w.k0, it.final)
        eng.ghost["schema"] = Entry(w, None, at(eng, fr, g.target, c, e.key), at(eng, fr, g.target, c, e.value)); return eng.ghost["schema"]
    return None
def m_zip(eng, a, k):
    if len(a) != 2 or not isinstance(a[0], Columns) or not isinstance(a[1], Cells): return NotImplemented
    return Zip(a[1])
def m_any(eng, a, k):
    w = world(eng)
    if isinstance(a[0], IsId): return SBool(w.has_id())
    if isinstance(a[0], AnyType): return SBool(eng.uf("some_column_has_a_type", B)())
    return NotImplemented
def m_all(eng, a, k):
    x = a[0]; w = world(eng)
    if not isinstance(x, Each): return NotImplemented
    if eng.branch(eng.uf("all_values_pass", B)()): w.flags = x; return True
    r, k = eng.fresh("row", I), eng.fresh("column", I)        # some value does not pass
    if eng.truth(x.test(r, k)): raise E.PathEnd()
    w.failed = (r, k); return False
def m_set(eng, a, k):
    if len(a) == 1 and isinstance(a[0], TypesIn): return TypesIn(a[0].w, a[0].k, True)
    return NotImplemented
def m_type(eng, a, k):
    if len(a) == 1 and isinstance(a[0], Value): return TypeOf(a[0].w, a[0].r, a[0].k)
    return NotImplemented
def s_is_const(eng, a, k):
    if isinstance(a[1], Cell): return SBool(eng.uf("is_const", I, I, B)(a[1].r, a[1].k))
    raise Unsupported("is_const(%r)" % (a[1],))
def s_parse_const(eng, a, k):
    c, w = a[1], world(eng)
    if not isinstance(c, Cell): raise Unsupported("parse_const(%r)" % (c,))
    if w.flags is not None and not eng.truth(w.flags.test(c.r, c.k)): raise E.PathEnd()
    eng.prove("a value read while compiling is a constant and no variable", z3.And(eng.uf("is_const", I, I, B)(c.r, c.k), z3.Not(eng.uf("is_variable", I, I, B)(c.r, c.k))))
    return {"value": Value(w, c.r, c.k)}
# ---- loops
def local(fr, cls): return [v for v in fr.locals.values() if isinstance(v, cls)]
def e_columns(eng, fr, st):
    w = world(eng)
    names = [k for k, v in fr.locals.items() if isinstance(v, list) and not v]
    if len(names) != 1: raise Unsupported("columns")
    fr.locals[names[0]] = Columns(w, z3.IntVal(0)); w.columns = fr.locals[names[0]]
def i_columns(eng, fr, st, i):
    w = world(eng); c, = local(fr, Columns)
    p = c.pending
    if p is None: return [("columns so far", c.i == i)]
    j = c.i
    ok = isinstance(p, list) and len(p) == 2 and (isinstance(p[0], Name) and p[0].what == "column" or isinstance(p[0], Raw))
    if not ok: raise Unsupported("column %r" % (p,))
    # without brackets the name is as written or mapped
    if isinstance(p[0], Raw): p[0].final(eng)
    name = z3.And(p[0].k == j, z3.Not(w.declared(j))) if isinstance(p[0], Raw) else p[0].t == w.name(j)
    kind = z3.Not(w.declared(j)) if p[1] is None else z3.And(w.declared(j), p[1].k == j) if isinstance(p[1], TypeText) else z3.BoolVal(False)
    return [("each column with its name and type", z3.And(j + 1 == i, name, kind))]
def h_columns(eng, fr, st, i):
    c, = local(fr, Columns); c.i, c.pending = i, None
def seq_of(get): return lambda eng, it: (world(eng).K if isinstance(it, (ColumnList, Columns)) else world(eng).N, lambda i: get(world(eng), i))
class ColumnList(Obj):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return SBool(self.w.K > 0)
    spec = LoopSpec(i_columns, h_columns, seq=seq_of(ColumnTree), entry=e_columns, modifies=lambda eng, fr, st: local(fr, Columns))
def e_options(eng, fr, st): pass
def i_options(eng, fr, st, i):
    w = world(eng); m = fr.locals[st.setdefault("name", mode_name(fr))]
    return [("no known mode so far", z3.And(i <= w.f, mode_of(m) == 0))]
def mode_name(fr):
    names = [k for k, v in fr.locals.items() if v == "I" or isinstance(v, Upper)]
    if len(names) != 1: raise Unsupported("mode")
    return names[0]
def mode_of(m):
    if isinstance(m, str) and m in MODE: return z3.IntVal(MODE[m])
    if isinstance(m, Upper): return m.t
    if isinstance(m, Text) and len(m.parts) == 1: return mode_of(m.parts[0])
    raise Unsupported("mode %r" % (m,))
def h_options(eng, fr, st, i): fr.locals[st["name"]] = "I"
OPTIONS = LoopSpec(i_options, h_options)
def row_loop(fr):
    if any(isinstance(v, Datas) for v in fr.locals.values()): return "datas"
    return "built" if "compile_insert_into_calculate_values" in fr.qualname else "sizes"
def e_rows(eng, fr, st):
    w = world(eng)
    st["what"] = row_loop(fr)
    if st["what"] == "built":
        names = [k for k, v in fr.locals.items() if v is None]
        if len(names) != 1: raise Unsupported("the select built")
        st["name"] = names[0]; return
    names = [k for k, v in fr.locals.items() if isinstance(v, list) and not v] if local(fr, Columns) else []
    if names:
        if len(names) != 1: raise Unsupported("rows")
        fr.locals[names[0]] = Datas(w, z3.IntVal(0)); st["what"] = "datas"
def i_rows(eng, fr, st, i):
    w = world(eng); what = st["what"]
    if what == "sizes": return [("rows so far have as many values as there are columns", w.fit(i))]
    if what == "built":
        x = fr.locals[st["name"]]
        return [("the rows so far", i == 0 if x is None else x.i == i if isinstance(x, Built) else z3.BoolVal(False))]
    d, = local(fr, Datas); p = d.pending
    if p is None: return [("rows so far", d.i == i)]
    if not isinstance(p, Entry) or not isinstance(p.key, Name) or not isinstance(p.value, Value): raise Unsupported("row %r" % (p,))
    return [("each value under its column", z3.And(d.i + 1 == i, p.r == d.i, p.key.t == w.name(w.k0), p.value.r == d.i, p.value.k == w.k0))]
def h_rows(eng, fr, st, i):
    w = world(eng)
    if st["what"] == "built": fr.locals[st["name"]] = None if eng.branch(i == 0) else Built(w, i)
    for d in local(fr, Datas): d.i, d.pending = i, None
ROWS = LoopSpec(i_rows, h_rows, seq=seq_of(RowTree), entry=e_rows, modifies=lambda eng, fr, st: local(fr, Datas))
def e_types(eng, fr, st): st["fr"] = fr
def i_types(eng, fr, st, i): return []
class Types(LoopSpec):
    def run_for(self, eng, s, fr, it):
        super().run_for(eng, s, fr, it)
        it.final = True
TYPES = Types(i_types, lambda eng, fr, st, i: None, seq=seq_of(lambda w, k: Column(w, k, False)), entry=e_types, modifies=lambda eng, fr, st: [v for v in fr.locals.values() if isinstance(v, Column)])
# ---- computed rows: a select for each
class SelectList(Obj):
    def __init__(self, w, r, x): self.w, self.r, self.x = w, r, x
class Aliased(Obj):
    def __init__(self, this, alias): self.this, self.alias = this, alias
class Ident(Obj):
    def __init__(self, name): self.name = name
class Built(Obj):
    """the union of the selects of rows lo.. before i, duplicates kept"""
    def __init__(self, w, i, lo=None): self.w, self.i, self.lo = w, i, z3.IntVal(0) if lo is None else lo
    def isinstance(self, eng, cls):
        union = eng.branch(self.i - self.lo > 1)
        return any(isinstance(c, type) and issubclass(X.Union if union else X.Select, c) for c in cls)
def s_alias(eng, a, k):
    if a or set(k) != {"this", "alias"} or not isinstance(k["this"], Cell): return NotImplemented
    return Aliased(k["this"], k["alias"])
def s_ident(eng, a, k):
    if not isinstance(a[0], Name): return NotImplemented
    if k.get("quoted") is not True: raise Unsupported("a name without quotes")
    return Ident(a[0])
def s_select(eng, a, k):
    if a or set(k) != {"expressions"}: return NotImplemented
    l = k["expressions"]
    if not isinstance(l, SelectList) or not isinstance(l.x, Aliased) or not isinstance(l.x.alias, Ident): raise Unsupported("select of %r" % (l,))
    w = l.w
    eng.prove("each value under its column", z3.And(l.x.this.r == l.r, l.x.this.k == w.k0, l.x.alias.name.t == w.name(w.k0)))
    return Built(w, l.r + 1, l.r)
def s_union(eng, a, k):
    if a or set(k) != {"this", "expression", "distinct"} or not isinstance(k["this"], Built): return NotImplemented
    x, y = k["this"], k["expression"]
    if not isinstance(y, Built): raise Unsupported("union with %r" % (y,))
    eng.prove("rows follow each other", y.lo == x.i); eng.prove("equal rows are all kept", z3.BoolVal(k["distinct"] is False))
    return Built(x.w, y.i, x.lo)
# ---- specification
def s_insert(eng, a, k):
    w, form = a; w.form = form
    if not form.startswith("columns"): r = z3.Int("r"); eng.assume(z3.ForAll([r], w.size(r) >= 1, patterns=[w.size(r)]))     # no row is empty
    table = Tree(w, X.Table, {})
    columns = form.startswith("columns")
    this = Tree(w, X.Schema, {"this": table, "expressions": ColumnList(w)}) if columns else table
    if not columns: w.K = z3.IntVal(0)
    w.query = Query(w, X.Union if form == "union" else X.Select) if "select" in form or form == "union" else None
    w.rows = Tree(w, X.Values, {"expressions": Rows(w)}) if "values" in form else None
    return Tree(w, X.Insert, {"this": this, "expression": w.query or w.rows or Tree(w, X.Table, {})})
def s_parse_table(eng, a, k):
    w = world(eng)
    return {"db": Name("db", z3.IntVal(0)), "name": Name("table", z3.IntVal(0)), "typing_options": M.SSeq(w.n, w.option, spec=OPTIONS)}
def called(what, arg):
    def h(eng, a, k):
        w = world(eng); w.calls.append((what, a[arg], a[2]["output"] if isinstance(a[2], dict) else None)); return None
    return h
def s_rewrite(eng, a, k): return Rewritten(a[1])
def s_values(eng, a, k):
    w = world(eng)
    eng.prove("the values and columns of the statement are computed", z3.BoolVal(a[1] is w.rows and isinstance(a[2], Columns)))
    if a[1] is w.rows: eng.prove("all columns", a[2].i == w.K)
    w.calls.append(("values", a[1], None))
def special(eng): return z3.And(eng.uf("db_is_-", B)(), eng.uf("table_is__", B)())
def target(eng, w, out):
    """the table, key and mode of an output"""
    if isinstance(out, str): out = Text([out])
    head, tail = (x if isinstance(x, Text) else Text([x]) for x in out.method(eng, "split", ["::"], {}))
    key, mode = tail.method(eng, "split", [" use "], {})
    return head.parts, key, mode
def s_written_as(eng, a, k):
    w, config = a
    outs = [config["output"]] + [c[2] for c in w.calls if c[2] is not None]
    for out in outs:
        head, key, mode = target(eng, w, out)
        table = len(head) == 4 and head[0] == "&." and head[2] == "." and isinstance(head[1], Name) and head[1].what == "db" and isinstance(head[3], Name) and head[3].what == "table"
        if head == ["&.-.&1"]: eng.prove("printed only when asked for", special(eng)); eng.prove("printed rows are appended", mode_of(mode) == 0)
        else:
            if not table: eng.prove("the table named", z3.BoolVal(False))
            eng.prove("the table named is written", z3.Not(special(eng)))
            eng.prove("the first known mode", mode_of(mode) == w.mode())
    head, key, mode = target(eng, w, config["output"])
    if w.query is not None: return key == "id"
    if key == "id": return SBool(w.has_id())
    if isinstance(key, Text) and len(key.parts) == 1: key = key.parts[0]
    return SBool(z3.And(z3.Not(w.has_id()), key.t == w.name(z3.IntVal(0)))) if isinstance(key, Name) and key.what == "column" else False
def s_query_decides(eng, a, k):
    w, config = a; calls = list(w.calls)
    if w.query.parts["with"] is not None:
        if not calls or calls[0][0] != "with" or calls[0][1] is not w.query.parts["with"]: return False
        calls = calls[1:]
    if len(calls) != 1: return False
    what, x, out = calls[0]
    if what == "union": return w.query.cls is X.Union and x is w.query
    return what == "select" and w.query.cls is X.Select and isinstance(x, Rewritten) and x.q is w.query
def s_values_decide(eng, a, k):
    w, config = a
    eng.prove("every row has as many values as there are columns", w.size(w.r0) == w.K)
    if w.calls:
        return len(w.calls) == 1 and w.calls[0][0] == "values"
    datas, schema = config["loader_arguments"]["datas"], config["schema"]
    if config["loader"] != "const_loader" or not isinstance(datas, Datas) or schema is not eng.ghost.get("schema"): return False
    v = schema.value if isinstance(schema.value, Text) else Text([schema.value])
    if not isinstance(schema.key, Name) or len(v.parts) not in (2, 4) or v.parts[0] != "$." or not isinstance(v.parts[1], Name): return False
    cond = [datas.i == w.N, schema.key.t == w.name(w.k0), v.parts[1].t == w.name(w.k0)]
    if len(v.parts) == 4: cond += [z3.BoolVal(v.parts[2] == "|"), v.parts[3].k == w.k0, z3.BoolVal(isinstance(v.parts[3], TypeName)) != w.declared(w.k0)]
    else: cond.append(z3.Not(w.declared(w.k0)))
    return SBool(z3.And(cond))
def s_may_refuse(eng, a, k):
    w, = a
    if "values" in w.form:
        r = z3.Int("r"); return SBool(z3.Or(w.N == 0, z3.Exists([r], z3.And(r >= 0, r < w.N, w.size(r) != w.K))))
    return w.form == "other"
def s_computed(eng, a, k):
    w, config = a
    if len(w.calls) != 1: return False
    what, x, out = w.calls[0]
    if not isinstance(x, Built): return False
    return SBool(z3.And(x.lo == 0, x.i == w.N, (x.i > 1) if what == "union" else (x.i == 1)))
class Case: pass
def s_compiler(eng, a, k):
    c = object.__new__(Compiler); c.mapping, c.with_tables = Mapping(world(eng)), {}
    return c
SUMMARIES = {C.compiler: s_compiler, C.insert_of: s_insert, C.written_as: s_written_as, C.query_decides: s_query_decides, C.values_decide: s_values_decide, C.may_refuse: s_may_refuse, C.computed: s_computed,
    C.rows_of: lambda eng, a, k: setattr(a[0], "form", a[1]) or setattr(a[0], "rows", Tree(a[0], X.Values, {"expressions": Rows(a[0])})) or a[0].rows, C.columns_of: lambda eng, a, k: Columns(a[0], a[0].K),
    Compiler.parse_table: s_parse_table, Compiler.compile_with: called("with", 1), Compiler.compile_union: called("union", 1), Compiler.compile_select: called("select", 1), Compiler.optimize_rewrite: s_rewrite,
    Compiler.is_const: s_is_const, Compiler.parse_const: s_parse_const, Compiler.to_sql: lambda eng, a, k: "sql", zip: m_zip, any: m_any, all: m_all, set: m_set, type: m_type,
    X.Alias: s_alias, X.to_identifier: s_ident, X.Select: s_select, X.Union: s_union}
CONTRACT_SUMMARIES = {"compiled": {Compiler.compile_insert_into_calculate_values: s_values}}
SYMS = {"statement": lambda eng, name: world(eng)}
def setup(eng):
    eng.ghost["comprehension"], eng.ghost["dictcomp"], eng.ghost["join"] = comprehension, dictcomp, join
SETUP = {"compiled": setup, "computed_values": setup}
