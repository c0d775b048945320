from proofs.common import *
from contracts import C18 as C
from syncanysql.taskers import into as IN
ASSUMPTIONS = ["the rows of the intermediate result carry every selected column; for SELECT * the columns of several variables are those of the first row",
    "the variables of one statement are distinct", "the executor's queue is a collections.deque (contains / remove / append)"]
# what a variable can hold
Enc = z3.Datatype("Enc")
Enc.declare("plain", ("plain_v", Val)); Enc.declare("column", ("column_key", S)); Enc.declare("record", ("record_i", I)); Enc.declare("records")
Enc.declare("row", ("row_i", I)); Enc.declare("rows")
Enc = Enc.create()
NONE = Enc.plain(Val.none)

class World:
    """arbitrary numbers of rows, columns and variables"""
    def __init__(self, eng):
        self.n, self.k, self.m = eng.fresh("rows", I), eng.fresh("columns", I), eng.fresh("variables", I)
        eng.assume(z3.And(self.n >= 0, self.k >= 1, self.m >= 1))
        self.eng = eng
    def cell(self, j, key): return self.eng.uf("cell", I, S, Val)(j, key)
    def key(self, c): return self.eng.uf("column_name", I, S)(c)
    def width(self, j):
        t = self.eng.uf("row_width", I, I)(j); self.eng.axiom(("w", t.get_id()), lambda: t >= 1); return t
    def rowkey(self, j, c): return self.eng.uf("row_key", I, I, S)(j, c)
    def has(self, j, key):
        """a row carries the selected columns and its own; what it does not carry reads as NULL"""
        t = self.eng.uf("row_has", I, S, B)(j, key)
        def ax():
            cs = [z3.Implies(z3.Not(t), self.cell(j, key) == Val.none)]
            d = key.decl().name() if z3.is_app(key) else ""
            if d == "column_name": cs.append(z3.Implies(z3.And(key.arg(0) >= 0, key.arg(0) < self.k), t))
            if d == "row_key": cs.append(z3.Implies(z3.And(key.arg(0) == j, key.arg(1) >= 0, key.arg(1) < self.width(j)), t))
            return z3.And(cs)
        self.eng.axiom(("has", t.get_id()), ax)
        return t
    def var(self, i): return self.eng.uf("variable_name", I, S)(i)
    def columns(self): return M.SSeq(self.k, lambda c: SStr(self.key(c)))
    def concretize(self, eng, m): return None

class Row(M.LazyInstance):
    def __init__(self, w, j): self.w, self.j = w, j
    def isinstance(self, eng, cls): return dict in list(cls)
    def len(self, eng): return SInt(self.w.width(self.j))
    def truth(self, eng): return True
    def contains(self, eng, k): return SBool(self.w.has(self.j, str_of(k)))
    def getitem(self, eng, k):
        if not eng.branch(self.w.has(self.j, str_of(k))): eng.raise_(KeyError, "no such column")
        return SVal(self.w.cell(self.j, str_of(k)))
    def method(self, eng, name, args, kw):
        w, j = self.w, self.j
        if name == "get" and len(args) == 1:
            w.has(j, str_of(args[0])); return SVal(w.cell(j, str_of(args[0])))
        if name == "get" and len(args) == 2: return self.getitem(eng, args[0]) if eng.branch(w.has(j, str_of(args[0]))) else args[1]
        if name == "keys": return M.SSeq(w.width(j), lambda c: SStr(w.rowkey(j, c)))
        if name == "values": return M.SSeq(w.width(j), lambda c: SVal(w.cell(j, w.rowkey(j, c))))
        raise Unsupported("row.%s" % name)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def enc(self, eng): return Enc.row(self.j)
class Record(M.LazyInstance):
    """{key: value(key) for key in columns}"""
    def __init__(self, keys, value): self.keys, self.value = keys, value
    def isinstance(self, eng, cls): return dict in list(cls)
    def truth(self, eng): return SBool(self.keys.n > 0)
    def len(self, eng): return SInt(self.keys.n)
    def has(self, eng, k):
        k = str_of(k)
        if k.decl().name() == "column_name": 
            c = k.arg(0)
            same = self.keys.get(c)
            if z3.eq(str_of(same), k): return z3.And(c >= 0, c < self.keys.n)
        if k.decl().name() == "row_key":
            c = k.arg(1)
            if z3.eq(z3.simplify(str_of(self.keys.get(c))), z3.simplify(k)): return z3.And(c >= 0, c < self.keys.n)
        raise Unsupported("membership of %s" % k)
    def getitem(self, eng, k):
        if not eng.branch(self.has(eng, k)): eng.raise_(KeyError, "no such column")
        return self.value(k)
    def method(self, eng, name, args, kw):
        if name == "get": return self.value(args[0]) if eng.branch(self.has(eng, args[0])) else (args[1] if len(args) > 1 else None)
        raise Unsupported("record.%s" % name)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def enc(self, eng):
        """exactly the selected columns, each with the row's value"""
        w = eng.ghost["world"]
        c = eng.fresh("c", I); v = to_val(self.value(self.keys.get(c)))
        if not (z3.is_app(v) and v.decl().name() == "cell"): raise Unsupported("record value %s" % v)
        j = v.arg(0)
        eng.prove("the record has exactly the selected columns", z3.And(self.keys.n == w.k, z3.Implies(z3.And(c >= 0, c < w.k), z3.And(str_of(self.keys.get(c)) == w.key(c), v.arg(1) == w.key(c)))))
        return Enc.record(j)
class Rows(M.SSeq):
    __slots__ = ()
def enc(eng, v):
    w = eng.ghost["world"]
    if isinstance(v, (Row, Record)): return v.enc(eng)
    if isinstance(v, Rows): return Enc.rows
    if isinstance(v, list) and not v:
        eng.prove("an empty list stands for no rows", w.n == 0); return Enc.rows
    if isinstance(v, M.SSeq):
        eng.prove("the list has one entry per row", v.n == w.n)
        j = eng.fresh("j", I); eng.assume(z3.Implies(w.n > 0, z3.And(j >= 0, j < w.n)))
        t = enc(eng, v.get(j))
        d = t.decl().name()
        if d == "plain" and t.arg(0).decl().name() == "cell" and z3.eq(t.arg(0).arg(0), j): return Enc.column(t.arg(0).arg(1))
        if d == "record" and z3.eq(t.arg(0), j): return Enc.records
        if d == "row" and z3.eq(t.arg(0), j): return Enc.rows
        raise Unsupported("list of %s" % t)
    return Enc.plain(to_val(v))
def same_enc(eng, a, b):
    """no rows: a list of columns, records or rows is the same empty list"""
    w = eng.ghost["world"]
    lst = lambda t: z3.Or(Enc.is_column(t), Enc.is_records(t), Enc.is_rows(t))
    return z3.Or(a == b, z3.And(w.n == 0, lst(a), lst(b)))

class Env(M.LazyInstance):
    def __init__(self, eng, name):
        self.has, self.val = eng.fresh(name + "_has", z3.ArraySort(S, B)), eng.fresh(name + "_val", z3.ArraySort(S, Enc))
    def copy(self):
        e = object.__new__(Env); e.has, e.val = self.has, self.val; return e
    def contains(self, eng, k): return SBool(z3.Select(self.has, str_of(k)))
    def setitem(self, eng, k, v):
        M.log_write(eng, self, k) if hasattr(M, "log_write") else None
        k = str_of(k); t = enc(eng, v)
        self.has, self.val = z3.Store(self.has, k, z3.BoolVal(True)), z3.Store(self.val, k, t)
    def getattr(self, eng, name): raise Unsupported("variables.%s" % name)
    def method(self, eng, name, args, kw): raise Unsupported("variables.%s" % name)
class Runners(M.LazyInstance):
    def __init__(self): self.queued, self.statement = z3.BoolVal(False), None
    def contains(self, eng, x): return SBool(self.queued) if isinstance(x, C.Statement) else False
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        M.log_write(eng, self, name)
        if name == "append" and isinstance(args[0], C.Statement): self.queued = z3.BoolVal(True); return None
        if name == "remove" and isinstance(args[0], C.Statement):
            if not eng.branch(self.queued): eng.raise_(ValueError, "not queued")
            self.queued = z3.BoolVal(False); return None
        raise Unsupported("runners.%s" % name)

def world(eng, name, known=True):
    w = eng.ghost["world"] = World(eng)
    env = Env(eng, "env")
    def variable(i):
        t = w.var(i)
        if known: eng.assume(z3.Implies(z3.And(i >= 0, i < w.m), z3.Select(eng.ghost["env0"].has, t)))
        for x in eng.ghost.get("names", []): eng.assume(z3.Implies(z3.And(i >= 0, i < w.m), t != x))
        for x in eng.ghost.setdefault("indices", []):
            if not z3.eq(x, i): eng.assume(z3.Implies(z3.And(i >= 0, i < w.m, x >= 0, x < w.m, x != i), w.var(x) != t))
        eng.ghost["indices"].append(i)
        return SStr(t)
    star = eng.branch(eng.fresh("star", B))
    eng.ghost["env0"] = env.copy()
    left = eng.sym("int", "batches"); eng.assume(left.t >= 1)
    return {"variables": M.SSeq(w.m, variable), "columns": None if star else w.columns(), "rows": Rows(w.n, lambda j: Row(w, j)), "env": env, "batches": left, "runners": Runners()}
class Schema(M.LazyInstance):
    def __init__(self, w): self.w = w
    def isinstance(self, eng, cls): return dict in list(cls)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "keys": return self.w.columns()
        raise Unsupported("schema.%s" % name)
    def iterate(self, eng): raise Unsupported("iteration over the schema")
def other(eng, name):
    """any name that is no variable of the statement"""
    t = eng.fresh("other_name", S); eng.ghost.setdefault("names", []).append(t)
    return SStr(t)
def index(eng, name):
    i = eng.sym("int", "i"); eng.assume(i.t >= 0); return i
SYMS = {"index": index, "world": world, "fresh_world": lambda eng, n: world(eng, n, False), "other": other, "any_name": lambda eng, n: SStr(eng.fresh("any_name", S))}

def s_schema(eng, a, k): return "$.*" if a[0]["columns"] is None else Schema(eng.ghost["world"])
def s_holds(eng, a, k):
    env, name, v = a
    n = str_of(name)
    return SBool(z3.And(z3.Select(env.has, n), same_enc(eng, z3.Select(env.val, n), enc(eng, v))))
def s_unchanged(eng, a, k):
    env, before, name = a; n = str_of(name)
    return SBool(z3.And(z3.Select(env.has, n) == z3.Select(before.has, n), z3.Implies(z3.Select(env.has, n), z3.Select(env.val, n) == z3.Select(before.val, n))))
def comprehension(eng, e, fr):
    """[f(x) for x in seq]: f at an arbitrary position (its errors there are the comprehension's)"""
    if len(e.generators) != 1: return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if not isinstance(it, M.SSeq): return None
    if isinstance(e, E.ast.GeneratorExp): return None
    def at(i, node):
        inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
        inner.localnames = set(); inner.node = fr.node
        eng.assign(g.target, it.get(i), inner)
        return eng.eval(node, inner)
    j = eng.fresh("position", I)
    if eng.branch(it.n > 0):
        eng.assume(z3.And(j >= 0, j < it.n))
        for c in g.ifs:
            if not eng.entailed(zb(eng, at(j, c))): raise Unsupported("filtering comprehension")
        at(j, e.elt)
    return M.SSeq(it.n, lambda i: at(i, e.elt))
def dictcomp(eng, e, fr):
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]
    it = eng.eval(g.iter, fr)
    if not isinstance(it, M.SSeq): return None
    def at(key, node):
        inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
        inner.localnames = set(); inner.node = fr.node
        eng.assign(g.target, key, inner)
        return eng.eval(node, inner)
    c = eng.fresh("position", I)
    if not eng.entailed(str_of(at(it.get(c), e.key)) == str_of(it.get(c))): raise Unsupported("renamed keys")
    return Record(it, lambda k: at(k, e.value))
SUMMARIES = {C.schema_of: s_schema, C.holds: s_holds, C.unchanged: s_unchanged, C.snapshot: lambda eng, a, k: a[0].copy(),
    C.unset: lambda eng, a, k: SBool(z3.Not(z3.Select(a[0].has, str_of(a[1])))), C.no_variable: lambda eng, a, k: True, C.others_kept: lambda eng, a, k: SBool(z3.Not(a[0].queued))}
def setup(eng): eng.ghost["comprehension"], eng.ghost["dictcomp"] = comprehension, dictcomp
SETUP = {n: setup for n in ("stored", "failure", "started", "no_query")}

# while the query queues itself again
def q_inv(eng, fr, st, i):
    s, r = fr.locals["self"], fr.locals["executor"].runners
    left = zi(s.tasker.left)
    return [("the query is queued as long as batches are left", z3.And(left >= 0, r.queued == (left > 0)))]
def q_havoc(eng, fr, st, i):
    s, r = fr.locals["self"], fr.locals["executor"].runners
    s.tasker.left = eng.sym("int", "left"); r.queued = eng.fresh("queued", B)
def q_modifies(eng, fr, st): return [fr.locals["self"].tasker, fr.locals["executor"].runners]
# one variable after the other
def an_index(eng): return zi(eng.inputs[1][1])
def other_name(eng): return str_of(eng.inputs[2][1])
def value_of(eng, fr, v):
    """what variable v holds after its turn"""
    w, rows = eng.ghost["world"], fr.locals["datas"]
    key = str_of(fr.locals["schema_keys"].get(v)) if isinstance(fr.locals["schema_keys"], M.SSeq) else None
    if key is None: return NONE
    w.has(z3.IntVal(0), key)
    return z3.If(v < fr.locals["schema_keys"].n, z3.If(w.n == 1, Enc.plain(w.cell(z3.IntVal(0), key)), Enc.column(key)), NONE)
def v_inv(eng, fr, st, i):
    w, env, env0 = eng.ghost["world"], fr.locals["executor"].env_variables, eng.ghost["env0"]
    v, o = an_index(eng), other_name(eng)
    fr.locals["self"].config["variables"].get(v)
    return [("a variable has its value after its turn", z3.Implies(z3.And(v >= 0, v < i), same_enc(eng, z3.Select(env.val, w.var(v)), value_of(eng, fr, v)))),
            ("the variables stay", env.has == env0.has), ("no other variable changes", z3.Select(env.val, o) == z3.Select(env0.val, o))]
def v_havoc(eng, fr, st, i):
    env = fr.locals["executor"].env_variables
    env.has, env.val = eng.fresh("has", z3.ArraySort(S, B)), eng.fresh("val", z3.ArraySort(S, Enc))
def v_modifies(eng, fr, st): return [fr.locals["executor"].env_variables]
# start
def n_inv(eng, fr, st, i):
    w, env, env0 = eng.ghost["world"], fr.locals["executor"].env_variables, eng.ghost["env0"]
    v, o = an_index(eng), other_name(eng)
    n = str_of(fr.locals["self"].config["variables"].get(v))
    had = z3.Select(env0.has, n)
    return [("a variable is known after its turn", z3.Implies(z3.And(v >= 0, v < w.m), z3.And(z3.Select(env.has, n) == z3.Or(had, v < i),
                z3.Select(env.val, n) == z3.If(z3.And(z3.Not(had), v < i), NONE, z3.Select(env0.val, n))))),
            ("no other variable changes", z3.And(z3.Select(env.has, o) == z3.Select(env0.has, o), z3.Select(env.val, o) == z3.Select(env0.val, o)))]
L = "syncanysql.taskers.into:IntoTasker."
CONTRACT_LOOPS = {n: {(L + "run", 0): LoopSpec(q_inv, q_havoc, q_modifies), (L + "run", 1): LoopSpec(v_inv, v_havoc, v_modifies), (L + "start", 0): LoopSpec(n_inv, v_havoc, v_modifies)} for n in ("stored", "failure", "started", "no_query")}
