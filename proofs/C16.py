from proofs.common import *
from contracts import C16 as C
from collections import defaultdict
from syncanysql.taskers import query as Q
from syncanysql import executor as EX
from syncany.database import find_database
ASSUMPTIONS = ["registration (compile_tasker) is proved for one table name of every prefix class (subquery, union, WITH result, other memory table, other database, no dot, empty, none), for arbitrary users of every name",
    "a memory database deletes the table it is told to (MemoryDB.delete / commit)", "defaultdict(int) is a mapping whose missing entries read as 0 and are then present"]
BA, IA = z3.ArraySort(S, B), z3.ArraySort(S, I)

class Counts(M.LazyInstance):
    """defaultdict(int) from names"""
    def __init__(self, has, val): self.has, self.val = has, val
    def truth(self, eng): raise Unsupported("truth of the collections")
    def contains(self, eng, k): return SBool(z3.Select(self.has, str_of(k)))
    def getitem(self, eng, k):
        k = str_of(k)
        v = z3.If(z3.Select(self.has, k), z3.Select(self.val, k), z3.IntVal(0))
        self.put(eng, k, v)
        return SInt(v)
    def put(self, eng, k, v):
        M.log_write(eng, self, None)
        self.has, self.val = z3.Store(self.has, k, z3.BoolVal(True)), z3.Store(self.val, k, v)
    def setitem(self, eng, k, v): self.put(eng, str_of(k), zi(v))
    def delitem(self, eng, k): self.drop(eng, k, None, True)
    def drop(self, eng, k, default, strict):
        k = str_of(k)
        if not eng.branch(z3.Select(self.has, k)):
            if strict: eng.raise_(KeyError, "missing")
            return default
        v = z3.Select(self.val, k)
        M.log_write(eng, self, None)
        self.has = z3.Store(self.has, k, z3.BoolVal(False))
        return SInt(v)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "pop": return self.drop(eng, args[0], args[1] if len(args) > 1 else None, len(args) == 1)
        if name == "get":
            k = str_of(args[0])
            if eng.branch(z3.Select(self.has, k)): return SInt(z3.Select(self.val, k))
            return args[1] if len(args) > 1 else None
        if name == "setdefault" and len(args) == 2:
            if not eng.branch(z3.Select(self.has, str_of(args[0]))): self.setitem(eng, args[0], args[1])
            return self.getitem(eng, args[0])
        if name == "__contains__": return self.contains(eng, args[0])
        if name == "__getitem__": return self.getitem(eng, args[0])
        raise Unsupported("collections.%s" % name)
    def concretize(self, eng, m): return None
def s_defaultdict(eng, a, k):
    if len(a) != 1 or a[0] is not int: raise Unsupported("defaultdict of %r" % (a,))
    return Counts(z3.K(S, z3.BoolVal(False)), z3.K(S, z3.IntVal(0)))
def state(eng, name): return Counts(eng.fresh("known", BA), eng.fresh("users", IA))
def s_manager(eng, a, k):
    m = object.__new__(Q.QueryTaskerTemporaryMemoryManager); m.collections = a[0]
    return m
def a_name(eng, name): return SStr(eng.fresh(name, S))
def maybe_name(eng, name): return None if eng.branch(eng.fresh("unnamed", B)) else SStr(eng.fresh("name", S))
def names_seq(eng, name):
    n = eng.fresh("n_names", I); eng.assume(n >= 0)
    f = eng.uf("temporary_name", I, S)
    def get(i):
        for x in eng.ghost.setdefault("indices", []):
            if not z3.eq(x, i): eng.assume(z3.Implies(z3.And(i >= 0, i < n, x >= 0, x < n, x != i), f(x) != f(i)))
        eng.ghost["indices"].append(i)
        return SStr(f(i))
    seq = M.SSeq(n, get)
    eng.ghost["names"] = (n, f, get)
    return seq
def index(eng, name):
    i = eng.sym("int", "i"); eng.assume(i.t >= 0); return i
class Streams(M.LazyInstance):
    def __init__(self, eng): self.f = eng.uf("streaming", S, B)
    def getitem(self, eng, k): return SBool(self.f(str_of(k)))
    def concretize(self, eng, m): return None
OPS = ["add", "use", "end", "free"]
def ops_seq(eng, name):
    n = eng.fresh("n_ops", I); eng.assume(n >= 0)
    f, g = eng.uf("op", I, I), eng.uf("op_name", I, S)
    def get(i):
        k = eng.choose([f(i) == 0, f(i) == 1, f(i) == 2, z3.And(f(i) != 0, f(i) != 1, f(i) != 2)])
        return (OPS[k], SStr(g(i)))
    return M.SSeq(n, get)
SYMS = {"ops": ops_seq, "a_name": a_name, "state": state, "name": maybe_name, "names": names_seq, "index": index, "other_name": a_name, "streaming": lambda eng, n: Streams(eng)}

# ---- histories
def h_inv(eng, fr, st, i):
    c, x = fr.locals["m"].collections, str_of(fr.locals["x"])
    alive, pending = zb(eng, fr.locals["alive"]), zi(fr.locals["pending"])
    return [("the result is known as long as it lives", z3.Select(c.has, x) == alive), ("its pending users are counted", z3.If(alive, z3.Select(c.val, x) == pending, pending == 0))]
def h_havoc(eng, fr, st, i):
    c = fr.locals["m"].collections
    c.has, c.val = eng.fresh("known", BA), eng.fresh("users", IA)
    fr.locals["alive"], fr.locals["pending"] = SBool(eng.fresh("alive", B)), eng.sym("int", "pending")
def h_modifies(eng, fr, st): return [fr.locals["m"].collections]

# ---- a task runs to its end
def s_exhaust(eng, a, k):
    if not isinstance(a[0], M.LazyGen): raise Unsupported("not a generator")
    a[0].run(eng)
def s_setup(eng):
    eng.ghost["generators"] = lambda e, node, fr: M.LazyGen(node, fr)
    eng.ghost["on_yield"] = lambda e, v, fr: None
def steps_of(t): return t.steps
def t_inv(eng, fr, st, i):
    t = fr.locals["self"]
    return [("the task takes its steps", zi(t.steps.left) >= 0)]
def t_havoc(eng, fr, st, i): fr.locals["self"].steps.left = eng.sym("int", "left")
def t_modifies(eng, fr, st): return [fr.locals["self"].steps]
def r_inv(eng, fr, st, i):
    s = fr.locals["self"].steps
    left, pause, s0 = zi(s.left), zi(s.pause), st.get("start")
    return [("the task takes its steps", z3.And(left >= 0, left <= s0)), ("it did not pause so far", z3.Not(z3.And(pause >= left, pause < s0))),
            ("it was not queued again", z3.BoolVal(len(fr.locals["executor"].added) == 0))]
def r_modifies(eng, fr, st): return [fr.locals["self"].steps, fr.locals["executor"].added]
def r_entry(eng, fr, st): st["start"] = zi(fr.locals["self"].steps.left)

# ---- clearing
def s_find_database(eng, a, k):
    if a[0] == "pyvcmemory": return C.Opened
    if a[0] == "memory": raise Unsupported("the real memory database")
    eng.raise_(find_database_error(), a[0])
def find_database_error():
    from syncany.errors import DatabaseUnknownException
    return DatabaseUnknownException
class Deleted(M.LazyInstance):
    """how often each name was deleted"""
    def __init__(self, counts): self.counts = counts
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append": raise Unsupported("deleted.%s" % name)
        M.log_write(eng, self, None)
        k = str_of(args[0]); self.counts = z3.Store(self.counts, k, z3.Select(self.counts, k) + 1)
def s_kept(eng, a, k):
    o = object.__new__(C.Kept)
    o.streaming, o.fail_at, o.deleted, o.closed = a[0], a[1], (Deleted(z3.K(S, z3.IntVal(0))) if isinstance(a[0], Streams) else []), 0
    return o
def s_times(eng, a, k):
    return SInt(z3.Select(a[0].counts, str_of(a[1]))) if isinstance(a[0], Deleted) else a[0].count(a[1])
def s_is_none_of(eng, a, k):
    n, f, get = eng.ghost["names"]
    eng.ghost["foreign"] = str_of(a[1])
    return True
def c_inv(eng, fr, st, i):
    n, f, get = eng.ghost["names"]
    d, w, x = C.Opened.current.deleted, an_index(eng), eng.ghost["foreign"]
    skip = z3.And(waiting(fr), eng.uf("streaming", S, B)(str_of(get(w))))
    return [("a name whose turn has come was deleted once", z3.Implies(z3.And(w >= 0, w < n), z3.Select(d.counts, str_of(get(w))) == z3.If(z3.And(w < i, z3.Not(skip)), 1, 0))),
            ("no other table is deleted", z3.Select(d.counts, x) == 0)]
def an_index(eng): return zi(eng.inputs[3][1])
def waiting(fr): return z3.BoolVal(len(fr.locals["self"].runners) > 0)
def c_havoc(eng, fr, st, i): C.Opened.current.deleted.counts = eng.fresh("deleted", IA)
def c_modifies(eng, fr, st): return [C.Opened.current.deleted]
def c_seq(eng, it):
    n, f, get = eng.ghost["names"]
    def at(i):
        v = get(i); eng.assume(z3.Implies(z3.And(i >= 0, i < n), str_of(v) != eng.ghost["foreign"]))
        return v
    return n, at
SUMMARIES = {defaultdict: s_defaultdict, C.manager: s_manager, C.exhaust: s_exhaust, find_database: s_find_database, C.Kept: s_kept, C.times: s_times, C.is_none_of: s_is_none_of}
SETUP = {"every_end_is_told": s_setup}
L = "syncanysql.taskers.query:QueryTasker."
CONTRACT_LOOPS = {"history": {("contracts.C16:play", 0): LoopSpec(h_inv, h_havoc, h_modifies)},
    "every_end_is_told": {(L + "run_tasker", 0): LoopSpec(t_inv, t_havoc, t_modifies)},
    "query_end": {(L + "run", 0): LoopSpec(r_inv, t_havoc, r_modifies, entry=r_entry)},
    "cleared": {("syncanysql.executor:Executor.clear_temporary_memory_collection", 0): LoopSpec(c_inv, c_havoc, c_modifies, seq=c_seq)}}
