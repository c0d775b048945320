from proofs.common import *
from contracts import C17 as C
from syncanysql import executor as EX
ASSUMPTIONS = ["the queue is a collections.deque (append, extend, popleft, len)", "the compiler and the tasks behave as any tasks: they may add tasks and may fail (their own behaviour is the subject of other properties)",
    "one thread runs one execution at a time (threading.local)"]

class Queue(M.LazyInstance):
    """the queued tasks lo .. hi-1, in order"""
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def truth(self, eng): return SBool(self.hi > self.lo)
    def len(self, eng): return SInt(self.hi - self.lo)
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def push(self, eng, t):
        if not isinstance(t, C.Task): raise Unsupported("queued %r" % (t,))
        eng.prove("tasks are queued in the order they are added", zi(t.i) == self.hi)
        M.log_write(eng, self, None); self.hi = self.hi + 1
    def method(self, eng, name, args, kw):
        if name == "append": return self.push(eng, args[0])
        if name == "popleft":
            if not eng.branch(self.hi > self.lo): eng.raise_(IndexError, "empty")
            M.log_write(eng, self, None)
            t = task(eng.ghost["world"], self.lo); self.lo = self.lo + 1
            return t
        if name == "pop":
            if not eng.branch(self.hi > self.lo): eng.raise_(IndexError, "empty")
            M.log_write(eng, self, None)
            self.hi = self.hi - 1
            return task(eng.ghost["world"], self.hi)
        if name == "extend":
            x = args[0]
            if isinstance(x, (list, tuple)):
                for t in x: self.push(eng, t)
                return
            if not isinstance(x, M.SSeq): raise Unsupported("extend")
            j = eng.fresh("j", I)
            t = x.get(j)
            eng.prove("tasks are queued in the order they are returned", z3.Implies(z3.And(j >= 0, j < x.n), zi(t.i) == self.hi + j))
            M.log_write(eng, self, None); self.hi = self.hi + x.n
            return
        if name == "clear": M.log_write(eng, self, None); self.lo = self.hi; return
        raise Unsupported("queue.%s" % name)
def task(w, i):
    t = object.__new__(C.Task); t.world, t.i = w, SInt(z3.simplify(i))
    return t
def s_world(eng, a, k):
    w = object.__new__(C.World); w.adds, w.fail, w.kind, w.ran, w.queued = a[0], a[1], a[2] if len(a) > 2 else "plain", 0, 0
    eng.ghost["world"] = w
    return w
def s_added(eng, a, k):
    t = eng.uf("adds", I, I)(zi(a[1])); eng.assume(t >= 0)
    return SInt(t)
def s_tasks(eng, a, k): return M.SSeq(zi(a[1]), lambda j: task(a[0], j))
def s_numbered(eng, a, k):
    w, n = a; base = zi(w.queued); w.queued = SInt(z3.simplify(base + zi(n)))
    return M.SSeq(zi(n), lambda j: task(w, base + j))
def s_compile_with(eng, a, k):
    eng.ghost["compiler"] = a[0]
    return eng.call(a[1], list(a[2:]))
def s_compiler(eng, a, k):
    c = eng.ghost["compiler"]; c.args = tuple(a)
    return c
def s_in_order(eng, a, k):
    q, w = a[0].runners, a[1]
    return SBool(z3.And(q.lo == 0, q.hi == zi(w.queued)))
def s_statements(eng, a, k):
    def get(i):
        s = object.__new__(C.Statement); s.i, s.lineno = SInt(i), SInt(eng.uf("lineno", I, I)(i))
        return s
    return M.SSeq(zi(a[0]), get)
def s_text(eng, a, k): return SStr(eng.uf("statement", I, S)(zi(a[0])))
def s_nested(eng, a, k):
    f, fails, kind, log = a
    def make(manager, session, parent=None):
        c = object.__new__(C.Child)
        c.session_config, c.manager, c.parent_executor, c.runners, c.tasker, c.log, c.fails, c.kind = session, "manager", parent, None, None, log, fails, kind
        return c
    eng.ghost["make"] = make
    return eng.call(f, [])
def s_executor(eng, a, k): return eng.ghost["make"](*a)
from syncanysql.parser import FileParser
SUMMARIES = {C.World: s_world, C.queue: lambda eng, a, k: Queue(z3.IntVal(0), z3.IntVal(0)), C.added: s_added, C.tasks: s_tasks, C.numbered: s_numbered, C.compile_with: s_compile_with, EX.Compiler: s_compiler,
    C.fill: lambda eng, a, k: Queue.method(a[0].runners, eng, "extend", [a[1]], {}), C.waiting: lambda eng, a, k: a[0].runners.len(eng), C.first: lambda eng, a, k: SInt(a[0].runners.lo),
    C.in_order: s_in_order, C.statements_of: s_statements, C.text: s_text, C.nested: s_nested, EX.Executor: s_executor, FileParser: lambda eng, a, k: C.Files(*a)}
SYMS = {"adds": lambda eng, n: None}
# a task adds its tasks
def a_inv(eng, fr, st, i):
    w, q = fr.locals["w"], fr.locals["executor"].runners
    return [("the queue ends with the task added last", z3.And(q.hi == zi(w.queued), zi(w.queued) >= zi(w.ran)))]
def a_havoc(eng, fr, st, i):
    w, q = fr.locals["w"], fr.locals["executor"].runners
    q.hi, w.queued = eng.fresh("hi", I), eng.sym("int", "queued")
def a_modifies(eng, fr, st): return [fr.locals["w"], fr.locals["executor"].runners]
# while tasks are queued
def x_inv(eng, fr, st, i):
    w, s = eng.ghost["world"], fr.locals["self"]
    q, fail, ran = s.runners, zi(w.fail), zi(w.ran)
    return [("the next task is the first that has not run", z3.And(q.lo == ran, q.hi == zi(w.queued), ran >= 0, q.lo <= q.hi)), ("no task failed so far", z3.Or(fail < 0, fail >= ran)),
            ("no task is current", z3.BoolVal(s.tasker is None))]
def x_havoc(eng, fr, st, i):
    w, q = eng.ghost["world"], fr.locals["self"].runners
    q.lo, q.hi, w.ran, w.queued = eng.fresh("lo", I), eng.fresh("hi", I), eng.sym("int", "ran"), eng.sym("int", "queued")
def x_modifies(eng, fr, st): return [eng.ghost["world"], fr.locals["self"], fr.locals["self"].runners]
# statement after statement
def s_inv(eng, fr, st, i):
    s = fr.locals["self"]
    return [("as many statements were started as were read", z3.And(zi(s.done) == i, zi(s.read) == i)), ("none failed so far", z3.Or(zi(s.fail) < 1, zi(s.fail) > i))]
def s_havoc(eng, fr, st, i): fr.locals["self"].done, fr.locals["self"].read = eng.sym("int", "done"), eng.sym("int", "read")
def s_modifies(eng, fr, st): return [fr.locals["self"]]
L = "syncanysql.executor:Executor."
CONTRACT_LOOPS = {"queue_order": {(L + "execute", 0): LoopSpec(x_inv, x_havoc, x_modifies), ("contracts.C17:Task.run", 0): LoopSpec(a_inv, a_havoc, a_modifies)},
    "script_order": {(L + "run", 0): LoopSpec(s_inv, s_havoc, s_modifies)}}
