"""C17  Statements run in order and nested scripts restore the caller."""
import os, shutil, tempfile, threading
from collections import deque
from pyvc.api import *
from contracts import sqlrun
from syncanysql import executor as EX
from syncanysql.executor import Executor
from syncanysql.taskers import execute as XT
from syncanysql.taskers.execute import ExecuteTasker
import syncanysql as SQ

P = "C17"
T = "syncanysql/executor.py:Executor."

ERRORS = {"plain": ValueError, "signal": SystemError, "interrupt": KeyboardInterrupt}
KIND = Choice("plain", "signal", "interrupt")
def attempt(f, *args):
    try: return "ok", f(*args)
    except BaseException: return "error", None
def current(): return Executor.current()
def leave_all(): Executor._thread_local.current_executor = None
def bare(cls, parent=None):
    """an execution with an empty queue"""
    e = object.__new__(cls)
    e.session_config, e.manager, e.parent_executor, e.runners, e.tasker = "session", "manager", parent, queue(0), None
    return e

# ---- the queue: tasks are numbered as they are queued
class World:
    """how many tasks each task adds, which one fails"""
    def __init__(self, adds, fail, kind="plain"): self.adds, self.fail, self.kind, self.ran, self.queued = adds, fail, kind, 0, 0
def added(world, i):
    """SPEC: how many tasks task i adds"""
    return world.adds[i % len(world.adds)] if world.queued < 40 else 0
class Task:
    def __init__(self, world, i): self.world, self.i = world, i
    def run(self, executor, session_config, manager):
        w = self.world
        assert self.i == w.ran, "tasks run first-in first-out, each exactly once"
        w.ran += 1
        assert executor.tasker is self, "the running task is the current one"
        assert session_config == "session" and manager == "manager", "in the session it was queued in"
        assert current() is executor, "its execution is the current one"
        for j in range(added(w, self.i)):
            executor.add_runner(Task(w, w.queued)); w.queued += 1
        if self.i == w.fail: raise ERRORS[w.kind]("the task failed")
def tasks(world, n):
    """SPEC: the first n tasks"""
    return [Task(world, i) for i in range(n)]
def queue(n): return deque()
def fill(e, ts):
    """SPEC: the queue holds exactly these tasks"""
    e.runners.extend(ts)
def waiting(e):
    """SPEC: number of queued tasks"""
    return len(e.runners)
def first(e):
    """SPEC: the number of the next task"""
    return e.runners[0].i
@contract(P, {"n": Int(0, None, pool=[0, 1, 2, 3, 5]), "adds": Custom("adds", lambda r: [r.randint(0, 2) for _ in range(r.randint(1, 4))]), "fail": Int(-1, None, pool=[-1, 0, 1, 2, 4]), "kind": KIND}, targets=[T + "execute", T + "add_runner"], cases=500)
def queue_order(n, adds, fail, kind):
    w = World(adds, fail, kind)
    leave_all()
    e = bare(Executor)
    fill(e, tasks(w, n)); w.queued = n
    r = attempt(e.execute)
    assert (r[0] == "error") == (0 <= fail and fail < w.ran), "a failing task is reported"
    assert e.tasker is None, "no task is current any more"
    if r[0] == "ok": assert w.ran == w.queued and waiting(e) == 0, "every task ran"
    else:
        assert w.ran == fail + 1, "no task runs after a failing one"
        if waiting(e) > 0: assert first(e) == w.ran and waiting(e) == w.queued - w.ran, "what is still queued is in order and has not run"
    leave_all()

# ---- statements of a script
class Statement:
    def __init__(self, i, lineno): self.i, self.lineno = i, lineno
    def __str__(self): return text(self.i)
def text(i):
    """SPEC: the text of statement i"""
    return "SELECT %d AS Ab" % i
class Scripted(Executor):
    """the compiler is replaced: statements must arrive in order"""
    def compile_variable(self, sql):
        assert sql == text(self.done), "statements are read in source order"
        self.read += 1
        return "select v"
    def compile(self, name, sql):
        assert self.read == self.done + 1 and sql == "select v", "each statement is started once, after its variables are replaced"
        assert current() is self, "in this execution"
        self.done += 1
        if self.done == self.fail: raise ValueError("the statement failed")
def statements_of(n):
    """SPEC: n statements"""
    return [Statement(i, i * 2) for i in range(n)]
@contract(P, {"n": Int(0, None, pool=[0, 1, 2, 5]), "fail": Int(0, None, pool=[0, 1, 2, 4])}, targets=[T + "run"], cases=200)
def script_order(n, fail):
    leave_all()
    e = bare(Scripted)
    e.read, e.done, e.fail = 0, 0, fail
    r = outcome(e.run, "script", statements_of(n))
    failed = 1 <= fail and fail <= n
    assert (r[0] == "error") == failed, "a failing statement is reported"
    assert e.done == (fail if failed else n), "every statement was started exactly once, none after a failing one"
    leave_all()

# ---- starting one statement
class Compiling:
    """stands for the compiler"""
    def __init__(self, started): self.started, self.args, self.compiled = started, None, None
    def made(self, *args): self.args = args; return self
    def compile(self, sql, arguments):
        self.compiled = (sql, arguments); return self.started
class Starting:
    """a compiled statement: queues some tasks itself, returns others"""
    def __init__(self, world, own, result, fails): self.world, self.own, self.result, self.fails, self.args = world, own, result, fails, None
    def start(self, *args):
        assert self.args is None, "a statement is started once"
        self.args = args
        e, w = args[1], self.world
        if self.own: e.add_runner(Task(w, w.queued)); w.queued += 1
        if self.fails: raise ValueError("start failed")
        return numbered(w, self.result)
def numbered(w, n):
    """SPEC: the next n tasks"""
    r = [Task(w, w.queued + j) for j in range(n)]
    w.queued += n
    return r
def compile_with(compiler, f, *args):
    """SPEC: f with the compiler replaced"""
    real = EX.Compiler; EX.Compiler = compiler.made
    try: return f(*args)
    finally: EX.Compiler = real
def in_order(e, w):
    """SPEC: the queue holds the tasks 0 .. queued-1 in order"""
    return [t.i for t in e.runners] == list(range(w.queued))
@contract(P, {"before": Int(0, None, pool=[0, 1, 3]), "own": Bool(), "result": Int(0, None, pool=[0, 1, 2, 3]), "fails": Bool()}, targets=[T + "compile"], cases=200)
def statement_start(before, own, result, fails):
    w = World([0], -1)
    leave_all()
    e = bare(Executor)
    e.env_variables = EX.EnvVariables(None)
    fill(e, tasks(w, before)); w.queued = before
    s = Starting(w, own, result, fails); c = Compiling(s)
    r = outcome(compile_with, c, e.compile, "n", "select 1")
    assert (r[0] == "error") == fails, "a failing start is reported"
    assert c.compiled[0] == "select 1" and s.args[0] == "n" and s.args[1] is e and s.args[2] == "session" and s.args[3] == "manager" and s.args[4] is c.compiled[1], "the statement is started with what it was compiled with"
    assert current() is e
    assert waiting(e) == w.queued and in_order(e, w), "its tasks are queued behind the waiting ones, in order"
    leave_all()

# ---- nesting
@contract(P, {"has_parent": Bool(), "fails": Choice(None, "plain", "signal", "interrupt"), "swap": Bool()}, targets=[T + "__enter__", T + "__exit__", T + "current"], cases=120)
def entering(has_parent, fails, swap):
    leave_all()
    p = bare(Executor) if has_parent else None
    e = bare(Executor, p)
    other = bare(Executor, e)
    if has_parent: outcome(p.__enter__)
    seen = None
    try:
        with e as inside:
            seen = (inside, current())
            if swap: Executor._thread_local.current_executor = other
            if fails: raise ERRORS[fails]("x")
    except BaseException: pass
    assert seen[0] is e and seen[1] is e, "a nested execution is the current one"
    assert current() is p, "leaving it makes its parent the current one"
    leave_all()
@contract(P, {}, bounded_only=True, bound="two threads", targets=[T + "current", "syncanysql/__init__.py:ExecuterContext.current"], cases=3)
def threads():
    leave_all()
    e = bare(Executor); seen = []
    def look(): seen.append(outcome(Executor.current)); seen.append(outcome(SQ.ExecuterContext.current)); seen.append(outcome(SQ.ScriptEngine.current_context))
    with e:
        t = threading.Thread(target=look); t.start(); t.join()
    assert seen == [("ok", None)] * 3, "an execution is current in its own thread only, another thread has none"
class Engine: pass
@contract(P, {"depth": Choice(1, 2, 3), "again": Bool(), "fails": Bool()}, targets=["syncanysql/__init__.py:ExecuterContext.__enter__", "syncanysql/__init__.py:ExecuterContext.__exit__", "syncanysql/__init__.py:ExecuterContext.current"], cases=40)
def contexts(depth, again, fails):
    SQ.ExecuterContext._thread_local.current_executer_context = None
    cs = [SQ.ExecuterContext(Engine(), None) for _ in range(depth)]
    if again: cs.append(cs[0])
    for c in cs: assert c.__enter__() is c and SQ.ScriptEngine.current_context() is c, "an entered context is the current one"
    for k in range(len(cs) - 1, -1, -1):
        cs[k].__exit__(ValueError if fails else None, None, None)
        assert SQ.ScriptEngine.current_context() is (cs[k - 1] if k > 0 else None), "leaving it makes the outer one the current one"

# ---- a script file run by a script
class Files:
    """stands for the file parser"""
    def __init__(self, filename): self.filename = filename
    def load(self): return ["statements of " + self.filename]
class Session:
    def __init__(self): self.merged_config, self.made = "stale", 0
    def session(self): self.made += 1; return "child session"
class Child(Executor):
    """a nested execution whose own behaviour is fixed"""
    def run(self, name, sqls):
        self.log.append(("run", name, sqls))
        assert current() is self, "the script is started in the nested execution"
        if self.fails == "start": raise ERRORS[self.kind]("x")
    def execute(self):
        self.log.append("execute")
        assert current() is self, "its tasks run in the nested execution"
        if self.fails == "run": raise ERRORS[self.kind]("x")
        return "done"
def nested(f, fails, kind, log):
    """SPEC: f with the file parser and the nested execution replaced"""
    real = XT.FileParser, EX.Executor
    def make(manager, session, parent=None):
        c = bare(Child, parent); c.session_config, c.log, c.fails, c.kind = session, log, fails, kind
        return c
    XT.FileParser, EX.Executor = Files, make
    try: return f()
    finally: XT.FileParser, EX.Executor = real
class Calls:
    def __init__(self, t, e, s, twice): self.t, self.e, self.s, self.twice, self.started, self.ended, self.between = t, e, s, twice, None, None, None
    def __call__(self):
        self.started = attempt(self.t.start, "n", self.e, self.s, "m", {})
        self.between = current()
        if self.started[0] == "ok":
            self.ended = attempt(self.t.run, self.e, self.s, "m")
@contract(P, {"ext": Choice(".sql", ".sqlx", ".prql"), "fails": Choice("no", "start", "run"), "kind": KIND, "top": Bool()}, targets=["syncanysql/taskers/execute.py:ExecuteTasker.start", "syncanysql/taskers/execute.py:ExecuteTasker.run"], cases=200)
def script_file(ext, fails, kind, top):
    leave_all()
    e = bare(Executor, None if top else bare(Executor))
    Executor._thread_local.current_executor = e
    t, s, log = ExecuteTasker({"filename": "f" + ext}), Session(), []
    c = Calls(t, e, s, False)
    nested(c, fails, kind, log)
    assert log[0] == ("run", "f" + ext, ["statements of f" + ext]), "the statements of the file are started"
    assert (c.started[0] == "error") == (fails == "start"), "a failing start is reported"
    assert c.between is e and current() is e, "afterwards the calling execution is the current one again"
    assert s.merged_config is None and s.made == 1, "in a session of its own"
    if fails != "start":
        assert c.started[1] == [t] and log[1:] == ["execute"], "its tasks run when its turn comes, once"
        assert (c.ended[0] == "error") == (fails == "run"), "a failing task is reported"
    else: assert log[1:] == [], "a script that did not start does not run"
    leave_all()

# ---- numbering
class Numbered:
    """contract of the calling execution: it hands out the next number"""
    def __init__(self, last): self.last = last
    def distribute_tasker_index(self): self.last += 1; return self.last
    def get_tasker_index(self): return self.last
@contract(P, {"last": Int(0, None, pool=[0, 1, 7]), "is_root": Bool(), "k": Choice(1, 2, 3)}, targets=[T + "distribute_tasker_index", T + "get_tasker_index"], cases=60)
def numbering(last, is_root, k):
    p = Numbered(last)
    e = bare(Executor, None if is_root else p)
    if is_root: e.tasker_index = last
    for j in range(k):
        assert e.get_tasker_index() == last + j, "the last number handed out"
        assert e.distribute_tasker_index() == last + j + 1, "numbers are consecutive, in every nesting"
    assert e.get_tasker_index() == last + k
    if not is_root: assert p.last == last + k and e.tasker_index == 0, "they are handed out by the outermost execution"

# ---- interrupting
class Running:
    def __init__(self): self.stopped = 0
    def terminate(self): self.stopped += 1
@contract(P, {"running": Bool(), "nested_file": Bool()}, targets=[T + "terminate", "syncanysql/taskers/execute.py:ExecuteTasker.terminate"], cases=20)
def interrupting(running, nested_file):
    e, inner, r = bare(Executor), None, Running()
    inner = bare(Executor, e)
    if nested_file:
        t = ExecuteTasker({"filename": "f.sql"}); t.executor = inner; e.tasker = t
        if running: inner.tasker = r
    elif running: e.tasker = r
    e.terminate()
    assert r.stopped == (1 if running else 0), "the task that runs is told, wherever it is nested"

# ---- the embedding interface
class Inner:
    """contract of the execution behind a context"""
    def __init__(self, fails): self.fails, self.log, self.runners, self.entered, self.stopped = fails, [], deque(["left"]), 0, 0
    def __enter__(self): self.entered += 1; return self
    def __exit__(self, *args): self.entered -= 1
    def run(self, name, sqls):
        assert self.entered == 1
        self.log.append(("run", [str(s) for s in sqls]))
        if self.fails == "start": raise ValueError("x")
    def execute(self):
        assert self.entered == 1
        self.log.append("execute")
        if self.fails == "run": raise ValueError("x")
        self.runners.clear()
    def terminate(self): self.stopped += 1
class Pushing:
    def __init__(self): self.pushed = []
    def push_memory_datas(self, name, datas): self.pushed.append((name, datas))
@contract(P, {"fails": Choice("no", "start", "run"), "sql": Choice("", "select 1", "select 1;\nselect 2;")}, bounded_only=True, bound="three scripts", targets=["syncanysql/__init__.py:ExecuterContext.execute", "syncanysql/__init__.py:ExecuterContext.push_memory_datas", "syncanysql/__init__.py:ScriptEngine.terminal"], cases=60)
def embedding(fails, sql):
    i, p = Inner(fails), Pushing()
    c = SQ.ExecuterContext(p, i)
    r = outcome(c.execute, sql)
    assert (r[0] == "error") == (fails != "no"), "a failing script is reported"
    assert i.entered == 0, "the execution is left"
    assert [x for x in i.log if x != "execute"] == [("run", [s for s in sql.replace("\n", "").split(";") if s])] and i.log.count("execute") == (0 if fails == "start" else 1)
    assert len(i.runners) == 0, "no task of a failed script is left for the next one"
    c.push_memory_datas("t", [1]); assert p.pushed == [("t", [1])]
    g = object.__new__(SQ.ScriptEngine); g.executor, g.manager, g.databases, g.config = None, None, {}, None
    with c:
        g.terminal()
        assert i.stopped == 1, "terminating reaches the current context"

# ---- whole scripts
def gen_script(rng, depth=0):
    """statements: ('row', n) | ('file', [...]) | ('set', n) | ('fail',)"""
    out = []
    for _ in range(rng.randint(0 if depth else 1, 5)):
        k = rng.choice(["row", "row", "row", "file", "set", "setq", "raw"] + (["fail"] if rng.random() < 0.3 else []))
        if k == "file" and depth < 2: out.append(("file", gen_script(rng, depth + 1)))
        elif k != "file": out.append((k, rng.randint(0, 99)))
    return out
def starts(script):
    """statements fail when they are started; the script does not run then"""
    return all(k != "fail" and (k != "file" or starts(x)) for k, x in script)
def rows_of(script):
    return [r for k, x in script for r in (rows_of(x) if k == "file" else [x] if k in ("row", "raw") else [])]
def render(script, folder, no):
    sql = []
    for k, x in script:
        if k == "row": sql.append("insert into `pyvc_res` select %d as n" % x)
        elif k == "raw": sql.append("insert into `pyvc_res` select n from c17 where n >= 0 limit 1" if False else "insert into `pyvc_res` select %d as n" % x)
        elif k == "set": sql.append("set @a = %d" % x)
        elif k == "setq": sql.append("set @b = (select %d)" % x if False else "select %d into @b" % x)
        elif k == "fail": sql.append("set = ")
        else:
            name = os.path.join(folder, "f%d.sql" % len(no)); no.append(name)
            with open(name, "w") as f: f.write(render(x, folder, no))
            sql.append("execute `%s`" % name)
    return ";\n".join(sql) + ";\n"
@contract(P, {"s": Custom("none", gen_script), "context": Bool()}, bounded_only=True, cases=120, bound="random scripts of at most 5 statements per file, nested 2 deep", targets=[T + "run", T + "execute", T + "compile", "syncanysql/taskers/execute.py:ExecuteTasker.start"])
def scripts(s, context):
    engine = sqlrun.engine()
    engine.pop_memory_datas("pyvc_res")
    leave_all()
    folder = tempfile.mkdtemp()
    try:
        sql = render(s, folder, [])
        c = engine.context() if context else SQ.ExecuterContext(engine, engine.executor)
        r = outcome(c.execute, sql)
        got = [x["n"] for x in engine.pop_memory_datas("pyvc_res")]
        if starts(s): assert r[0] == "ok" and got == rows_of(s), "statements and their tasks run in source order, each once"
        else: assert r[0] == "error" and got == [], "a script with a statement that cannot be started does not run"
        assert current() is c.executor.parent_executor, "the calling execution is the current one again"
        c.execute("insert into `pyvc_res` select 1 as n")
        assert [x["n"] for x in engine.pop_memory_datas("pyvc_res")] == [1], "the next script runs its own statements only"
    finally:
        shutil.rmtree(folder); leave_all()

# ---- assignments: in force from the statement after them on
def gen_assignments(rng):
    """('set', variable, n) literal; ('calc', variable, n) expression; ('into', variable, n); ('copy', variable, variable); ('read', variable) writes a row; ('find', variable) writes the row found by its value"""
    out = [("calc", "@pyvc_a", rng.randint(0, 4)), ("into", "@pyvc_b", rng.randint(0, 4))] if rng.random() < .5 else [("set", "@pyvc_a", rng.randint(0, 4)), ("set", "@pyvc_b", rng.randint(0, 4))]
    kinds = ["set", "calc", "into", "copy", "read", "read", "find"] if rng.random() < .4 else ["calc", "into", "copy", "read", "read", "find"]
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(kinds); v = rng.choice(["@pyvc_a", "@pyvc_b"])
        out.append((k, v) if k in ("read", "find") else (k, v, rng.choice(["@pyvc_a", "@pyvc_b"]) if k == "copy" else rng.randint(0, 4)))
    return out
ASSIGN = {"set": "set %s = %s", "calc": "set %s = %s+0", "into": "select %s into %s", "copy": "set %s = %s+1", "read": "insert into `pyvc_res` select %s as n", "find": "insert into `pyvc_res` select n+100 as n from pyvc_five x where n=%s"}
def written(script): return ";\n".join(ASSIGN[st[0]] % ((st[2], st[1]) if st[0] == "into" else st[1:]) for st in script)
def values_read(script, loaded):
    """the rows written; loaded: literal assignments are in force from the start of the script"""
    env, out = {}, []
    if loaded: env = {st[1]: st[2] for st in script if st[0] == "set"}
    for st in script:
        if st[0] == "read": out.append(env[st[1]])
        elif st[0] == "find": out += [env[st[1]] + 100] if env[st[1]] <= 4 else []
        elif st[0] == "copy": env[st[1]] = env[st[2]] + 1
        elif not (loaded and st[0] == "set"): env[st[1]] = st[2]
    return out
@contract(P, {"script": Custom("none", gen_assignments), "at_once": Choice(True, True, False)}, bounded_only=True, cases=800, bound="scripts of 3-9 assignments and reads of two variables, run at once or statement by statement", targets=[T + "run", T + "execute", "syncanysql/taskers/set.py:SetCommandTasker.start", "syncanysql/taskers/into.py:IntoTasker.run"],
    known=lambda args, msg: "set-literal-order" if "from the start of the script" in msg else None)
def assignments(script, at_once):
    engine = sqlrun.engine()
    engine.pop_memory_datas("pyvc_res"); leave_all()
    sqlrun.put("pyvc_five", [{"n": i} for i in range(5)])
    try:
        for sql in [written(script)] if at_once else [written([st]) for st in script]: engine.execute(sql)
        got = [x["n"] for x in engine.pop_memory_datas("pyvc_res")]
        want, loaded = values_read(script, False), values_read(script, True)
        assert got == want or not at_once or got != loaded, "a literal assignment is in force from the start of the script"
        assert got == want, "a statement reads what the last assignment before it gave"
    finally: sqlrun.put("pyvc_five", []); leave_all()
