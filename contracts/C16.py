"""C16  Temporary results live until their last user, then are freed once."""
import os, json, shutil, tempfile
from collections import deque
from pyvc.api import *
from contracts import sqlrun
from syncanysql.taskers import query as Q
from syncanysql.taskers.query import QueryTasker, QueryTaskerTemporaryMemoryManager as Manager
from syncanysql import executor as EX
from syncany.main import TaskerYieldNext
from syncany.database import register_database

P = "C16"
T = "syncanysql/taskers/query.py:"
NAMES = ["--.__subquery_1_a", "--.__subquery_2_b", "--.__unionquery_3", "--.__withquery_4_x"]
OTHERS = ["--.t", "db.__subquery_x", "--._subquery_1", "t", "--.subquery", ""]

# ---- who still needs a result: any history of registrations, uses and ends
def users(m, x):
    """SPEC: the number of pending users of x"""
    return m.collections[x] if x in m.collections else 0
def known(m, x):
    """SPEC: x is an unreleased result"""
    return x in m.collections
def apply(m, op, n):
    if op == "add": return m.add_collection(n)
    if op == "use": return m.use_collection(n)
    if op == "end": return m.unuse_collection(n)
    return m.free_collection(n)
def play(m, ops, x):
    """returns (pending users of x, x is known) as the history says; checks every answer about x on the way"""
    pending, alive = 0, False
    for op, n in ops:
        r = apply(m, op, n)
        if n == x:
            if op == "add": alive = True
            elif op == "use": alive, pending = True, pending + 1
            elif op == "end":
                if alive: pending -= 1
                assert r == (not alive or pending <= 0), "the last user is told that nobody needs the result any more, an earlier one is not"
            else:
                assert r == (not alive or pending <= 0), "a result is freed exactly when no user is pending"
                if r: alive, pending = False, 0
    return pending, alive
def gen_ops(rng): return [(rng.choice(["add", "use", "use", "end", "end", "free"]), rng.choice(NAMES[:3])) for _ in range(rng.randint(0, 12))]
@contract(P, {"ops": Custom("ops", gen_ops), "x": Custom("a_name", lambda r: r.choice(NAMES[:3]))}, targets=[T + "QueryTaskerTemporaryMemoryManager." + n for n in ("add_collection", "use_collection", "unuse_collection", "free_collection")], cases=4000)
def history(ops, x):
    m = Manager()
    pending, alive = play(m, ops, x)
    assert known(m, x) == alive, "a result is known from its registration to its release"
    if alive: assert users(m, x) == pending, "its pending users are counted"

@contract(P, {"ops": Custom("nothing", gen_ops)}, bounded_only=True, bound="random histories", targets=[T + "QueryTaskerTemporaryMemoryManager.get_names", T + "QueryTasker.get_temporary_memory_collections"], cases=1000)
def names(ops):
    ms = [Manager(), Manager(), Manager()]
    for i, (op, n) in enumerate(ops): apply(ms[i % 3], op, n)
    for m in ms: assert sorted(m.get_names()) == sorted(n for n in NAMES if known(m, n)), "exactly the unreleased results"
    ts = [QueryTasker({}, None, m) for m in ms]
    ts[0].dependency_taskers = [ts[1]]; ts[1].dependency_taskers = [ts[2]]
    for k, t in enumerate(ts): assert sorted(t.get_temporary_memory_collections()) == sorted({n for m in ms[k:] for n in m.get_names()}), "the results of a query and of all queries it needs, each once"

# ---- a finished user
class Store:
    """the database that holds the intermediate results"""
    def __init__(self, streaming, fails): self.streaming, self.fails, self.deleted, self.closed = streaming, fails, [], 0
    def is_streaming(self, name): return self.streaming
    def delete(self, name, keys): return Deletion(self, name)
    def close(self): self.closed += 1
class Deletion:
    def __init__(self, store, name): self.store, self.name = store, name
    def commit(self):
        if self.store.fails: raise ValueError("delete failed")
        self.store.deleted.append(self.name)
class Databases:
    def __init__(self, store): self.store = store
    def instance(self, name):
        assert name == "--", "intermediate results are in the memory database"
        return self.store
class Named:
    def __init__(self, name): self.name = name
class Unnamed: pass
class Job:
    """a finished task"""
    def __init__(self, loader, outputer, store):
        self.loader = Unnamed() if loader is None else Named(loader)
        self.outputer = Unnamed() if outputer is None else Named(outputer)
        self.databases = Databases(store)
class Waiting:
    def __init__(self, runners): self.runners = runners
def temporary(name): return name is not None and (name.startswith("--.__subquery_") or name.startswith("--.__unionquery_"))
def manager(state):
    m = Manager()
    for n, k in state.items(): m.collections[n] = k
    return m
STATE = Custom("state", lambda r: {n: r.randint(-1, 3) for n in NAMES + OTHERS[:2] if r.random() < 0.6})
NAME = Custom("name", lambda r: r.choice([None] + NAMES + NAMES + OTHERS))
@contract(P, {"state": STATE, "loader": NAME, "outputer": NAME, "waiting": Bool(), "streaming": Choice(False, True), "fails": Bool(), "x": Custom("a_name", lambda r: r.choice(NAMES + OTHERS))}, targets=[T + "QueryTasker.check_free_temporary_memory_collection"], cases=6000, split="streaming", weight=3)
def released(state, loader, outputer, waiting, streaming, fails, x):
    m = manager(state)
    was, pending, was_user, loader_pending = known(m, x), users(m, x), loader is not None and known(m, loader), users(m, loader) if loader is not None else 0
    store = Store(streaming, fails)
    t = QueryTasker({}, None, m)
    t.check_free_temporary_memory_collection(Waiting([t] if waiting else []), Job(loader, outputer, store))
    if temporary(loader) and loader != outputer:
        last = not was_user or loader_pending <= 1
        assert store.deleted == ([loader] if last and not fails and not (waiting and streaming) else []), "the result is deleted once, when its last user has finished and it is not still streamed"
        if x == loader:
            assert known(m, x) == (was and not (last and store.deleted == [loader])), "a released result is forgotten, any other stays known"
            if was and known(m, x): assert users(m, x) == pending - 1, "one user less"
    else:
        assert store.deleted == [], "what is not an intermediate result is never deleted"
        if x == loader: assert known(m, x) == was and (not was or users(m, x) == pending), "nor touched"
    if x != loader: assert known(m, x) == was and (not was or users(m, x) == pending), "other results keep their users"

# ---- every way a task can end tells the manager once
class Steps:
    """a task that takes some steps and then ends in one of several ways"""
    def __init__(self, steps, end): self.left, self.end = steps, end
    def send(self, v):
        if self.left <= 0:
            if self.end == "done": raise StopIteration()
            if self.end == "error": raise ValueError("x")
            if self.end == "system": raise SystemError("x")
            raise KeyboardInterrupt()
        self.left -= 1
        return TaskerYieldNext() if self.left % 2 == 0 else None
class Closing:
    def __init__(self): self.name, self.closed, self.status = "t", [], {"store_count": 0}
    def close(self, *args): self.closed.append(args)
class Stepping(QueryTasker):
    def __init__(self, steps):
        QueryTasker.__init__(self, {}, None, None)
        self.steps, self.checked, self.closing = steps, [], None
    def run_yield(self, executor, session_config, manager, tasker, dependency_taskers):
        self.started = (executor, session_config, manager, tasker, dependency_taskers)
        return self.steps
    def check_free_temporary_memory_collection(self, executor, tasker):
        assert self.steps.left <= 0, "a result is needed as long as its user runs"
        self.checked.append((executor, tasker))
def exhaust(g):
    """SPEC: run a generator to its end"""
    for v in g: pass
def ended(t, tasker, deps):
    """'ok' or the class of the error"""
    try: exhaust(t.run_tasker("e", "s", "m", tasker, deps))
    except SystemError: return "system"
    except KeyboardInterrupt: return "interrupt"
    except ValueError: return "error"
    except Exception: return "other"
    return "done"
@contract(P, {"steps": Int(0, None, pool=[0, 1, 2, 3, 5]), "end": Choice("done", "error", "system", "interrupt")}, targets=[T + "QueryTasker.run_tasker"], cases=200)
def every_end_is_told(steps, end):
    t, tasker, deps = Stepping(Steps(steps, end)), Closing(), []
    r = ended(t, tasker, deps)
    assert r == end, "the way the task ended is reported"
    assert t.checked == [("e", tasker)], "the manager is told exactly once"
    assert t.started == ("e", "s", "m", tasker, deps), "the task itself ran"
    assert len(tasker.closed) == 1 and (len(tasker.closed[0]) == 0) == (end == "done") and (end == "done" or tasker.closed[0][0] is False), "the task is closed once, as finished or as failed"

# ---- whatever is left when a query ends is cleared
class Clearing:
    def __init__(self): self.cleared, self.added = [], []
    def clear_temporary_memory_collection(self, names): self.cleared.append(names)
    def add_runner(self, t): self.added.append(t)
class Running(QueryTasker):
    def __init__(self, steps, names, updater_fails, reduce):
        QueryTasker.__init__(self, {}, None, None)
        self.steps, self.names, self.updater_fails, self.reduced, self.runs = steps, names, updater_fails, 0, 0
        self.reduce_config, self.reduce = (None if reduce == "none" else {"schema": {}}), reduce
    def execute_updater(self, *args):
        if self.updater_fails: raise ValueError("x")
    def run_tasker(self, executor, session_config, manager, tasker, dependency_taskers):
        self.runs += 1
        return self.steps
    def run_reduce(self, executor, session_config, manager, arguments, final):
        assert final and self.steps.left <= 0 and executor.cleared == [], "partial results are merged at the end, before they are cleared"
        self.reduced += 1
        if self.reduce == "fails": raise ValueError("x")
    def get_temporary_memory_collections(self): return self.names
class Marching(Steps):
    """as Steps, pausing at the step `pause` says"""
    def __init__(self, steps, end, pause):
        Steps.__init__(self, steps, end); self.pause = pause
    def send(self, v):
        if self.left > 0:
            self.left -= 1
            return TaskerYieldNext() if self.left == self.pause else None
        return Steps.send(self, v)
@contract(P, {"steps": Int(0, None, pool=[0, 1, 2, 3, 5]), "pause": Int(-1, None, pool=[-1, 0, 1, 2]), "end": Choice("done", "error"), "reduce": Choice("none", "ok", "fails"), "bad_update": Bool(), "names": Choice((), ("--.__subquery_1",))}, targets=[T + "QueryTasker.run"], cases=2000)
def query_end(steps, pause, end, reduce, bad_update, names):
    t, e = Running(Marching(steps, end, pause), names, bad_update, reduce), Clearing()
    r = outcome(t.run, e, None, None)
    paused = not bad_update and 0 <= pause < steps
    if paused:
        assert r[0] == "ok" and len(e.added) == 1 and e.added[0] is t and t.reduced == 0, "a pausing query is queued again"
        assert t.steps.left == pause, "at its pause"
    else:
        assert e.added == [], "a query that ended is not queued again"
        assert (r[0] == "error") == (bad_update or end == "error" or reduce == "fails"), "its outcome is reported"
        assert t.reduced == (1 if not bad_update and end == "done" and reduce != "none" else 0), "partial results are merged once"
    assert e.cleared == ([names] if names else []), "what is left is handed to the executor exactly once, however the query ended"

# ---- clearing
class Config:
    def __init__(self, databases): self.databases = databases
    def get(self): return {"databases": self.databases}
class Registry: database_manager = "dm"
class Opened:
    """stands for the memory database"""
    current = None
    def __init__(self, dm, config): assert config["name"] == "--", "the memory database"
    def build(self): return self
    def is_streaming(self, name): return Opened.current.is_streaming(name)
    def delete(self, name, keys): return Opened.current.delete(name, keys)
    def close(self): Opened.current.close()
class Kept:
    """the memory database: which names are deleted, how often"""
    def __init__(self, streaming, fail_at): self.streaming, self.fail_at, self.deleted, self.closed = streaming, fail_at, [], 0
    def is_streaming(self, name): return self.streaming[name]
    def delete(self, name, keys): return KeptDeletion(self, name)
    def close(self): self.closed += 1
class KeptDeletion:
    def __init__(self, kept, name): self.kept, self.name = kept, name
    def commit(self):
        if self.name == self.kept.fail_at: raise ValueError("x")
        self.kept.deleted.append(self.name)
def times(deleted, x):
    """SPEC: how often x was deleted"""
    return deleted.count(x)
def nth(names, i): return names[i]
def stream(streaming, x): return streaming[x]
def is_none_of(names, x):
    """SPEC: x is not among the names"""
    return x not in names
register_database("pyvcmemory", Opened)
@contract(P, {"names": Custom("names", lambda r: r.sample(NAMES, r.randint(0, 4))), "streaming": Custom("streaming", lambda r: {n: r.random() < 0.4 for n in NAMES}), "waiting": Bool(), "i": Custom("index", lambda r: r.randint(0, 3)), "x": Custom("other_name", lambda r: r.choice(OTHERS + NAMES))},
    targets=["syncanysql/executor.py:Executor.clear_temporary_memory_collection"], cases=2000)
def cleared(names, streaming, waiting, i, x):
    assume(i < len(names)); assume(is_none_of(names, x))
    kept = Opened.current = Kept(streaming, None)
    e = object.__new__(EX.Executor)
    e.session_config, e.manager, e.runners = Config([{"name": "a", "driver": "memory"}, {"name": "--", "driver": "pyvcmemory"}]), Registry, deque([1]) if waiting else deque()
    e.clear_temporary_memory_collection(names)
    n = nth(names, i)
    assert times(kept.deleted, n) == (0 if waiting and stream(streaming, n) else 1), "every result is deleted exactly once, unless it is still streamed to a waiting task"
    assert times(kept.deleted, x) == 0, "no other table is deleted"
    assert kept.closed == 1, "the database is closed"
@contract(P, {"names": Choice((), ("a",), ("a", "b", "c")), "fail_at": Choice("a", "b", "c", None), "databases": Choice([], [{"name": "a", "driver": "memory"}], [{"name": "--", "driver": "unheard_of"}], [{"name": "--", "driver": "pyvcmemory"}])},
    targets=["syncanysql/executor.py:Executor.clear_temporary_memory_collection"], cases=100)
def clearing_fails(names, fail_at, databases):
    kept = Opened.current = Kept({"a": False, "b": False, "c": False}, fail_at)
    e = object.__new__(EX.Executor)
    e.session_config, e.manager, e.runners = Config(databases), Registry, deque()
    r = outcome(e.clear_temporary_memory_collection, names)
    if len(databases) == 0 or databases[0]["driver"] != "pyvcmemory": assert (r[0] == "ok") == (len(databases) == 0 or databases[0]["driver"] != "unheard_of") and kept.deleted == [] and kept.closed == 0, "without a memory database there is nothing to clear"
    else:
        assert kept.closed == 1, "the database is closed even when clearing fails"
        assert (r[0] == "error") == (fail_at in names), "a failure is reported"

# ---- registration of what a task reads and writes
class Plan:
    def __init__(self, loader, outputer):
        self.loader = Unnamed() if loader is None else Named(loader)
        self.outputer = Unnamed() if outputer is None else Named(outputer)
        self.join_loaders, self.config, self.name, self.loaded, self.compiled = {}, {"input": "&.a.b::id", "output": "&.c.d::id", "databases": []}, "t", 0, []
    def load(self): self.loaded += 1
    def compile(self, arguments): self.compiled.append(arguments)
PLAN = Choice(None, *(NAMES + OTHERS))
@contract(P, {"state": STATE, "loader": PLAN, "outputer": PLAN, "x": Custom("a_name", lambda r: r.choice(NAMES + OTHERS))}, targets=[T + "QueryTasker.compile_tasker"], cases=3000, split="loader")
def registered(state, loader, outputer, x):
    m = manager(state)
    was, pending = known(m, x), users(m, x)
    t = QueryTasker({}, None, m)
    plan = Plan(loader, outputer)
    t.compile_tasker({"@batch": 5}, plan)
    assert plan.loaded == 1 and len(plan.compiled) == 1, "the task is compiled once"
    reads = 1 if x == loader and temporary(loader) else 0
    writes = x == outputer and (temporary(outputer) or outputer.startswith("--.__withquery_"))
    assert known(m, x) == (was or reads == 1 or writes), "what is read or written becomes known, nothing else"
    if known(m, x): assert users(m, x) == pending + reads, "reading makes the task one more user"

# ---- whole statements
def leaf(rng):
    cut = rng.choice(["", "", " where v > 1", " where id <= 3"])
    f = {"": lambda r: True, " where v > 1": lambda r: r["v"] > 1, " where id <= 3": lambda r: r["id"] <= 3}[cut]
    return "select id, v from %(src)s" + cut, lambda rows: [{"id": r["id"], "v": r["v"]} for r in rows if f(r)]
def tree(rng, depth):
    k = rng.choice(["leaf", "sub", "sub", "union", "group", "order", "join"]) if depth > 0 else "leaf"
    if k == "leaf": return leaf(rng)
    sql, f = tree(rng, depth - 1)
    if k == "sub": return "select id, v from (%s) a%d where id > 1" % (sql, depth), lambda rows: [r for r in f(rows) if r["id"] > 1]
    if k == "union":
        sql2, g = tree(rng, depth - 1)
        return "select id, v from (select id, v from (%s) l%d union all select id, v from (%s) r%d) u%d" % (sql, depth, sql2, depth, depth), lambda rows: f(rows) + g(rows)
    if k == "group": return "select id, sum(v) v from (%s) g%d group by id" % (sql, depth), lambda rows: grouped(f(rows))
    if k == "order": return "select id, v from (%s) o%d order by v desc, id" % (sql, depth), lambda rows: f(rows)
    return "select a.id, a.v from (%s) a left join (select id, v from %%(src)s where v > 0) b on a.id = b.id" % sql, f
def grouped(rows):
    d = {}
    for r in rows: d[r["id"]] = d.get(r["id"], 0) + r["v"]
    return [{"id": k, "v": v} for k, v in d.items()]
def gen_query(rng):
    sql, f = tree(rng, rng.randint(1, 3))
    rows = [{"id": i + 1, "v": rng.randint(0, 4)} for i in range(rng.randint(1, 6))]
    return {"sql": sql, "want": sorted((r["id"], r["v"]) for r in f(rows)), "rows": rows, "cte": rng.choice([0, 0, 1, 2]), "file": rng.random() < 0.3, "batch": rng.random() < 0.5}
def leftovers(engine): return {n: len(v) for n, v in (engine.get_database("--").memory_databases or {}).items() if v}
@contract(P, {"w": Custom("none", gen_query)}, bounded_only=True, cases=800, bound="random nestings (depth 3) of subqueries, unions, joins and WITH over tables of at most 6 rows",
    targets=[T + "QueryTasker.start", T + "QueryTasker.run", "syncanysql/compiler.py:Compiler.compile_with", "syncanysql/compiler.py:Compiler.compile_subquery", "syncanysql/compiler.py:Compiler.compile_union"])
def statements(w):
    engine = sqlrun.engine()
    engine.pop_memory_datas("pyvc_res")
    sqlrun.put("c16", w["rows"]); sqlrun.put("unrelated", [{"id": 9, "v": 9}])
    folder, source = None, "c16"
    if w["file"]:
        folder = tempfile.mkdtemp(); source = "`%s/c16.json`" % folder
        with open(os.path.join(folder, "c16.json"), "w") as f: json.dump(w["rows"], f)
    try:
        before = leftovers(engine)
        sql = w["sql"] % {"src": "w" if w["cte"] else source}
        if w["cte"]: sql = "with w as (select id, v from %s) insert into `pyvc_res` %s" % (source, sql)
        else: sql = "insert into `pyvc_res` " + sql
        with engine.context() as c:
            if w["batch"]: c.execute("set @batch=2")
            for _ in range(2 if w["cte"] == 2 else 1): c.execute(sql)
        got = sorted((r["id"], r["v"]) for r in engine.pop_memory_datas("pyvc_res"))
        assert got == sorted(w["want"] * (2 if w["cte"] == 2 else 1)), "every intermediate result is there for all its users"
        assert leftovers(engine) == before, "no intermediate result is left, no other table is touched"
    finally:
        if folder: shutil.rmtree(folder)
