"""C18  SELECT INTO stores exactly the selected rows in its variables."""
import json, os, shutil, tempfile
from collections import deque
from pyvc.api import *
from contracts import sqlrun
from syncanysql.taskers.into import IntoTasker
from syncanysql import compiler as CP
from sqlglot import expressions as X

P = "C18"
T = "syncanysql/taskers/into.py:IntoTasker."

# ---- the environment the task runs in
class Fetch:
    def __init__(self, db, name): self.db, self.name = db, name
    def commit(self):
        assert self.name == "result" and "removed" not in self.db.log, "rows are read before they are removed"
        self.db.log.append("read"); return self.db.rows
class Remove:
    def __init__(self, db, name): self.db, self.name = db, name
    def commit(self): self.db.log.append("removed" if self.name == "result" else "removed another result")
class Database:
    def __init__(self, rows): self.rows, self.log = rows, []
    def query(self, name, keys): return Fetch(self, name)
    def delete(self, name, keys): return Remove(self, name)
class Outputer:
    def __init__(self, db): self.db, self.name = db, "result"
class Core:
    def __init__(self, db, schema): self.outputer, self.schema = Outputer(db), schema
class Statement:
    """the query whose result is stored"""
    def __init__(self, core, db, batches, fails=False):
        """a streaming query runs batch by batch and queues itself again until it is done"""
        self.tasker, self.db, self.left, self.fails, self.config, self.started = core, db, batches, fails, {"output": "&.res.t::id", "name": "n"}, None
    def start(self, *args): self.started = args
    def run(self, executor, session_config, manager):
        assert self.left > 0 and "read" not in self.db.log and "removed" not in self.db.log, "the query is run to its end before its rows are read"
        if self.fails: raise ValueError("the query failed")
        self.left -= 1
        if self.left > 0: executor.runners.append(self)
    def terminate(self): pass
class Session:
    def __init__(self, env, runners): self.env_variables, self.runners = env, runners

# ---- what each variable holds afterwards
def column(rows, c): return rows[0].get(c) if len(rows) == 1 else [row.get(c) for row in rows]
def expected(variables, columns, rows, i):
    if len(variables) == 1:
        if columns is None:
            if len(rows) != 1: return rows
            return list(rows[0].values())[0] if len(rows[0]) == 1 else rows[0]
        if len(columns) == 1: return column(rows, columns[0])
        if len(rows) == 1: return {c: rows[0].get(c) for c in columns}
        return [{c: row.get(c) for c in columns} for row in rows]
    if columns is None: columns = list(rows[0].keys()) if len(rows) > 0 else []
    return column(rows, columns[i]) if i < len(columns) else None

def holds(env, name, value):
    """SPEC: the variable holds exactly that value"""
    return name in env and same(env[name], value)
def unset(env, name): return name not in env
def unchanged(env, before, name):
    """SPEC: the variable is as before"""
    return (name in env) == (name in before) and (name not in env or env[name] is before[name])
def snapshot(env): return dict(env)
def no_variable(w, name):
    """SPEC: the statement does not name it"""
    return name not in w["variables"]
def nth(seq, i): return seq[i]

OTHER = "another task"
def others_kept(runners):
    """SPEC: the tasks that were waiting are still waiting"""
    return all(x == OTHER for x in runners)
NAMES = ["@a", "@b", "@c", "@X", "@long_name"]
COLS = ["id", "v", "name", "x"]
CELLS = [None, 1, 0, "t", "", 2.5, [1], True]
def gen(rng, started):
    star = rng.random() < 0.3
    variables = rng.sample(NAMES, rng.choice([1, 1, 1, 2, 3, 4]))
    columns = rng.sample(COLS, rng.choice([1, 1, 2, 3]))
    rows = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        cs = rng.sample(COLS, rng.choice([1, 1, 2, 3])) if star and rng.random() < 0.4 else columns
        row = {c: rng.choice(CELLS) for c in cs}
        if not star and rng.random() < 0.3: row["hidden"] = 1
        rows.append(row)
    env = {n: rng.choice([None, 5, "old", [1, 2]]) for n in NAMES + ["@other", "plain"] if rng.random() < 0.5}
    if started:
        for v in variables: env.setdefault(v, None)
    return {"variables": variables, "columns": None if star else columns, "rows": rows, "env": env, "batches": rng.choice([1, 1, 1, 2, 3, 6]), "runners": deque([OTHER] * rng.randint(0, 2))}
def schema_of(w): return "$.*" if w["columns"] is None else {c: {} for c in w["columns"]}

def setting(w, fails):
    db = Database(w["rows"])
    statement = Statement(Core(db, schema_of(w)), db, w["batches"], fails)
    return db, statement, Session(w["env"], w["runners"])

@contract(P, {"w": Custom("world", lambda r: gen(r, True)), "i": Custom("index", lambda r: r.randint(0, 3)), "other": Custom("other", lambda r: r.choice(NAMES + ["@other", "plain"]))},
    targets=[T + "run"], cases=8000, weight=3)
def stored(w, i, other):
    assume(i < len(w["variables"]))
    assume(no_variable(w, other))
    db, statement, executor = setting(w, False)
    before = snapshot(w["env"])
    task = IntoTasker(statement, {"variables": w["variables"]})
    value = expected(w["variables"], w["columns"], w["rows"], i)
    r = outcome(task.run, executor, None, None)
    assert r[0] == "ok", "storing a result never fails"
    assert holds(executor.env_variables, nth(w["variables"], i), value), "every variable holds exactly the selected values"
    assert unchanged(executor.env_variables, before, other), "no other variable changes"
    assert statement.left == 0, "the query is run to its end"
    assert db.log == ["read", "removed"], "its rows are read, then the intermediate result is removed"
    assert others_kept(executor.runners), "tasks that wait stay"
    assert task.tasker is None, "the task lets go of the query"

@contract(P, {"w": Custom("world", lambda r: gen(r, True)), "other": Custom("any_name", lambda r: r.choice(NAMES + ["@other", "plain"]))}, targets=[T + "run"])
def failure(w, other):
    db, statement, executor = setting(w, True)
    before = snapshot(w["env"])
    task = IntoTasker(statement, {"variables": w["variables"]})
    r = outcome(task.run, executor, None, None)
    assert r[0] == "error", "a failing query is reported"
    assert unchanged(executor.env_variables, before, other), "no variable changes when the query fails"
    assert db.log == ["removed"], "the intermediate result is removed"
    assert task.tasker is None, "the task lets go of the query"

@contract(P, {"w": Custom("fresh_world", lambda r: gen(r, False)), "i": Custom("index", lambda r: r.randint(0, 3)), "other": Custom("other", lambda r: r.choice(NAMES + ["@other", "plain"]))},
    targets=[T + "start"], cases=3000)
def started(w, i, other):
    assume(i < len(w["variables"]))
    assume(no_variable(w, other))
    db, statement, executor = setting(w, False)
    before = snapshot(w["env"])
    task = IntoTasker(statement, {"variables": w["variables"]})
    runners = task.start("n", executor, None, None, {"a": 1})
    name = nth(w["variables"], i)
    if unset(before, name): assert holds(executor.env_variables, name, None), "a new variable starts as NULL"
    else: assert unchanged(executor.env_variables, before, name), "an existing variable keeps its value until the rows are there"
    assert unchanged(executor.env_variables, before, other), "no other variable changes"
    assert len(runners) == 1 and runners[0] is task, "the task itself is what runs"
    assert db.log == [] and statement.started is not None, "the query is prepared, not run"
    assert statement.config["output"].startswith("&.--.__into_") and statement.config["output"].endswith("::id"), "the result goes to a temporary table, by the same keys"

@contract(P, {"w": Custom("world", lambda r: gen(r, True)), "other": Custom("any_name", lambda r: r.choice(NAMES))}, targets=[T + "run"])
def no_query(w, other):
    """nothing to run (the query was dropped): nothing is stored"""
    db, statement, executor = setting(w, False)
    statement.tasker = None
    left = statement.left
    before = snapshot(w["env"])
    task = IntoTasker(statement, {"variables": w["variables"]})
    r = outcome(task.run, executor, None, None)
    assert r[0] == "ok" and db.log == [] and statement.left == left, "nothing runs"
    assert unchanged(executor.env_variables, before, other), "no variable changes"

@contract(P, {"name": Str(alphabet="abcXYZ_09", maxlen=8)}, targets=["syncanysql/compiler.py:Compiler.compile_select_into"], cases=1000)
def variable_name(name):
    expression = X.Into(this=X.Table(this=X.Parameter(this=X.Var(this="placeholder"))))
    expression.args["this"].args["this"].args["this"].args["this"] = name
    config = CP.Compiler(None, None, "n").compile_select_into(expression, {})
    assert list(config) == ["variables"] and len(config["variables"]) == 1, "one variable"
    assert config["variables"][0] == "@" + name, "the variable is the one written"

# ---- whole statements
def gen_sql(rng):
    rows = [{"id": i + 1, "v": rng.choice([None, 1, 2, 7, "t", ""]), "w": rng.choice([0, 3])} for i in range(rng.choice([0, 1, 2, 4]))]
    cut = rng.choice([None, None, 1, 2])
    cols = rng.choice([["id"], ["v"], ["v as x"], ["id", "v"], ["w", "v as x", "id"], ["*"], ["id + 1 as x"]])
    return {"rows": rows, "cut": cut, "cols": cols, "var": rng.choice(["x", "Res", "a_1"]), "old": rng.choice([None, 5, "q"]), "mode": rng.choice(["", "", "set @batch=2;", "set @batch=2; set @streaming=1;", "set @streaming=1;"]), "twice": rng.random() < 0.3}
@contract(P, {"w": Custom("none", gen_sql)}, bounded_only=True, cases=400, bound="random statements over tables of at most 4 rows",
    targets=["syncanysql/compiler.py:Compiler.compile_expression", T + "start", T + "run"])
def statements(w):
    engine = sqlrun.engine()
    var = "@" + w["var"]
    rows = [r for r in w["rows"] if w["cut"] is None or r["id"] <= w["cut"]]
    folder = None
    if w["mode"]:
        folder = tempfile.mkdtemp()
        with open(os.path.join(folder, "src.json"), "w") as f: json.dump(w["rows"], f)
        source = "`%s/src.json`" % folder
    else:
        source = "into_src"
        sqlrun.put("into_src", w["rows"])
    try: check_statement(w, engine, var, rows, source)
    finally:
        if folder: shutil.rmtree(folder)
def check_statement(w, engine, var, rows, source):
    outer = engine.executor.env_variables.get("@outer_probe")
    with engine.context() as c:
        env = c.executor.env_variables
        env["@other"] = "kept"
        if w["old"] is not None: env[var] = w["old"]
        for _ in range(2 if w["twice"] else 1):
            c.execute(w["mode"] + "select %s into %s from %s%s" % (", ".join(w["cols"]), var, source, "" if w["cut"] is None else " where id <= %d" % w["cut"]))
        cols = [x.split(" as ")[-1] for x in w["cols"]]
        if cols == ["*"]: cols = None if rows and len(rows[0]) != 1 else ["id", "v", "w"]
        shown = [({c: (r["id"] + 1 if w["cols"] == ["id + 1 as x"] else r["v"] if c == "x" else r[c]) for c in cols} if cols else r) for r in rows]
        assert same(env.get(var), expected([var], cols if w["cols"] != ["*"] else None, shown, 0)), "the variable holds exactly the selected rows"
        assert env.get("@other") == "kept" and set(env) - {"@batch", "@streaming"} == {var, "@other"}, "no other variable changes"
    assert engine.executor.env_variables.get("@outer_probe") == outer and var not in engine.executor.env_variables, "the caller's variables are untouched"
    assert not [n for n, v in (engine.get_database("--").memory_databases or {}).items() if v and "__into_" in n], "no intermediate result is left"
