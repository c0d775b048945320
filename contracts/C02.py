"""C02  Variable reads resolve to the innermost scope that defines them."""
from pyvc.api import *
from contracts import sqlrun
from contracts.scopes import *
from syncanysql import ScriptEngine, ExecuterContext
from syncanysql.executor import EnvVariables, Executor
from syncanysql.taskers.set import SetCommandTasker
from syncanysql.calculaters.env_variable_calculater import CurrentEnvVariableCalculater

P = "C02"
X = "syncanysql/executor.py:"
@contract(P, {"scope": Scope(), "key": Name()}, targets=[X + "EnvVariables.get_value"])
def read_without_default(scope, key):
    before = snapshot(scope)
    found, value = resolve(scope, key)
    try: r, unknown = scope.get_value(key), False
    except KeyError: r, unknown = None, True
    assert unknown == (not found), "a name is reported as unknown exactly when no scope defines it"
    if found: assert same(r, value), "the value of the innermost scope that defines the name"
    assert unchanged(before, scope), "reading changes nothing"
@contract(P, {"scope": Scope(), "key": Name(), "default": Kind("none", "int", "str")}, targets=[X + "EnvVariables.get"])
def read_with_default(scope, key, default):
    before = snapshot(scope)
    found, value = resolve(scope, key)
    assert same(scope.get(key, default), value if found else default), "the innermost definition, else the default"
    assert unchanged(before, scope), "reading changes nothing"
@contract(P, {"scope": Scope(), "key": Name()}, targets=[X + "EnvVariables.get"])
def read_with_null_default(scope, key):
    found, value = resolve(scope, key)
    assert same(scope.get(key), value if found else None), "the innermost definition, else NULL"

@contract(P, {"scope": Scope(), "key": Name(), "value": Any, "is_global": Choice(False, True)}, targets=["syncanysql/taskers/set.py:SetCommandTasker.set_env_variable"])
def assignment(scope, key, value, is_global):
    top = EnvVariables()
    top["a"] = 1
    e = bare_executor(scope)
    e.global_env_variables = top
    before, top_before = snapshot(scope), snapshot(top)
    SetCommandTasker({"key": "@a", "value": ""}).set_env_variable(e, key, value, is_global)
    if is_global:
        assert only_changed(top_before, top, key, value), "exactly that name of the global scope changes"
        assert unchanged(before, scope), "other scopes are untouched"
    else:
        assert only_changed(before, scope, key, value), "exactly that name of the current scope changes"
        assert unchanged(top_before, top), "the global scope is untouched"
@contract(P, {"scope": Scope(), "key": Choice(("@a", "@a", False), ("@B.x", "@B.x", False), ("global @a", "@a", True), ("GLOBAL  @b c", "@b c", True), ("a", "a", False)), "value": Kind("none", "bool", "int", "float")}, targets=["syncanysql/taskers/set.py:SetCommandTasker.start"])
def set_statement(scope, key, value):
    written, name, is_global = key
    top = EnvVariables()
    top["a"] = 1
    e = bare_executor(scope)
    e.global_env_variables = top
    before, top_before = snapshot(scope), snapshot(top)
    t = SetCommandTasker({"key": written, "value": Text(value)})
    assert t.start("n", e, None, None, {}) == [], "SET leaves no task to run"
    if is_global:
        assert only_changed(top_before, top, name, value) and unchanged(before, scope), "SET GLOBAL assigns the global scope only"
    else:
        assert only_changed(before, scope, name, value) and unchanged(top_before, top), "SET assigns the current scope only"
class Text:
    """a value text; what it denotes is C05's subject"""
    def __init__(self, v): self.v = v
    def strip(self): return self.v

class Engine(ScriptEngine):
    def __del__(self): pass      # (the real one closes databases; this one has none)
@contract(P, {"scope": Scope(), "name": Name(), "value": Any, "default": Kind("none", "int"), "api": Choice("engine", "context")}, targets=["syncanysql/__init__.py:ScriptEngine.get_variable", "syncanysql/__init__.py:ScriptEngine.set_variable", "syncanysql/__init__.py:ExecuterContext.get_variable", "syncanysql/__init__.py:ExecuterContext.set_variable"], split="api")
def python_interface(scope, name, value, default, api):
    before = snapshot(scope)
    key = name if name[:1] == "@" or name == "" else "@" + name
    e = bare_executor(scope)
    if api == "engine":
        o = Engine.__new__(Engine)
        o.executor = e
    else: o = ExecuterContext(None, e)
    found, old = resolve(scope, key)
    assert same(o.get_variable(name, default), old if found else default), "reads @name"
    assert unchanged(before, scope), "reading changes nothing"
    o.set_variable(name, value)
    assert only_changed(before, scope, key, value), "assigns @name in the current scope and nothing else"
    assert same(o.get_variable(name, default), value), "the assigned value is read back"

@contract(P, {"scope": Scope(), "key": Name(), "value": Any}, targets=["syncanysql/calculaters/env_variable_calculater.py:CurrentEnvVariableCalculater.get_value", "syncanysql/calculaters/env_variable_calculater.py:CurrentEnvVariableCalculater.set_value"])
def variables_in_expressions(scope, key, value):
    before = snapshot(scope)
    old_current = getattr(Executor._thread_local, "current_executor", None)
    Executor._thread_local.current_executor = bare_executor(scope)
    try:
        found, old = resolve(scope, key)
        assert same(CurrentEnvVariableCalculater("current_env_variable::get_value").calculate(key), old if found else None), "reads the current executor's scope; NULL when unknown"
        assert unchanged(before, scope), "reading changes nothing"
        assert same(CurrentEnvVariableCalculater("current_env_variable::set_value").calculate(key, value), value), "an assignment has the assigned value"
        assert only_changed(before, scope, key, value), "exactly that name of the current scope changes"
    finally: Executor._thread_local.current_executor = old_current

@contract(P, {"scope": Scope(), "key": Name(), "nested": Choice(False, True), "value": Any}, targets=[X + "Executor.__init__"])
def new_scope(scope, key, nested, value):
    old_global = Executor.__dict__["global_env_variables"]
    Executor.global_env_variables = scope
    try:
        outer = bare_executor(scope) if nested else None
        before = snapshot(scope)
        e = Executor(None, None, outer)
        assert key not in e.env_variables, "a new scope defines nothing"
        assert resolve(e.env_variables, key) == resolve(scope, key), "names resolve in the enclosing scope"
        e.env_variables[key] = value
        assert unchanged(before, scope), "an inner assignment does not reach the enclosing scope"
        assert same(e.env_variables.get_value(key), value), "and hides the outer definition"
    finally: Executor.global_env_variables = old_global

# ---- through the engine: random scripts of assignments and reads over nested executors, against a model of scopes
def script_gen(rng):
    ops, depth = [], 0
    for _ in range(rng.randint(3, 10)):
        k = rng.choice(["set", "set", "set_global", "read", "read", "into", "push", "pop", "null"])
        n = rng.choice(["@u1", "@U1", "@u2", "@verb"])
        ops.append((k, n, rng.randint(0, 99)))
    return ops
@contract(P, {"ops": Custom("script", script_gen)}, bounded_only=True, cases=500, bound="seeded scripts of 3 to 10 assignments and reads over nested executors")
def scripts(ops):
    from syncanysql.parser import SqlSegment
    g = sqlrun.engine()
    for n in ("@u1", "@U1", "@u2", "@verb"): g.executor.global_env_variables.pop(n, None)
    root = Executor(g.manager, g.executor.session_config.session())
    stack, model, top = [root], [{}], {}
    def look(n):
        for m in reversed(model):
            if n in m: return m[n]
        return top.get(n)
    def do(sql):
        e = stack[-1]
        with e: e.run("t", [SqlSegment(sql, 1)]); e.execute()
    try:
        for k, n, v in ops:
            if k == "set": do("set %s = %d" % (n, v)); model[-1][n] = v
            elif k == "null": do("set %s = null" % n); model[-1][n] = None
            elif k == "set_global": do("set global %s = %d" % (n, v)); top[n] = v
            elif k == "into": do("select %d into %s" % (v, n)); model[-1][n] = v
            elif k == "push": stack.append(Executor(g.manager, stack[-1].session_config.session(), stack[-1])); model.append({})
            elif k == "pop":
                if len(stack) > 1: stack.pop(); model.pop()
            elif k == "read":
                g.pop_memory_datas("pyvc_v")
                do("insert into `pyvc_v` select %s as v" % n)
                got = g.pop_memory_datas("pyvc_v")[0]["v"]
                assert got == look(n), "a query reads the innermost definition"
        for e, m in zip(stack, model):
            assert {k: v for k, v in e.env_variables.items()} == m, "each scope holds exactly what was assigned in it"
    finally:
        for n in ("@u1", "@U1", "@u2", "@verb"): g.executor.global_env_variables.pop(n, None)
        Executor._thread_local.current_executor = g.executor
