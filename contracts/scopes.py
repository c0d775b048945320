"""Scopes of variables shared by C02, C03 and C18."""
from pyvc.api import *
from syncanysql.executor import EnvVariables, Executor

NAMES = ["a", "@a", "b", "@b", "@B", "x y", "", "@", "@@a"]
def chain(rng):
    """innermost scope of a random chain of 1 to 4 scopes"""
    scope = None
    for _ in range(rng.randint(1, 4)):
        scope = EnvVariables(scope)
        for n in rng.sample(NAMES, rng.randint(0, 4)): scope[n] = rand_value(rng, rng.choice(["none", "int", "str", "list", "bool", "date"]))
    return scope
def name_gen(rng): return rng.choice(NAMES + ["zz", "@zz"])
Scope = lambda: Custom("scope", chain)
Name = lambda: Str(alphabet="ab@B ", maxlen=3, extra=NAMES)

def resolve(scope, key):
    """(True, value) in the innermost scope that defines the name, (False, None) when none does"""
    if key in scope: return (True, scope[key])
    if key[:1] == "@" and key[1:] in scope: return (True, scope[key[1:]])
    if scope.parent is None: return (False, None)
    return resolve(scope.parent, key)
def snapshot(scope):
    """contents of a scope and of the scopes around it"""
    out = []
    while scope is not None: out.append(dict(scope)); scope = scope.parent
    return out
def unchanged(before, scope):
    now = snapshot(scope)
    return len(now) == len(before) and all(same(x, y) for x, y in zip(now, before))
def only_changed(before, scope, key, value):
    """the scope now holds value under key and is otherwise as before, and so are the scopes around it"""
    now = snapshot(scope)
    return key in now[0] and same(now[0][key], value) and all(same(x, y) for x, y in zip(now[1:], before[1:])) and \
        {k: v for k, v in before[0].items() if k != key} == {k: v for k, v in now[0].items() if k != key}
def bare_executor(scope, outer=None):
    e = Executor.__new__(Executor)
    e.env_variables, e.parent_executor, e.tasker = scope, outer, None
    return e
