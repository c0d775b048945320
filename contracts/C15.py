"""C15  A failing scalar function yields NULL and never aborts the query."""
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters import mysql_calculater as K, CALCULATERS
from syncanysql.calculaters import mysql_funcs

P = "C15"
K.MysqlCalculater.find_func("abs")   # fills the function table (lazily initialised once per process)
T = "syncanysql/calculaters/mysql_calculater.py:MysqlCalculater."

class Weird(Exception): pass
def probe(args):
    """SPEC: an arbitrary function of its arguments: a value, or an error of any class"""
    h = hash(repr(args)) % 7
    if h == 0: raise ValueError("value")
    if h == 1: raise KeyError("key")
    if h == 2: raise Weird("other")
    if h == 3: raise TypeError("type")
    if h == 4: return None
    return ("result", repr(args))

def f0(): return probe(())
def f1(a): return probe((a,))
def f1d(a=5): return probe((a,))
def f2(a, b): return probe((a, b))
def f2d(a, b=7): return probe((a, b))
def f3(a, b, c): return probe((a, b, c))
def f3d(a, b, c=None): return probe((a, b, c))
def f3l(a, b, c):
    t = (a, b, c)
    return probe(t)
def f4(a, b, c, d): return probe((a, b, c, d))
def f5(a, b, c, d, e): return probe((a, b, c, d, e))
def fv(a, *rest): return probe((a,))
FS = {"f0": f0, "f1": f1, "f1d": f1d, "f2": f2, "f2d": f2d, "f3": f3, "f3d": f3d, "f3l": f3l, "f4": f4, "f5": f5, "fv": fv}

@contract(P, {"f": Choice(*FS), "args": Seq(maxlen=7), "before": Seq(maxlen=7)}, split="f", weight=2,
          targets=[T + n for n in ("__init__", "calculate", "find_func")] + ["syncanysql/calculaters/mysql_calculater.py:register_mysql_func"])
def value_or_null_for_any_function(f, args, before):
    K.register_mysql_func("pyvc_" + f, FS[f])
    c = CALCULATERS["mysql"].instance("mysql::pyvc_" + f)
    first = outcome(c.calculate, *before)
    assert first[0] == "ok", "an evaluation never raises"
    r = outcome(c.calculate, *args)
    assert r[0] == "ok", "a later evaluation never raises either"
    e = outcome(FS[f], *args)
    if e[0] == "ok": assert same(r[1], e[1]), "exactly the value of the function for these arguments, whatever was evaluated before"
    else: assert r[1] is None, "NULL when the function fails"

@contract(P, {"args": Seq(maxlen=3)}, targets=[T + "calculate"])
def unknown_function(args):
    c = CALCULATERS["mysql"].instance("mysql::pyvc_no_such_function")
    r = outcome(c.calculate, *args)
    assert r[0] == "ok" and r[1] is None, "NULL"

NAMES = sorted(mysql_funcs.funcs)
SKIP = {"sleep", "benchmark"}
REPEATABLE = [n for n in NAMES if n not in SKIP]
def args_gen(rng): return tuple(rand_value(rng, rng.choice(SCALAR_KINDS + ("int", "str", "list", "dict", "bytes"))) for _ in range(rng.randint(0, 5)))
def small(args): return all(abs(a) < 10**6 if isinstance(a, (int, float, decimal.Decimal)) else True for a in args)
@contract(P, {"name": Choice(*REPEATABLE), "args": Custom("args", args_gen)}, bounded_only=True, bound="every built-in function, seeded random arguments of 0..5 values of all kinds", cases=6000)
def every_built_in_function(name, args):
    assume(small(args) and not (name in ("pow", "power", "bitwiseleftshift", "repeat", "space", "exp")))
    c = CALCULATERS["mysql"].instance("mysql::" + name)
    import copy
    r = outcome(c.calculate, *copy.deepcopy(args))
    assert r[0] == "ok", "an evaluation never raises"
    e, e2 = outcome(mysql_funcs.funcs[name], *copy.deepcopy(args)), outcome(mysql_funcs.funcs[name], *copy.deepcopy(args))
    if e[0] == "error" and e2[0] == "error": assert r[1] is None, "NULL when the function fails"
    elif repr(e) == repr(e2): assert repr(r[1]) == repr(e[1]), "exactly the value of the function"

ROUTED = [n for n in REPEATABLE if n not in CALCULATERS]   # the others are evaluated by the syncany library
@contract(P, {"name": Choice(*ROUTED), "n": Int(0, 4), "vals": Custom("vals", lambda rng: tuple(rand_value(rng, rng.choice(("none", "int", "float", "str", "bool"))) for _ in range(4)))},
          bounded_only=True, bound="every built-in function in a query, 0..4 column arguments, two rows", cases=1500)
def in_a_query(name, n, vals):
    assume(small(vals) and not (name in ("pow", "power", "bitwiseleftshift", "repeat", "space", "exp")))
    row = dict(zip("abcd", vals))
    sql = "select %s(%s) as v, id from t" % (name, ",".join("abcd"[:n]))
    try: sqlrun.engine(); from sqlglot.errors import ParseError; got = sqlrun.query(sql, t=[{"id": 1, **row}, {"id": 2, **row}])
    except ParseError: assume(False)
    except Exception as e:
        assume(type(e).__name__ not in ("SyncanySqlCompileException", "CalculaterUnknownException"))   # rejected while compiling
        assert False, "the query is not aborted: %s %s" % (type(e).__name__, e)
    assert [r["id"] for r in got] == [1, 2], "every row is returned"
