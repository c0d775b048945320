"""C24  ORDER BY arranges the rows by the keys named, in the directions given."""
import functools, itertools, random
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters.row_calculater import RowSortCalculater

P = "C24"
F = "syncanysql/compiler.py:Compiler."

# ---- the calculater that arranges the rows
def compare(a, b):
    """NULL before everything else"""
    if a is None or b is None: return (b is None) - (a is None) if (a is None) != (b is None) else 0
    return (a > b) - (a < b)
def arranged(keys):
    def c(x, y):
        for name, desc in keys:
            r = compare(x[name], y[name])
            if r: return -r if desc else r
        return 0
    return functools.cmp_to_key(c)
def is_arranged(got, rows, keys):
    """SPEC: got holds exactly the given rows; of two rows the one with the smaller (for a descending key: the
    larger) value of the first key on which they differ comes first, and rows that agree on every key stay in
    the order they had"""
    want = sorted(rows, key=arranged(keys))
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))
def calculater():
    """SPEC: the calculater of a plan step"""
    return RowSortCalculater("row_sort")
def rows_case(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 15])
    text = rng.random() < .5
    return [{"a": rng.choice([None, 0, 1, 2, -3]), "b": rng.choice([None, "", "a", "b", "B"] if text else [0.5, 2, None, True]), "c": rng.randint(0, 2), "d": i} for i in range(n)]
def keys_case(rng): return [(k, rng.random() < .5) for k in rng.sample(["a", "b", "c"], rng.randint(0, 3))] + ([("d", True)] if rng.random() < .2 else [])
@contract(P, {"rows": Custom("rows", rows_case), "keys": Custom("keys", keys_case)}, targets=["syncanysql/calculaters/row_calculater.py:RowSortCalculater.calculate"], cases=2500)
def sort_rows(rows, keys):
    got = RowSortCalculater.calculate(calculater(), rows, keys)
    assert is_arranged(got, rows, keys), "the rows are arranged by the keys, ties in the order they had"
    cover("sorted")

# ---- the plan step of an ORDER BY clause
def compiler():
    """SPEC: a compiler of an arbitrary statement"""
    raise NotImplementedError
def order_keys_of(plan): raise NotImplementedError      # SPEC: the keys of the clause
def config_of(plan, star): raise NotImplementedError    # SPEC: the plan of a statement with an arbitrary select list (or SELECT *)
def table_of(plan): raise NotImplementedError           # SPEC: its primary table and select list
def joins_of(plan): raise NotImplementedError           # SPEC: its joined tables
def arranged_by(plan, ok, config):
    """SPEC: each key names an output column (a name without table and cast that is one; else the selected column that is
    exactly this column of this table, with the same cast; else the selected expression with this text), and may
    besides be a column of the primary table itself, unchanged.  Either every key is such a source column and the source
    orders by exactly these columns, or every key names an output column and the result is arranged by exactly
    these, in both cases with the directions given; the statement is refused exactly when neither is possible"""
    raise NotImplementedError
@contract(P, {"plan": Custom("plan", None), "star": Choice(False, True)}, targets=[F + "compile_order", F + "parse_order_select_column"], concrete=False, split="star")
def order_plan(plan, star):
    from syncanysql.compiler import Compiler
    config = config_of(plan, star)
    r = outcome(Compiler.compile_order, compiler(), order_keys_of(plan), config, {}, table_of(plan), joins_of(plan))
    assert arranged_by(plan, r[0] == "ok", config), "the plan orders by the keys named, in the directions given"
    cover("ordered" if r[0] == "ok" else "refused")

# ---- whole statements: the rows of the same statement without ORDER BY, arranged
# (statement, [(key as written, output column)])
STATEMENTS = [("select id,v,g,s from t a", [("v", "v"), ("a.v", "v"), ("g", "g"), ("a.s", "s"), ("id", "id")]),
 ("select id,v,g,s from t", [("v", "v"), ("g", "g"), ("s", "s"), ("id", "id")]),
 ("select a.id,a.v,g as h,s as v2 from t a", [("v", "v"), ("a.v", "v"), ("h", "h"), ("a.g", "h"), ("a.s", "v2"), ("v2", "v2")]),
 ("select * from t a", [("v", "v"), ("a.v", "v"), ("g", "g")]),
 ("select id,v+1 as y,-g as z from t a", [("y", "y"), ("z", "z"), ("v+1", "y"), ("id", "id"), ("-g", "z")]),
 ("select id,v+1,g from t a", [("v+1", "v + 1"), ("g", "g"), ("id", "id")]),
 ("select a.id,a.v+1,a.g from t a", [("a.v+1", "a.v + 1"), ("a.g", "g"), ("id", "id")]),
 ("select id, -v as v, g from t a", [("v", "v"), ("g", "g")]),
 ("select id, g as v, v as g from t a", [("v", "v"), ("g", "g")]),
 ("select id, cast(v as char) as x, v, v*3 as z from t a where v is not null", [("v", "v"), ("x", "x"), ("z", "z"), ("cast(v as char)", "x"), ("a.v", "v")]),
 ("select g,sum(v) as x, count(*) as c from t a group by g", [("x", "x"), ("g", "g"), ("c", "c"), ("a.g", "g"), ("sum(v)", "x"), ("count(*)", "c")]),
 ("select g,sum(v) as v from t a group by g", [("v", "v"), ("g", "g")]),
 ("select g,max(s),count(*) from t a group by g", [("max(s)", "MAX(s)"), ("count(*)", "COUNT(*)"), ("g", "g")]),
 ("select a.id,b.w,b.k,a.v from t a left join u b on a.g=b.k", [("b.w", "w"), ("w", "w"), ("a.v", "v"), ("id", "id"), ("b.k", "k")]),
 ("select a.id,b.w as v,a.v as w from t a join u b on a.g=b.k", [("v", "v"), ("w", "w"), ("a.v", "w"), ("b.w", "v")]),
 ("select distinct g,s from t a", [("g", "g"), ("s", "s"), ("a.s", "s")]),
 ("select id,row_number() over (partition by g order by id) as r,v from t a", [("r", "r"), ("v", "v"), ("id", "id")]),
 ("select id,v from t a where v>1", [("v", "v"), ("id", "id"), ("a.id", "id")]),
 ("select x.id,x.v from (select id,v from t a) x", [("v", "v"), ("x.v", "v"), ("id", "id")]),
 ("select g,sum(v) as x from t a group by g having x>2", [("x", "x"), ("g", "g")]),
 ("select a.g,sum(b.w) as x from t a left join u b on a.g=b.k group by a.g", [("x", "x"), ("g", "g"), ("a.g", "g")]),
 ("select id,v from t a union all select k as id,w as v from u b", [("v", "v"), ("id", "id")]),
 ("select id, case when v>2 then 1 else 0 end as f, if(g=1,s,'z') as h from t a", [("f", "f"), ("h", "h"), ("if(g=1,s,'z')", "h")]),
 ("select id,v as `a b`, g as `x-y` from t a", [("`a b`", "a b"), ("`x-y`", "x-y")]),
 ("with q as (select id, v, g from t) select id,v,g from q", [("v", "v"), ("g", "g"), ("id", "id")]),
 ("select id, lower(s) as l, s from t a", [("l", "l"), ("s", "s"), ("lower(s)", "l"), ("LOWER(s)", "l")]),
 ("select distinct g, v+1 as y from t a", [("g", "g"), ("y", "y"), ("v+1", "y")]),
 ("select a.id, (select count(*) from u b) as c, a.v from t a", [("v", "v"), ("c", "c"), ("a.id", "id")]),
 ("select id, v from t a where g=1 or v>2 union all select k as id, w as v from u", [("v", "v"), ("id", "id")])]
def order_case(rng):
    sql, names = rng.choice(STATEMENTS)
    ks = rng.sample(names, min(len(names), rng.choice([1, 1, 2, 2, 3])))
    ds = [rng.choice(["", "", " desc", " asc", " DESC"]) for _ in ks]
    t = [{"id": i, "g": rng.choice([1, 2, 3]), "v": rng.choice([5, 1, None, 3, 2, 10]), "s": rng.choice(["a", "b", "C", "A", None])} for i in range(rng.choice([1, 4, 9, 9]))]
    u = [{"k": k, "w": rng.choice([10, 20, None]), "g": rng.choice([1, 2])} for k in rng.sample([1, 2, 3, 4], rng.choice([1, 3, 4]))]
    return sql, [(k, d.strip().lower() == "desc", o) for (k, o), d in zip(ks, ds)], sql + " order by " + ", ".join(k + d for (k, _), d in zip(ks, ds)), t, u
@contract(P, {"case": Custom("case", order_case), "cut": Choice("", "", " limit 3", " limit 2 offset 1")}, bounded_only=True, cases=5000, targets=[F + "compile_order", F + "compile_union", F + "compile_select"],
    bound="29 statement forms with up to 3 keys over seeded tables of up to 9 rows, in memory, default @batch")
def order_statements(case, cut):
    sql, keys, ordered, t, u = case
    sqlrun.put("t", t); sqlrun.put("u", u)
    try:
        want = sorted(sqlrun.query(sql), key=arranged([(o, d) for _, d, o in keys]))
        if cut: want = want[:3] if "offset" not in cut else want[1:3]
        assert sqlrun.query(ordered + cut) == want, "the rows of the statement without ORDER BY, arranged by its keys"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
