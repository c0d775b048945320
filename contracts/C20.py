"""C20  LIMIT and OFFSET return exactly those rows of the complete result."""
import random
from pyvc.api import *
from contracts import sqlrun
from syncanysql.compiler import Compiler, CompilerDialect
from sqlglot.expressions import maybe_parse

P = "C20"
F = "syncanysql/compiler.py:Compiler."

def select_of(n, m):
    """SPEC: a statement with (or without) LIMIT n and OFFSET m"""
    sql = "select 1 from t" + ("" if n is None else " limit %d" % n) + ("" if m is None else " offset %d" % m)
    return maybe_parse(sql, dialect=CompilerDialect)
def compiler():
    """SPEC: a compiler of an arbitrary statement"""
    return object.__new__(Compiler)

def kept(config, arguments, plain, steps, total):
    """positions lo..hi of the rows of the complete result the plan keeps: the loader stops after @limit rows
    (before anything else happens to them), then the steps cut"""
    lo, hi = 0, total
    limit = arguments.get("@limit", 0)
    if limit > 0:
        assert plain, "rows are cut while they are read only where every row read is a row of the result"
        if limit < hi: hi = limit
    for step in steps:
        assert step[0] == ">>@array::slice" and step[1] == "$.*|array" and 3 <= len(step) <= 4, "the rows are cut by slicing them"
        assert step[2] >= 0 and (len(step) < 4 or step[3] >= 0), "positions count from the first row"
        start = lo + step[2]
        if len(step) == 4 and lo + step[3] < hi: hi = lo + step[3]
        lo = start
    return lo, hi

@contract(P, {"limit": Bool(), "n": Int(lo=0), "offset": Bool(), "m": Int(lo=0), "predicate": Bool(), "intercept": Bool(), "aggregate": Choice(False, True), "grouped": Bool(), "window": Bool(), "distinct": Bool(), "ordered": Bool(), "joined": Bool(), "total": Int(lo=0)},
    targets=[F + "compile_limit"], split="aggregate", cases=1500)
def limit_rows(limit, n, offset, m, predicate, intercept, aggregate, grouped, window, distinct, ordered, joined, total):
    assume(n >= 0 and m >= 0 and total >= 0)
    if ordered: pipelines = [[">>@row_sort", "$.*|array", [("id", False)]]]
    else: pipelines = []
    config = {"predicate": ["@mysql::gt", "$.id", ["#const", 1]] if predicate else None, "intercept": ["@mysql::gt", "$.id", ["#const", 1]] if intercept else None,
              "pipelines": pipelines, "schema": {"id": "$.id"}, "querys": {}, "orders": []}
    if aggregate: config["aggregate"] = {"key": None, "schema": {"id": 1} if grouped else {}, "window_schema": {"w": 1} if window else {}, "distinct_keys": ["$.id"] if distinct else [], "having_columns": set()}
    arguments = {"@primary_order": True}
    joins = {"b": {"name": "b"}} if joined else {}
    Compiler.compile_limit(compiler(), select_of(n if limit else None, m if offset else None), config, arguments, joins)
    steps = config["pipelines"]
    first = 1 if ordered else 0
    assert len(steps) >= first and (not ordered or steps[0] == [">>@row_sort", "$.*|array", [("id", False)]]), "the rows are ordered before they are cut"
    plain = not (predicate or intercept or ordered or joined or (aggregate and (grouped or window or distinct)))
    lo, hi = kept(config, arguments, plain, steps[first:], total)
    skip = m if offset else 0
    want = total - skip
    if limit and n < want: want = n
    if want < 0: want = 0
    got = hi - lo
    if got < 0: got = 0
    assert got == want, "that many rows"
    assert got == 0 or lo == skip, "from the offset on"
    assert config["schema"] == {"id": "$.id"} and config["querys"] == {} and config["orders"] == [] and bool(config["predicate"]) == predicate and bool(config["intercept"]) == intercept, "nothing else of the plan changes"
    cover("limited" if limit else "unlimited")

# ---- whole statements: the rows m..m+n of the same statement without LIMIT
STATEMENTS = ["select id,v from t a", "select * from t a", "select g from t a group by g", "select distinct g from t a", "select distinct g,s from t a", "select g,sum(v) as x from t a group by g",
 "select count(*) as c from t a", "select id,v from t a where v>1", "select id from t a where v>1 or g=2", "select id from t a where v+1>2 and 2<v", "select g,sum(v) as x from t a group by g having x>3", "select id,v from t a order by v", "select id,v from t a order by v desc, id",
 "select id,v*2 as y from t a order by y", "select g,sum(v) as x from t a group by g order by x desc", "select a.id,b.w from t a left join u b on a.g=b.k", "select a.id,b.w from t a join u b on a.g=b.k",
 "select a.id,b.w from t a join u b on a.g=b.k where b.w>10", "select a.id,b.w from t a left join u b on a.g=b.k order by b.w desc", "select a.id,sum(b.w) as x from t a left join u b on a.g=b.k group by a.id",
 "select id, row_number() over (partition by g order by v) as r from t a", "select id, sum(v) over (order by id) as r from t a", "select id from t a having id > 3", "select x.id from (select id from t a where v>1) x",
 "select x.g from (select distinct g from t a) x", "select x.id from (select id from t a order by v limit 5) x", "select id,(select b.w from u b where b.k=a.id) as z from t a",
 "select id from t a where g in (select k from u b)", "select distinct g from t a order by g desc", "select distinct g from t a where v>0", "select g from t a group by g order by g desc",
 "with q as (select id, v from t a where v>0) select id from q", "with q as (select g, v from t a order by v limit 6) select g, sum(v) as x from q group by g", "select g, v from t a group by g, v", "select distinct s from t a group by s", "select distinct count(*) as c from t a group by g",
 "select id, if(v>1,1,0) as f from t a where s='a'", "select id, lag(v) over (order by id) as p from t a where v>1",
 "select id from t a union all select g as id from t b", "select g as id from t a union select g as id from t b", "select id from t a union all select g as id from t b order by id", "select id from t a where v>1 union all select k as id from u b union all select id from t c where v=1",
 "select count(distinct g) as c from t a", "select id, v from t a where v is not null and s is not null", "select id, v from t a where v between 1 and 3", "select max(v) as m, s from t a group by s having m is not null", "select id, rank() over (order by v) as r from t a order by r",
 "select g, count(*) as c from t a group by g having c>1 order by c desc, g", "select distinct g, v from t a where v>0 order by g, v", "select a.id, (select count(*) from u b) as c from t a"]
def table_case(rng):
    n = rng.choice([0, 1, 2, 5, 9, 9, 12])
    return ([{"id": i, "g": rng.choice([1, 2, 3]), "v": rng.choice([5, 1, None, 3, 2]), "s": rng.choice(["a", "b", "c", None])} for i in range(n)],
            [{"k": k, "w": rng.choice([5, 15, 25, None]), "g": rng.choice([1, 2])} for k in rng.sample([1, 2, 3, 4, 5], rng.choice([0, 1, 3, 5]))])
def limit_case(rng):
    n, m = rng.choice([0, 1, 2, 3, 5, 8, 100]), rng.choice([0, 0, 1, 2, 4, 7, 50])
    return n, m, rng.choice(["limit %d offset %d" % (n, m), "limit %d, %d" % (m, n)] + (["limit %d" % n] * 3 if m == 0 else []))
@contract(P, {"tables": Custom("tables", table_case), "sql": Choice(*STATEMENTS), "limit": Custom("limit", limit_case)}, bounded_only=True, cases=15000, targets=[F + "compile_select", F + "compile_limit", F + "compile_union"],
    bound="51 statement forms over seeded tables of up to 12 rows, in memory, default @batch")
def limit_statements(tables, sql, limit):
    t, u = tables
    n, m, text = limit
    assume(t and u)
    sqlrun.put("t", t); sqlrun.put("u", u)
    try:
        full = sqlrun.query(sql)
        assert sqlrun.query(sql + " " + text) == full[m:m + n], "the rows of the statement without LIMIT, from the offset on"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
@contract(P, {"tables": Custom("tables", table_case), "sql": Choice(*STATEMENTS[:24]), "limit": Custom("limit", limit_case), "shape": Choice(*range(9))}, bounded_only=True, cases=2200, targets=[F + "compile_select", F + "compile_limit", F + "compile_union", F + "compile_subquery"],
    bound="9 ways of using a limited statement inside another one, same tables")
def limit_inside(tables, sql, limit, shape):
    t, u = tables
    n, m, text = limit
    assume(t and u)
    sqlrun.put("t", t); sqlrun.put("u", u)
    try:
        full = sqlrun.query(sql)
        part = full[m:m + n]
        name = [c for c in (full[0] if full else {}) if c.isidentifier()][:1]
        assume(name)
        c = name[0]
        inner = sql + " " + text
        if shape == 0: got, want = sqlrun.query("select x.%s as y from (%s) x" % (c, inner)), [{"y": r[c]} for r in part]
        elif shape == 1: got, want = sqlrun.query("select count(*) as y from (%s) x" % inner), ([{"y": len(part)}] if part else [])
        elif shape == 2: got, want = sqlrun.query("with x as (%s) select %s as y from x" % (inner, c)), [{"y": r[c]} for r in part]
        elif shape == 3: got, want = sqlrun.query("select x.%s as y from (%s) x limit 2 offset 1" % (c, inner)), [{"y": r[c]} for r in part][1:3]
        elif shape == 4:
            e = sqlrun.engine(); e.pop_memory_datas("pyvc_lim")
            e.execute("insert into `pyvc_lim` " + inner)
            got, want = [dict(r) for r in e.pop_memory_datas("pyvc_lim")], part
        elif shape == 6: got, want = sqlrun.query("select * from (%s) x" % inner), part
        elif shape == 7:
            assume("*" not in sql)                # the columns of x.* have to be known
            got, want = sqlrun.query("select x.* from (%s) x order by x.%s desc" % (inner, c)), "any order"
        elif shape == 8: got, want = sqlrun.query("with q as (%s) select * from q limit 1, 2" % inner), part[1:3]
        else: got, want = sqlrun.query("select x.%s as y from (%s) x where x.%s is not null order by x.%s" % (c, inner, c, c)), [{"y": v} for v in sorted(r[c] for r in part if r[c] is not None)]
        if want == "any order": got, want = sorted(got, key=repr), sorted(part, key=repr)
        assert got == want, "the limited rows, wherever they are used"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
