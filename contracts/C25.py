"""C25  INSERT writes exactly the selected rows or the values given, in the mode chosen."""
import random, datetime
from pyvc.api import *
from contracts import sqlrun

P = "C25"
F = "syncanysql/compiler.py:Compiler."
# ---- how an INSERT is compiled
def compiler(): raise NotImplementedError          # SPEC: a compiler of an arbitrary statement
def insert_of(statement, form): raise NotImplementedError         # SPEC: INSERT INTO t (columns) <form>, for arbitrary names, types, columns, rows and values
def rows_of(statement, form): raise NotImplementedError           # SPEC: the VALUES of it
def columns_of(statement): raise NotImplementedError        # SPEC: its columns, each with its type or None
def may_refuse(statement): raise NotImplementedError        # SPEC: some row has another number of values than there are columns, or there are no values
def written_as(statement, config):
    """SPEC: the output is the table named, in the first known mode of those given with it, in any case (I without one); when values
    are written, the key is the column id or else the first column"""
    raise NotImplementedError
def query_decides(statement, config): raise NotImplementedError     # SPEC: exactly the query given, WITH first, was compiled for this output
def values_decide(statement, config):
    """SPEC: either every row of VALUES is written, in order, each value that is a constant as it is under its column, where a column has the
    type declared or the one all its values have; or, if some value is no constant, they are computed"""
    raise NotImplementedError
def computed(statement, config): raise NotImplementedError  # SPEC: the rows computed are those of VALUES, in order, each value under its column, none merged
FORMS = ("select", "union", "values", "columns select", "columns values", "other")
@contract(P, {"statement": Custom("statement", None), "form": Choice(*FORMS)}, targets=[F + "compile_insert_into"], concrete=False, split="form")
def compiled(statement, form):
    from syncanysql.compiler import Compiler
    from syncanysql.errors import SyncanySqlCompileException
    config = {"output": "", "schema": "$.*", "dependencys": [], "input": None}
    try:
        Compiler.compile_insert_into(compiler(), insert_of(statement, form), config, {})
        refused = False
    except SyncanySqlCompileException: refused = True
    if refused: assert may_refuse(statement), "only rows of another number of values than columns are refused"
    else:
        assert written_as(statement, config), "the table, the mode and the key"
        if "select" in form or form == "union": assert query_decides(statement, config), "the rows are those of the query"
        else: assert values_decide(statement, config), "each value is written under its column"
        cover("compiled")
@contract(P, {"statement": Custom("statement", None), "form": Choice("columns values")}, targets=[F + "compile_insert_into_calculate_values"], concrete=False, split="form")
def computed_values(statement, form):
    from syncanysql.compiler import Compiler
    from syncanysql.errors import SyncanySqlCompileException
    config = {"output": "", "schema": "$.*", "dependencys": [], "input": None}
    try:
        Compiler.compile_insert_into_calculate_values(compiler(), rows_of(statement, form), columns_of(statement), config, {})
        refused = False
    except SyncanySqlCompileException: refused = True
    if refused: cover("typed columns")
    else: assert computed(statement, config), "each value is computed under its column"
# ---- whole statements
MODES = ["", "<I>", "<U>", "<UI>", "<UDI>", "<DI>", "<u>", "<ui>", "<Udi>", "<di>", "<X>", "<X,UI>", "<UI,DI>"]
MODE_OF = {"<X,UI>": "UI", "<UI,DI>": "UI", "<X>": "I", "": "I"}
def mode_of(text): return MODE_OF.get(text, text[1:-1].upper())
def after(mode, target, rows, keys):
    """the rows of the target afterwards"""
    key = lambda r: tuple(r.get(k) for k in keys)
    new = {key(r): r for r in rows}
    old = {key(r) for r in target}
    if mode == "I": return target + rows
    if mode == "DI": return rows
    kept = [dict(r, **new[key(r)]) if key(r) in new else r for r in target if mode != "UDI" or key(r) in new]
    return kept + ([r for r in rows if key(r) not in old] if mode in ("UI", "UDI") else [])
def pairs(rng, n):
    p = [(k, j) for k in range(4) for j in range(3)]
    return rng.sample(p, n)
def row(rng, k, j): return {"k": k, "j": j, "v": rng.choice([None, 0, 1, 2, 2.5, "a"]), "w": rng.choice([1, 2, None])}
def tables_case(rng):
    one = rng.random() < .6
    def rows(n): return [row(rng, k, rng.randint(0, 2)) for k in rng.sample(range(6), n)] if one else [row(rng, k, j) for k, j in pairs(rng, n)]
    target = rows(rng.choice([0, 1, 3, 5]))
    if rng.random() < .3: target = [dict(r, x=rng.randint(0, 9)) for r in target]
    return one, target, rows(rng.choice([1, 2, 4, 6]))
# (select, key columns; whether a condition of the source may limit what is deleted)
SELECTS = [("select k,j,v,w from s", ["k"], False), ("select k,v from s", ["k"], False), ("select k,j,v as w,w as v from s", ["k"], False), ("select a.k, a.w from s a", ["k"], False), ("select k,w+1 as w from s", ["k"], False),
 ("select v,`k[]<pk>`,w from s", ["k"], False), ("select v, `k[int]<pk>` as k from s", ["k"], False), ("select k, v from s order by v", ["k"], False), ("select k, v, w from s limit 2", ["k"], False), ("select k, w from s order by k desc limit 2 offset 1", ["k"], False),
 ("select k, count(*) as v, max(w) as w from s group by k", ["k"], False), ("select distinct k, w from s", ["k"], False), ("select a.k, b.w from s a left join s b on a.k=b.k", ["k"], False), ("with q as (select k, w from s) select k, w from q", ["k"], False),
 ("select x.k, x.w from (select k, w from s) x", ["k"], False), ("select k, v from s where w is not null", ["k"], True), ("select k, v from s where w>1 or k=2", ["k"], True), ("select 3 as k, 'q' as v", ["k"], False), ("select 3 as k, 'q' as v union all select 9, 1+1", ["k"], False),
 ("select k, w from s union all select 10 as a, 11 as b", ["k"], False), ("select k, w from s union select k, w from s", ["k"], False), ("select k, w from s where k>2 union all select k, v from s where k<=2", ["k"], False), ("select * from s", None, False),
 ("select `k[]<pk>`,`j[]<pk>`,v,w from s", ["k", "j"], False), ("select w, `j[]<pk>`,`k[]<pk>` from s", ["k", "j"], False), ("select k, row_number() over (order by k) as w from s", ["k"], False)]
@contract(P, {"tables": Custom("tables", tables_case), "select": Choice(*range(len(SELECTS))), "mode": Choice(*MODES)}, bounded_only=True, cases=9000, targets=[F + "compile_insert_into", F + "compile_select", F + "compile_union"],
    bound="26 select forms, 13 spellings of the modes, in-memory targets of up to 5 rows and sources of up to 6 rows with unique keys, default @batch")
def insert_select(tables, select, mode):
    one, target, source = tables
    sql, keys, limits = SELECTS[select]
    m = mode_of(mode)
    assume(one or keys is None or len(keys) == 2)
    assume(m == "I" or keys)                        # SELECT * names no key
    assume(not (limits and m in ("UDI", "DI")))     # which rows may be deleted is then limited by the condition
    e = sqlrun.engine()
    try:
        sqlrun.put("s", source)
        rows = sqlrun.query(sql)
        assume(rows)
        sqlrun.put("pyvc_tt", target)
        e.execute("insert into `pyvc_tt%s` %s" % (mode, sql))
        got = [dict(r) for r in e.pop_memory_datas("pyvc_tt")]
        want = after(m, target, rows, keys or [])
        assert [sorted(r.items(), key=lambda x: x[0]) for r in got] == [sorted(r.items(), key=lambda x: x[0]) for r in want], "the target afterwards"
    finally:
        sqlrun.put("s", []); sqlrun.put("pyvc_tt", [])

# ---- VALUES: each value as written, under its column
CONSTS = [("1", 1), ("-2", -2), ("2.5", 2.5), ("-0.5", -0.5), ("'a'", "a"), ("''", ""), ("'1'", "1"), ("'2.5'", "2.5"), ("null", None), ("true", True), ("false", False), ("0", 0), ("'x y'", "x y"), ("12345678901234567890", 12345678901234567890), ("\"q\"", "q"), ("'2020-01-01'", "2020-01-01")]
EXPRS = [("1+1", 2), ("concat('a','b')", "ab"), ("@pyvc_i", 7), ("(3)", 3), ("if(1>2,1,'n')", "n"), ("abs(-4)", 4), ("(select max(k) from pyvc_one)", 5), ("-(2)", -2), ("upper('x')", "X")]
def values_case(rng):
    names = rng.sample(["k", "v", "w", "id", "a b", "c.d", "`"], rng.choice([1, 2, 3])) if rng.random() < .1 else rng.sample(["k", "v", "w", "id", "a b"], rng.choice([1, 2, 2, 3]))
    names = [n for n in names if n != "`"] or ["k"]
    exprs = CONSTS + EXPRS if rng.random() < .4 else CONSTS
    rows = [[rng.choice(exprs) for _ in names] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < .3:
        c = rng.randrange(len(names)); kind = rng.choice([[x for x in CONSTS if type(x[1]) is int], [x for x in CONSTS if type(x[1]) is float], [x for x in CONSTS if isinstance(x[1], bool)]])
        for r in rows: r[c] = rng.choice(kind)
    return names, rows
@contract(P, {"case": Custom("case", values_case), "mode": Choice("", "", "", "<I>", "<DI>", "<di>")}, bounded_only=True, cases=6000, targets=[F + "compile_insert_into"], bound="1-5 rows of 1-3 columns of 25 constants and expressions")
def insert_values(case, mode):
    names, rows = case
    e = sqlrun.engine()
    before = [{"k": 100, "v": 1}]
    try:
        sqlrun.put("pyvc_one", [{"k": 5}])
        e.execute("set @pyvc_i='before'")
        sqlrun.put("pyvc_tt", before)
        e.execute("set @pyvc_i=3+4; insert into `pyvc_tt%s` (%s) values %s" % (mode, ",".join("`%s`" % n if not n.isidentifier() else n for n in names), ",".join("(%s)" % ",".join(x[0] for x in r) for r in rows)))
        got = [dict(r) for r in e.pop_memory_datas("pyvc_tt")]
        want = ([] if mode.upper() == "<DI>" else before) + [dict(zip(names, (x[1] for x in r))) for r in rows]
        assert [[(k, v, type(v)) for k, v in r.items()] for r in got] == [[(k, v, type(v)) for k, v in r.items()] for r in want], "each value, of its own type, under its column"
    finally:
        sqlrun.put("pyvc_tt", []); sqlrun.put("pyvc_one", [])
# ---- columns with a type
TYPES = {"int": int, "float": float, "str": str}
NUMBERS = [("1", 1), ("-2", -2), ("2.5", 2.5), ("'12'", "12"), ("0", 0), ("'7'", "7"), ("-0.5", -0.5)]
def typed_case(rng):
    columns = [(n, rng.choice([None, "int", "float", "str"]), rng.choice(["[%s]", "[%s]", "[%s;pyvc]", "[%s;float]"])) for n in rng.sample(["k", "v", "w", "id"], rng.choice([1, 2, 3]))]
    kinds = [rng.choice([[x for x in NUMBERS if type(x[1]) is t] for t in (int, float, str)] + [NUMBERS]) for _ in columns]
    return columns, [[rng.choice(x) for x in kinds] for _ in range(rng.choice([1, 2, 3]))]
@contract(P, {"case": Custom("case", typed_case)}, bounded_only=True, cases=2500, targets=[F + "compile_insert_into"], bound="1-3 rows of 1-3 columns, declared int, float, str or nothing")
def insert_typed(case):
    columns, rows = case
    e = sqlrun.engine()
    assume(not any(t == "str" and isinstance(x[1], float) for r in rows for (_, t, _), x in zip(columns, r)))      # the digits of a float are those of the engine
    def as_declared(t, x): return x if t is None else int(float(x)) if t == "int" else TYPES[t](x)
    try:
        e.execute("insert into `pyvc_tt` (%s) values %s" % (",".join("`%s%s`" % (n, f % t if t else "") for n, t, f in columns), ",".join("(%s)" % ",".join(x[0] for x in r) for r in rows)))
        got = [dict(r) for r in e.pop_memory_datas("pyvc_tt")]
        want = [{n: as_declared(t, x[1]) for (n, t, _), x in zip(columns, r)} for r in rows]
        assert [[(k, v, type(v)) for k, v in r.items()] for r in got] == [[(k, v, type(v)) for k, v in r.items()] for r in want], "each value, of the type declared for its column"
    finally: sqlrun.put("pyvc_tt", [])
def keyed_case(rng):
    names = ["k", "v", "w"][:rng.choice([2, 3])]
    def r(k): return [k] + [rng.choice(CONSTS + ([("1+1", 2), ("@pyvc_i", 7)] if rng.random() < .3 else [])) for _ in names[1:]]
    return names, [{"k": k, "v": rng.choice([None, 1, "a"]), "w": 0} for k in rng.sample(range(6), rng.choice([0, 1, 3]))], [r(k) for k in rng.sample(range(6), rng.choice([1, 2, 3]))]
@contract(P, {"case": Custom("case", keyed_case), "mode": Choice(*MODES)}, bounded_only=True, cases=3000, targets=[F + "compile_insert_into"], bound="up to 3 rows into targets of up to 3 rows")
def insert_values_modes(case, mode):
    names, target, rows = case
    e = sqlrun.engine()
    try:
        e.execute("set @pyvc_i=7")
        sqlrun.put("pyvc_tt", target)
        e.execute("insert into `pyvc_tt%s` (%s) values %s" % (mode, ",".join(names), ",".join("(%s)" % ",".join([str(r[0])] + [x[0] for x in r[1:]]) for r in rows)))
        got = [dict(r) for r in e.pop_memory_datas("pyvc_tt")]
        want = after(mode_of(mode), target, [dict(zip(names, [r[0]] + [x[1] for x in r[1:]])) for r in rows], ["k"])
        assert [[(k, v, type(v)) for k, v in r.items()] for r in got] == [[(k, v, type(v)) for k, v in r.items()] for r in want], "the target afterwards"
    finally:
        sqlrun.put("pyvc_tt", [])
def wrong_case(rng):
    n = rng.choice([1, 2, 3])
    sizes = [rng.choice([n, n, n + 1, max(n - 1, 1)]) for _ in range(rng.choice([1, 2, 3]))]
    if all(s == n for s in sizes): sizes[rng.randrange(len(sizes))] = n + 1
    consts = CONSTS + (EXPRS[:2] if rng.random() < .3 else [])
    text = ",".join("(%s)" % ",".join(rng.choice(consts)[0] for _ in range(s)) for s in sizes)
    return "(%s) values %s" % (",".join(["k", "v", "w"][:n]), text) if rng.random() < .8 else "values " + text
@contract(P, {"text": Custom("text", wrong_case)}, bounded_only=True, cases=1500, targets=[F + "compile_insert_into"], bound="1-3 rows of 1-4 values for 1-3 columns")
def wrong_values(text):
    e = sqlrun.engine()
    try:
        try: e.execute("insert into `pyvc_tt` " + text); refused = False
        except Exception: refused = True
        assert refused, "rows of another number of values than columns are refused"
        assert e.pop_memory_datas("pyvc_tt") == [] , "and nothing is written"
    finally: sqlrun.put("pyvc_tt", [])
# ---- a column list before a SELECT
LISTS = [("(k,v) select k,v from s", True), ("(k,v) select v as k,k as v from s", True), ("(k,w) select k,v from s", False), ("(v,k) select k,v from s", False), ("(k) select k,v from s", False), ("(a,b) select k,v from s union all select 1,2", False), ("(k,w) select k,w from s union all select 1,2", True)]
@contract(P, {"tables": Custom("tables", tables_case), "form": Choice(*range(len(LISTS)))}, bounded_only=True, cases=300, targets=[F + "compile_insert_into"], bound="7 forms of INSERT .. (columns) SELECT",
    known=lambda args, msg: "insert-select-column-list" if "ignored" in msg else None)
def insert_columns(tables, form):
    one, target, source = tables
    text, same = LISTS[form]
    columns, select = text[1:].split(") ", 1)
    columns = columns.split(",")
    e = sqlrun.engine()
    try:
        sqlrun.put("s", source)
        rows = sqlrun.query(select)
        e.pop_memory_datas("pyvc_tt")
        try: e.execute("insert into `pyvc_tt` " + text); refused = False
        except Exception: refused = True
        got = [dict(r) for r in e.pop_memory_datas("pyvc_tt")]
        assert same or got != rows or not rows, "the list of columns is ignored"
        if refused: assert rows and len(columns) != len(rows[0]), "only a list of another number of columns is refused"
        else: assert got == [dict(zip(columns, r.values())) for r in rows] and (not rows or len(columns) == len(rows[0])), "the selected values under the columns listed, by position"
    finally:
        sqlrun.put("s", []); sqlrun.put("pyvc_tt", [])
