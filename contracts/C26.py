"""C26  UNION combines the rows of its selects by column position."""
import random
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters.row_calculater import RowRenameCalculater, RowDistinctCalculater

P = "C26"
F = "syncanysql/compiler.py:Compiler."
R = "syncanysql/calculaters/row_calculater.py:"

# ---- the steps of the plan
def renamer():
    """SPEC: the calculater of a plan step"""
    return RowRenameCalculater("row_rename")
def distincter():
    """SPEC: the calculater of a plan step"""
    return RowDistinctCalculater("row_distinct")
def has_names(got, rows, names):
    """SPEC: as many rows, in the same order; each has exactly the new names, each with the value of its old name (NULL when missing)"""
    return len(got) == len(rows) and all(list(g.items()) == [(new, r.get(old)) for old, new in names] for g, r in zip(got, rows))
def without_duplicates(got, rows):
    """SPEC: the rows that have no equal row before them, unchanged and in the order they had"""
    want = []
    for i, r in enumerate(rows):
        if not any(r == q for q in rows[:i]): want.append(r)
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))
def rename_case(rng):
    olds = ["a", "b", "c", "d"]
    names = list(zip(rng.sample(olds, rng.randint(1, 4)), rng.sample(["a", "b", "c", "x", "y"], 4)))
    return [{k: rng.choice([None, 1, "x", 2.5]) for k in rng.sample(olds, rng.randint(2, 4))} for _ in range(rng.choice([0, 1, 2, 5]))], names
@contract(P, {"case": Custom("case", rename_case)}, targets=[R + "RowRenameCalculater.calculate"], cases=2000)
def rename_rows(case):
    rows, names = case
    got = RowRenameCalculater.calculate(renamer(), rows, names)
    assert has_names(got, rows, names), "each value is kept, under the new name of its column"
    cover("renamed")
def distinct_case(rng):
    n = rng.choice([0, 1, 2, 4, 9, 15])
    lists = rng.random() < .3
    def value(): return rng.choice([[1], [2], {"x": 1}, {"x": [1]}]) if lists and rng.random() < .5 else rng.choice([None, 0, 1, "a", "b", ""])
    rows = []
    for _ in range(n):
        r = [("a", value()), (rng.choice(["b", "b", "b", "c"]), rng.choice([1, None]))]
        if rng.random() < .3: r.reverse()
        rows.append(dict(r))
    return rows
@contract(P, {"rows": Custom("rows", distinct_case)}, targets=[R + "RowDistinctCalculater.calculate"], cases=4000)
def distinct_rows(rows):
    got = RowDistinctCalculater.calculate(distincter(), rows)
    assert without_duplicates(got, rows), "every row once, where it came first"
    cover("distinct")

# ---- how the selects are combined
def compiler(): raise NotImplementedError          # SPEC: a compiler of an arbitrary statement
def union_of(statement, form): raise NotImplementedError     # SPEC: an arbitrary union (ending with UNION, all UNION ALL, or UNION and then UNION ALL; the last select in parentheses or not): any number of selects and subqueries, any UNION [ALL] between them, nested either way, ORDER BY, LIMIT and OFFSET at its end or not
def plan_of(statement): raise NotImplementedError  # SPEC: a plan with a given output
def options_of(statement): raise NotImplementedError
def may_refuse(statement): raise NotImplementedError       # SPEC: some select has another number of columns than the first
def combined(statement, config, options):
    """SPEC: each select is compiled, in order, into the table the plan reads, its columns renamed by position when they have other names
    than those of the first; the selects up to the last UNION without ALL come as one union without duplicates, or the whole is without
    duplicates if that is the last; then ORDER BY, LIMIT and OFFSET of the whole apply; the output is the one given"""
    raise NotImplementedError
FORMS = [a + ", " + b for a in ("UNION", "UNION ALL", "both") for b in ("parentheses", "select")]
@contract(P, {"statement": Custom("statement", None), "form": Choice(*FORMS)}, targets=[F + "compile_union"], concrete=False, split="form")
def united(statement, form):
    from syncanysql.compiler import Compiler
    from syncanysql.errors import SyncanySqlCompileException
    config, options = plan_of(statement), options_of(statement)
    try:
        Compiler.compile_union(compiler(), union_of(statement, form), config, options)
        refused = False
    except SyncanySqlCompileException: refused = True
    if refused: assert may_refuse(statement), "only selects with different numbers of columns are refused"
    else:
        assert combined(statement, config, options), "the rows of all selects, in order"
        cover("combined")

# ---- whole statements
T_COLS, U_COLS = ["id", "v", "g", "s"], ["k", "w", "g", "s"]
T_COLS_OF_STAR = ["id", "g", "v", "s"]
def table_case(rng):
    n = rng.choice([1, 2, 5, 8])
    return ([{"id": i, "g": rng.choice([1, 2]), "v": rng.choice([5, 1, None, 2]), "s": rng.choice(["a", "b", None])} for i in range(n)],
            [{"k": k, "w": rng.choice([5, 1, None]), "g": rng.choice([1, 2]), "s": rng.choice(["a", "b"])} for k in range(rng.choice([1, 3, 5]))])
def leaf(rng, m, first):
    """(text of a select of m columns, the same with the columns named c0.., names of its columns)"""
    where = ""
    kind = rng.random()
    if kind < .7:
        if rng.random() < .5: cols, src, num = T_COLS, rng.choice(["t", "t a"]), "v"
        else: cols, src, num = U_COLS, rng.choice(["u", "u b"]), "w"
        exprs = [rng.choice(cols) for _ in range(m)]
        if rng.random() < .3: exprs[rng.randrange(m)] = rng.choice(["%s+1" % num, "7", "'q'", "null", "if(g>1,1,0)", "@pyvc_u"])
        if rng.random() < .35: where = " where " + rng.choice(["g>1", "s='a'", "%s is not null" % num, "g=1 or s='b'", "g+1>2"])
        tail = " from %s%s" % (src, where)
    elif kind < .82:
        exprs = [rng.choice(["1", "2", "'a'", "null", "1+1", "true", "@pyvc_u"]) for _ in range(m)]; tail = ""
    elif kind < .92:
        exprs = [rng.choice(["g", "count(*)", "max(v)", "sum(v)", "count(distinct s)"]) for _ in range(m)]; tail = " from t a group by g"
        if "g" not in exprs: exprs[0] = "g"
    else:
        exprs = rng.sample(["b.w", "a.id", "a.g", "b.k"], min(m, 4)) + ["a.id"] * (m - 4); tail = " from t a left join u b on a.id=b.k"
    names, texts = [], []
    for i, e in enumerate(exprs):
        plain = e.replace("a.", "").replace("b.", "") if e[0] not in "'@" else e
        if first or rng.random() < .4:
            name = plain if plain in T_COLS + U_COLS and rng.random() < .6 else rng.choice(["x", "y", "z", "id", "v", "k", "w"])
            if first and name in names: name = "n%d" % i
            texts.append(e if name == plain else "%s as %s" % (e, name))
        else:
            name = plain; texts.append(e)
        names.append(name)
    return "select %s%s" % (", ".join(texts), tail), "select %s%s" % (", ".join("%s as c%d" % (e, i) for i, e in enumerate(exprs)), tail), names
def tree(rng, m, depth, first):
    """(text, plan) of a union; plan = ("leaf", select) or ("chain", [first, (distinct, part), ..])"""
    n = rng.choice([2, 2, 2, 3, 3, 4]) if depth else rng.choice([2, 2, 3])
    text, plan, names = "", [], None
    for i in range(n):
        if depth and i and rng.random() < .15:
            t, p, ns = tree(rng, m, depth - 1, False); t = "(%s)" % t
        else:
            t, q, ns = leaf(rng, m, i == 0); p = ("leaf", q)
            if rng.random() < .1:
                lim = rng.choice([1, 2]); t, p = "(%s limit %d)" % (t, lim), ("leaf", q + " limit %d" % lim)
        if i == 0: text, names = t, ns; plan.append((None, p))
        else:
            word, d = rng.choice([("union all", False), ("union", True), ("union distinct", True)])
            text += " %s %s" % (word, t); plan.append((d, p))
    return text, ("chain", plan), names
def rows_of(plan):
    if plan[0] == "leaf": return [tuple(r.values()) for r in sqlrun.query(plan[1])]
    rows = []
    for distinct, part in plan[1]:
        rows = rows + rows_of(part)
        if distinct:
            kept = []
            for r in rows:
                if r not in kept: kept.append(r)
            rows = kept
    return rows
def union_case(rng):
    m = rng.choice([1, 2, 2, 3])
    if rng.random() < .06:
        parts = ["select * from t%s" % rng.choice(["", " a", " where v>1", " where g=1 or s='b'", " where v is null"]) for _ in range(rng.choice([2, 3]))]
        words = [rng.choice(["union", "union all"]) for _ in parts[1:]]
        return parts[0] + "".join(" %s %s" % x for x in zip(words, parts[1:])), ("chain", [(None, ("leaf", parts[0]))] + [(w == "union", ("leaf", p)) for w, p in zip(words, parts[1:])]), T_COLS_OF_STAR, None, None
    text, plan, names = tree(rng, m, 1, True)
    order = (rng.randrange(m), rng.random() < .5) if rng.random() < .35 else None
    limit = (rng.choice([1, 2, 4]), rng.choice([0, 0, 1])) if rng.random() < .3 else None
    if (order or limit) and text.rstrip().endswith(")"): order = limit = None
    if order: text += " order by %s%s" % (names[order[0]], " desc" if order[1] else "")
    if limit: text += " limit %d offset %d" % limit if limit[1] else " limit %d" % limit[0]
    return text, plan, names, order, limit
SHAPES = ["plain", "subquery", "with", "count", "in"]
@contract(P, {"tables": Custom("tables", table_case), "case": Custom("case", union_case), "shape": Choice(*SHAPES)}, bounded_only=True, cases=9000, targets=[F + "compile_union", F + "compile_query", F + "compile_with"],
    bound="random unions of 2-4 selects (nested once), 1-3 columns, tables of up to 8 rows, in memory, default @batch")
def union_statements(tables, case, shape):
    t, u = tables
    text, plan, names, order, limit = case
    sqlrun.put("t", t); sqlrun.put("u", u)
    try:
        sqlrun.engine().execute("set @pyvc_u=4")
        rows = rows_of(plan)
        if order:
            c, desc = order
            key = lambda r: (r[c] is not None, r[c] if r[c] is not None else 0)
            assume(len(set(type(r[c]) for r in rows if r[c] is not None and not isinstance(r[c], (int, float)))) + any(isinstance(r[c], (int, float)) for r in rows) < 2)
            rows = sorted(rows, key=key, reverse=desc)
        if limit: rows = rows[limit[1]:limit[1] + limit[0]]
        want = [dict(zip(names, r)) for r in rows]
        if shape == "plain": got = sqlrun.query(text)
        elif shape == "subquery": got = sqlrun.query("select %s from (%s) q" % (", ".join("q." + n for n in names), text))
        elif shape == "with": got = sqlrun.query("with q as (%s) select %s from q" % (text, ", ".join(names)))
        elif shape == "count":
            got = sqlrun.query("select count(*) as n from (%s) q" % text); want = [{"n": len(want)}] if want else []
        else:
            assume(len(names) == 1)
            members = [r[0] for r in rows if isinstance(r[0], int)]
            assume(len(members) == len(rows))
            got = sqlrun.query("select id from t x where id in (%s)" % text); want = [{"id": r["id"]} for r in t if r["id"] in members]
        assert [list(r.items()) for r in got] == [list(r.items()) for r in want], "the rows of every select by position, under the names of the first"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
def different_case(rng):
    m = rng.choice([1, 2, 3])
    k = rng.choice([x for x in (1, 2, 3, 4) if x != m])
    sizes = [m, k] + [rng.choice([m, k]) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .5: sizes[1:] = rng.sample(sizes[1:], len(sizes) - 1)
    parts = [leaf(rng, s, i == 0)[0] for i, s in enumerate(sizes)]
    return "".join(p if i == 0 else " %s %s" % (rng.choice(["union", "union all"]), p) for i, p in enumerate(parts))
@contract(P, {"tables": Custom("tables", table_case), "sql": Custom("sql", different_case)}, bounded_only=True, cases=600, targets=[F + "compile_union"], bound="random unions of 2-4 selects with different numbers of columns")
def different_columns(tables, sql):
    t, u = tables
    sqlrun.put("t", t); sqlrun.put("u", u)
    try:
        try: got = sqlrun.query(sql)
        except Exception: got = None
        assert got is None, "a union of different numbers of columns is refused"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", []); sqlrun.engine().pop_memory_datas("pyvc_res")
@contract(P, {"values": Custom("values", lambda rng: [rng.randint(1, 4) for _ in range(rng.randint(2, 6))]), "word": Choice("union", "union all"), "limit": Int(1, 3), "desc": Bool()}, bounded_only=True, cases=150, targets=[F + "compile_union"],
    bound="unions of up to 6 selects of one row each, SET @limit of 1-3")
def row_cap(values, word, limit, desc):
    e = sqlrun.engine()
    try:
        e.execute("set @limit=%d" % limit)
        got = sqlrun.query((" %s " % word).join("select %d as a" % v for v in values) + (" order by a desc" if desc else ""))
    finally:
        e.execute("set @limit=0")
    rows = list(values)
    if word == "union": rows = [v for i, v in enumerate(rows) if v not in rows[:i]]
    if desc: rows = sorted(rows, reverse=True)
    assert [r["a"] for r in got] == rows, "a cap on the rows read by each select is no cap on the rows of the union"
