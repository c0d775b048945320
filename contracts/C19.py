"""C19  WHERE keeps exactly the rows for which the written condition is true, wherever its parts are evaluated."""
import random
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters.mysql_funcs import logical_funcs as L

P = "C19"
F = "syncanysql/compiler.py:Compiler."
G = "syncanysql/calculaters/mysql_funcs/logical_funcs.py:"

# ---- three-valued logic; 1, 0 and None as the comparisons give them
TRUTH = Kind("none", "bool", "int")
def known(x): return x is not None
@contract(P, {"a": TRUTH, "b": TRUTH}, targets=[G + "mysql_and"])
def conjunction(a, b):
    r = L.mysql_and(a, b)
    if (known(a) and not a) or (known(b) and not b): assert same(r, 0), "false as soon as one side is false"
    elif a is None or b is None: assert r is None, "unknown when a side is unknown and none is false"
    else: assert same(r, 1), "true when both are true"
@contract(P, {"a": TRUTH, "b": TRUTH}, targets=[G + "mysql_or"])
def disjunction(a, b):
    r = L.mysql_or(a, b)
    if (known(a) and a) or (known(b) and b): assert same(r, 1), "true as soon as one side is true"
    elif a is None or b is None: assert r is None, "unknown when a side is unknown and none is true"
    else: assert same(r, 0), "false when both are false"
@contract(P, {"a": TRUTH}, targets=[G + "mysql_not"])
def negation(a):
    r = L.mysql_not(a)
    if a is None: assert r is None, "unknown stays unknown"
    else: assert same(r, 0 if a else 1), "the opposite"

# ---- which parts of the condition the data source checks and which are checked on its rows
def compiler(): raise NotImplementedError          # SPEC: a compiler of an arbitrary statement
def condition_of(plan, kind): raise NotImplementedError     # SPEC: a condition of that form over arbitrary operands
def config_of(plan): raise NotImplementedError     # SPEC: the plan so far, with arbitrary conditions already given to the source
def table_of(plan): raise NotImplementedError      # SPEC: the primary table
def kept_exactly(plan, condition, rest):
    """SPEC: for every row: the condition is true exactly when the source lets the row through and what is left to be
    checked (`rest`, and equally the whole condition as it is evaluated afterwards) is true; what the source is given
    concerns a column of the primary table and a value that is the same for every row, and no condition it already
    has is replaced.  A comparison with NULL is unknown for the condition, while the source may let such a row through.
    Left out: SELECT * compared with a subquery that gives NULL (known finding)"""
    raise NotImplementedError
KINDS = ("and", "or", "paren", "=", "!=", ">", ">=", "<", "<=", "in list", "in query", "in variable", "other")
@contract(P, {"plan": Custom("plan", None), "kind": Choice(*KINDS)}, targets=[F + "compile_where_condition"], concrete=False, split="kind")
def where_split(plan, kind):
    from syncanysql.compiler import Compiler
    condition = condition_of(plan, kind)
    rest = Compiler.compile_where_condition(compiler(), condition, config_of(plan), {}, table_of(plan), {})
    assert kept_exactly(plan, condition, rest), "the condition is true exactly when both parts are"
    cover("split")

# ---- the term a HAVING condition is evaluated by
def result_condition(plan, kind): raise NotImplementedError     # SPEC: a condition of that form over arbitrary operands
def result_of(plan): raise NotImplementedError     # SPEC: the plan so far: its columns, or all of them
def unknown_column(plan): raise NotImplementedError     # SPEC: the condition uses a column that the result does not have
def evaluated_exactly(plan, condition, term):
    """SPEC: on every row of the result the term is true, false or unknown exactly when the condition is, and the columns
    it reads are those of the result, whatever table they came from"""
    raise NotImplementedError
RESULT_KINDS = ("and", "or", "paren", "=", "!=", ">", ">=", "<", "<=", "in list", "in query", "in variable", "like", "between", "other")
@contract(P, {"plan": Custom("result", None), "kind": Choice(*RESULT_KINDS)}, targets=[F + "compile_having_condition"], concrete=False, split="kind")
def having_term(plan, kind):
    from syncanysql.compiler import Compiler
    from syncanysql.errors import SyncanySqlCompileException
    condition = result_condition(plan, kind)
    try: term = Compiler.compile_having_condition(compiler(), condition, result_of(plan), {}, table_of(plan))
    except SyncanySqlCompileException:
        assert unknown_column(plan), "only a condition on a column that is not in the result is refused"
        cover("refused"); return
    assert not unknown_column(plan), "a condition on a column that is not in the result is refused"
    assert evaluated_exactly(plan, condition, term), "the term is true exactly when the condition is"
    cover("term")

# ---- whole statements against three-valued logic
OPS = {"=": lambda x, y: x == y, "!=": lambda x, y: x != y, "<>": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}
def C3(op, x, y): return None if x is None or y is None else OPS[op](x, y)
def And3(a, b): return False if a is False or b is False else (None if a is None or b is None else True)
def Or3(a, b): return True if a is True or b is True else (None if a is None or b is None else False)
def Not3(a): return None if a is None else not a
def In3(x, l):
    r = False
    for y in l: r = Or3(r, C3("=", x, y))
    return r
def condition(rng, d, p, t, u, negated=False):
    r = rng.random()
    if d <= 0 or r < .4:
        kinds = ["cmp", "cmp", "cmp", "rcmp", "rcmp", "colcol", "in", "null", "notnull", "between", "scmp", "rscmp", "expr", "nested", "notin", "like", "neg", "nul", "left", "mixed", "notbetween", "bare", "call", "invar"]
        k = rng.choice(kinds + ["isub", "ssub"])
        c, o, n = rng.choice(["v", "g", "id"]), rng.choice(list(OPS)), rng.choice([0, 1, 2, 3, 5])
        if k == "cmp": return "%s%s %s %d" % (p, c, o, n), lambda t: C3(o, t[c], n)
        if k == "nul": return "%s%s %s null" % (p, c, o), lambda t: None
        if k == "rcmp": return "%d %s %s%s" % (n, o, p, c), lambda t: C3(o, n, t[c])
        if k == "expr": return "%s%s %s 1+%d" % (p, c, o, n), lambda t: C3(o, t[c], n + 1)
        if k == "bare": return "%s%s" % (p, c), lambda t: C3("!=", t[c], 0)
        if k == "call":
            q = p + c
            sql, f = rng.choice([("ifnull(%s, %d)" % (q, n), lambda t: n if t[c] is None else t[c]), ("coalesce(%s, %sid, 1)" % (q, p), lambda t: [x for x in (t[c], t["id"], 1) if x is not None][0]),
                ("if(%s>%d, %sid, 0)" % (q, n, p), lambda t: t["id"] if t[c] is not None and t[c] > n else 0), ("greatest(%d, %s)" % (n, q), lambda t: None if t[c] is None else max(n, t[c])), ("abs(%s)" % q, lambda t: t[c])])
            return sql, lambda t: None if f(t) is None else f(t) != 0
        if k == "invar": return "%s%s %sin @pyvc_two" % (p, c, "" if n else "not "), lambda t: C3("=" if n else "!=", t[c], 2)
        if k == "nested":
            g = lambda t: n if t["id"] is None else t["id"] + 1
            if rng.random() < .3: return "%s%s in (%d, ifnull(%sid+1, %d))" % (p, c, n + 1, p, n), lambda t: In3(t[c], [n + 1, g(t)])
            if rng.random() < .3: return "%s%s %s greatest(%d, %sid+1)" % (p, c, o, n, p), lambda t: None if t["id"] is None else C3(o, t[c], max(n, t["id"] + 1))
            if rng.random() < .3: return "%s%s %s if(%sid>2, 1, %d)" % (p, c, o, p, n), lambda t: C3(o, t[c], 1 if t["id"] is not None and t["id"] > 2 else n)
            return ("%s%s %s ifnull(%sid+1, %d)" % (p, c, o, p, n), lambda t: C3(o, t[c], g(t))) if rng.random() < .5 else ("ifnull(%sid+1, %d) %s %s%s" % (p, n, o, p, c), lambda t: C3(o, g(t), t[c]))
        if k == "left": return "%s%s+1 %s %d" % (p, c, o, n), lambda t: C3(o, None if t[c] is None else t[c] + 1, n)
        if k == "neg": return "%s%s %s -%d" % (p, c, o, n), lambda t: C3(o, t[c], -n)
        if k == "colcol": return "%s%s %s %sid" % (p, c, o, p), lambda t: C3(o, t[c], t["id"])
        if k == "in": return "%s%s in (%d, %d)" % (p, c, n, n + 1), lambda t: In3(t[c], [n, n + 1])
        if k == "notin": return "%s%s not in (%d, %d)" % (p, c, n, n + 1), lambda t: Not3(In3(t[c], [n, n + 1]))
        if k == "mixed":
            if rng.random() < .4:
                one, f = rng.choice([("%d+1" % n, lambda t: n + 1), ("abs(-%d)" % n, lambda t: n), ("%sid" % p, lambda t: t["id"]), ("%sid+1" % p, lambda t: None if t["id"] is None else t["id"] + 1), ("if(1>2,1,null)", lambda t: None)])
                return ("%s%s in (%s)" % (p, c, one), lambda t: In3(t[c], [f(t)])) if rng.random() < .5 else ("%s%s not in (%s)" % (p, c, one), lambda t: Not3(In3(t[c], [f(t)])))
            if rng.random() < .5:
                parts = rng.choice([["%sid", "%d"], ["%d", "%sid"]])
                return "%s%s in (%s)" % (p, c, ", ".join(x % (p if "s" in x else n) for x in parts)), lambda t: In3(t[c], [t["id"], n])
            return "%s%s in (%d, null, %d)" % (p, c, n, n + 1), lambda t: In3(t[c], [n, None, n + 1])
        if k == "isub":
            if negated: return "%s%s in (select k from u)" % (p, c), lambda t: In3(t[c], [x["k"] for x in u])
            return "%s%s in (select w from u)" % (p, c), lambda t: In3(t[c], [x["w"] for x in u])
        if k == "ssub":
            ws = [x["w"] for x in u if x["w"] is not None]
            return "%s%s %s (select max(w) as m from u)" % (p, c, o), lambda t: C3(o, t[c], max(ws) if ws else None)
        if k == "null": return "%s%s is null" % (p, c), lambda t: t[c] is None
        if k == "notnull": return "%s%s is not null" % (p, c), lambda t: t[c] is not None
        if k == "between": return "%s%s between %d and %d" % (p, c, n, n + 2), lambda t: And3(C3(">=", t[c], n), C3("<=", t[c], n + 2))
        if k == "notbetween": return "%s%s not between %d and %d" % (p, c, n, n + 1), lambda t: Not3(And3(C3(">=", t[c], n), C3("<=", t[c], n + 1)))
        if k == "like": return "%ss like 'a%%'" % p, lambda t: None if t["s"] is None else t["s"].startswith("a")
        x = rng.choice(["a", "b", ""])
        if k == "scmp": return "%ss %s '%s'" % (p, o, x), lambda t: C3(o, t["s"], x)
        return "'%s' %s %ss" % (x, o, p), lambda t: C3(o, x, t["s"])
    a, fa = condition(rng, d - 1, p, t, u, negated); b, fb = condition(rng, d - 1, p, t, u, negated)
    low = lambda s: "(%s)" % s if " or " in s else s
    if r < .66: return "%s and %s" % (low(a), low(b)), lambda t: And3(fa(t), fb(t))
    if r < .76: return "%s or %s" % (a, b), lambda t: Or3(fa(t), fb(t))
    if r < .86: return "(%s or %s)" % (a, b), lambda t: Or3(fa(t), fb(t))
    if r < .94:
        a, fa = condition(rng, d - 1, p, t, u, True)
        return "not (%s)" % a, lambda t: Not3(fa(t))
    return "(%s)" % a, fa
def where_case(rng):
    t = [{"id": i, "g": rng.choice([1, 2, 3, None]), "v": rng.choice([5, 1, None, 3, 2, 0]), "s": rng.choice(["a", "b", None, "c", "", "ab"])} for i in range(rng.choice([1, 5, 8]))]
    u = [{"k": k, "w": rng.choice([5, None, 1, 2])} for k in rng.sample([0, 1, 2, 3, 5], rng.choice([1, 3, 4]))]
    p = rng.choice(["a.", "a.", ""])
    sql, f = condition(rng, rng.choice([0, 1, 2, 2, 3]), p, t, u)
    return t, u, p, sql, [bool(f(r) is True) for r in t]
def known_star(args, msg):
    t, u, p, cond, true = args[0]
    if args[1] == 3 and "select max(w)" in cond and all(x["w"] is None for x in u) and "exactly the rows" in msg: return "select-star-null-subquery"
@contract(P, {"case": Custom("case", where_case), "shape": Choice(*range(9))}, bounded_only=True, known=known_star, cases=8000, targets=[F + "compile_where_condition", F + "compile_where_condition_column", F + "compile_calculate"],
    bound="seeded conditions of up to 4 levels of AND, OR, NOT and parentheses over comparisons, IN, BETWEEN, IS NULL, LIKE and subqueries, in 9 kinds of statement, tables of up to 8 rows in memory; a subquery under NOT has no NULL in its column (syncany drops them)")
def where_statements(case, shape):
    t, u, p, cond, true = case
    a = "a" if p else ""
    kept = [r for r, x in zip(t, true) if x]
    sqlrun.put("t", t); sqlrun.put("u", u); sqlrun.engine().execute("set @pyvc_two=2")
    try:
        if shape < 3: sql, want = "select id from t %s where %s" % (a, cond), [{"id": r["id"]} for r in kept]
        elif shape == 3: sql, want = "select * from t %s where %s" % (a, cond), kept
        elif shape == 4: sql, want = "select count(*) as c, sum(id) as x from t %s where %s" % (a, cond), [{"c": len(kept), "x": sum(r["id"] for r in kept)}] if kept else []
        elif shape == 5: sql, want = "select x.id as id from (select id, g, v, s from t %s where %s) x" % (a, cond), [{"id": r["id"]} for r in kept]
        elif shape == 6: sql, want = "select id from t %s where %s order by id desc limit 2" % (a, cond), [{"id": r["id"]} for r in kept[::-1][:2]]
        elif shape == 8 and p: sql, want = "select id, v+1 as g, g+1 as v from t %s where %s" % (a, cond), [{"id": r["id"], "g": None if r["v"] is None else r["v"] + 1, "v": None if r["g"] is None else r["g"] + 1} for r in kept]
        else: sql, want = "with q as (select id, g, v, s from t) select id from q %s where %s" % (a, cond), [{"id": r["id"]} for r in kept]
        try: got = sqlrun.query(sql)
        except Exception as e:
            # rows selected as a whole have no place for a subquery's value: only a subquery the source itself compares with is supported there
            if shape == 3 and "select" in cond and any(x in cond for x in (" or ", " and ", "not (")) and "predicate unknown schema" in str(e): return
            raise
        assert got == want, "exactly the rows for which the condition is true"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
def joined_case(rng):
    t = [{"id": i, "g": rng.choice([1, 2, 3, 4]), "v": rng.choice([5, 1, None, 3, 2, 0])} for i in range(rng.choice([1, 3, 5, 8]))]
    u = [{"k": k, "w": rng.choice([5, None, 1, 2])} for k in rng.sample([1, 2, 3, 5], rng.choice([1, 3, 4]))]
    def atom():
        c, o, x = rng.choice(["a.v", "a.g", "a.id", "b.w", "b.w", "b.k"]), rng.choice(list(OPS)), rng.choice([0, 1, 2, 3, 5])
        k = rng.choice(["cmp", "cmp", "cmp", "rcmp", "rcmp", "in", "null", "notnull", "cols", "expr", "between"])
        if k == "cmp": return "%s %s %d" % (c, o, x), lambda r: C3(o, r[c], x)
        if k == "rcmp": return "%d %s %s" % (x, o, c), lambda r: C3(o, x, r[c])
        if k == "in": return "%s in (%d, %d)" % (c, x, x + 1), lambda r: In3(r[c], [x, x + 1])
        if k == "null": return "%s is null" % c, lambda r: r[c] is None
        if k == "notnull": return "%s is not null" % c, lambda r: r[c] is not None
        if k == "cols":
            y, z = rng.choice([("a.v", "b.w"), ("b.w", "a.v"), ("a.id", "b.k"), ("b.k", "b.w")])
            return "%s %s %s" % (y, o, z), lambda r: C3(o, r[y], r[z])
        if k == "expr": return "%s+1 %s %d" % (c, o, x), lambda r: C3(o, None if r[c] is None else r[c] + 1, x)
        return "%s between %d and %d" % (c, x, x + 2), lambda r: And3(C3(">=", r[c], x), C3("<=", r[c], x + 2))
    def cond(d):
        if d == 0: return atom()
        a, fa = cond(rng.choice([0, d - 1])); b, fb = cond(rng.choice([0, d - 1]))
        if rng.random() < .35: return "(%s or %s)" % (a, b), lambda r: Or3(fa(r), fb(r))
        return "%s and %s" % (a, b), lambda r: And3(fa(r), fb(r))
    s, f = cond(rng.choice([0, 1, 1, 2]))
    rows = []
    for r in t:
        x = ([x for x in u if x["k"] == r["g"]] + [{"k": None, "w": None}])[0]
        rows.append({"a.id": r["id"], "a.g": r["g"], "a.v": r["v"], "b.k": x["k"], "b.w": x["w"]})
    return t, u, s, [{"id": r["a.id"], "w": r["b.w"]} for r in rows if f(r) is True]
@contract(P, {"case": Custom("case", joined_case), "word": Choice("where", "having")}, bounded_only=True, cases=2000, targets=[F + "compile_where_condition", F + "compile_where_condition_column", F + "compile_calculate", F + "compile_having_condition"],
    bound="as where_statements, over the columns of a table and of one left joined to it by a unique key that is not NULL")
def where_joined(case, word):
    t, u, cond, want = case
    sqlrun.put("t", t); sqlrun.put("u", u)
    columns = ["a.id", "a.g", "a.v", "b.k", "b.w"] if word == "having" else ["a.id", "b.w"]
    try: assert [{"id": r["id"], "w": r["w"]} for r in sqlrun.query("select %s from t a left join u b on a.g=b.k %s %s" % (", ".join(columns), word, cond))] == want, "exactly the joined rows for which the condition is true"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])
SELECTS = ("select id, g, v, s from t", "select g, sum(v) as v, count(*) as id, max(s) as s from t group by g", "select g, count(v) as id, min(v) as v, min(s) as s from t a group by a.g", "select distinct g, v, s, 1 as id from t", "select a.g, b.w as v, a.id, a.s from t a left join u b on a.id=b.k",
 "select id, g, v, s from t a where v > 1 or g = 1", "select distinct g, v, s, 1 as id from t where g != 2 and v is not null", "select g, sum(v) as v, count(*) as id, max(s) as s from t a where 5 > a.v group by g")
def having_case(rng):
    t = [{"id": i, "g": rng.choice([1, 2, 3]), "v": rng.choice([5, 1, None, 3, 2, 0]), "s": rng.choice(["a", "b", None, "c", "", "ab"])} for i in range(rng.choice([1, 5, 8]))]
    u = [{"k": k, "w": rng.choice([5, None, 1, 2])} for k in rng.sample([0, 1, 2, 3, 5], rng.choice([1, 3, 4]))]
    seed = rng.randrange(10 ** 9)
    return t, u, seed, having_condition(seed, u)[0]
def having_condition(seed, u):
    rng = random.Random(seed)
    return condition(rng, rng.choice([0, 1, 2]), "", [], u)
@contract(P, {"case": Custom("case", having_case), "select": Choice(*SELECTS)}, bounded_only=True, cases=2000, targets=[F + "compile_having_condition"], bound="as where_statements, over the columns of 8 kinds of result")
def having_statements(case, select):
    t, u, seed, cond = case
    true = having_condition(seed, u)[1]
    sqlrun.put("t", t); sqlrun.put("u", u); sqlrun.engine().execute("set @pyvc_two=2")
    try: assert sqlrun.query(select + " having " + cond) == [r for r in sqlrun.query(select) if true(r) is True], "exactly the rows for which the condition is true"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])

@contract(P, {"case": Custom("case", having_case), "keep": Choice(*range(1, 15))}, bounded_only=True, cases=600, targets=[F + "compile_having_condition"], bound="as having_statements, on results with 1 to 3 of the 4 columns")
def having_unknown(case, keep):
    t, u, seed, cond = case
    have = [c for i, c in enumerate(["id", "g", "v", "s"]) if keep >> i & 1]
    words = set("".join(ch if ch.isalnum() or ch == "_" else " " for ch in cond.split("select")[0].replace("'a'", "").replace("'b'", "")).split())
    assume("select" not in cond)
    sqlrun.put("t", t); sqlrun.put("u", u); sqlrun.engine().execute("set @pyvc_two=2")
    try:
        try: sqlrun.query("select %s from t having %s" % (", ".join(have), cond)); refused = False
        except Exception: refused = True
        assert refused == bool(words & ({"id", "g", "v", "s"} - set(have))), "exactly a condition on a column that the result does not have is refused"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", []); sqlrun.engine().pop_memory_datas("pyvc_res")
