"""C23  Joins pair rows exactly when the whole ON condition holds."""
from pyvc.api import *
from contracts import sqlrun

P = "C23"
F = "syncanysql/compiler.py:Compiler."

def cmp(x, y, o): return x is not None and y is not None and {"=": x == y, ">": x > y, ">=": x >= y, "<": x < y, "<=": x <= y, "!=": x != y}[o]
# ---- how an ON condition is divided
def compiler(): raise NotImplementedError          # SPEC: a compiler of an arbitrary statement
def condition_of(plan, kind): raise NotImplementedError     # SPEC: an ON condition of that form over arbitrary operands
def join_of(plan): raise NotImplementedError       # SPEC: the joined table, with arbitrary keys and conditions it already has
def table_of(plan): raise NotImplementedError      # SPEC: the primary table
def may_refuse(plan): raise NotImplementedError    # SPEC: the condition compares a column without table name, or gives a column of the joined table a second key
def paired_exactly(plan, condition):
    """SPEC: for every row of the joined table and every row of the tables before it: the condition is true exactly when the
    keys are equal, the source lets the row through and the conditions checked locally are true.  Keys are given together
    with the value they are looked up by, which does not use the joined table; the source is only given conditions on columns
    of the joined table with values that are the same for all rows, and no condition it already has is replaced; each column of
    another table that is needed is known to the join.  Left out: keys that are NULL on both sides (known finding)"""
    raise NotImplementedError
ON_KINDS = ("and", "or", "paren", "=", "!=", ">", ">=", "<", "<=", "in list", "in query", "in variable", "other")
@contract(P, {"plan": Custom("plan", None), "kind": Choice(*ON_KINDS)}, targets=[F + "parse_on_condition"], concrete=False, split="kind")
def on_split(plan, kind):
    from syncanysql.compiler import Compiler
    from syncanysql.errors import SyncanySqlCompileException
    condition = condition_of(plan, kind)
    try:
        Compiler.parse_on_condition(compiler(), condition, {}, {}, table_of(plan), join_of(plan))
        refused = False
    except SyncanySqlCompileException: refused = True
    if refused: assert may_refuse(plan), "only a column without table or a second key for a column is refused"
    else:
        assert paired_exactly(plan, condition), "the condition is true exactly when all its parts are"
        cover("split")

# ---- whole statements
KEYS = [("a.g=b.k", lambda a, b: cmp(a["g"], b["k"], "=")), ("b.k=a.g", lambda a, b: cmp(a["g"], b["k"], "=")), ("a.h=b.k and a.g=b.x", lambda a, b: cmp(a["h"], b["k"], "=") and cmp(a["g"], b["x"], "=")),
        ("b.x=a.g and b.k=a.h", lambda a, b: cmp(a["h"], b["k"], "=") and cmp(a["g"], b["x"], "=")), ("b.k=a.h+1", lambda a, b: cmp(a["h"] + 1, b["k"], "=")), ("a.h*2-1=b.k", lambda a, b: a["h"] * 2 - 1 == b["k"]), ("a.id=b.uid", lambda a, b: a["id"] == b["uid"])]
EXTRA = [("b.w=2", lambda a, b: b["w"] == 2), ("b.w>1", lambda a, b: cmp(b["w"], 1, ">")), ("b.w<=2", lambda a, b: cmp(b["w"], 2, "<=")), ("b.w<2", lambda a, b: cmp(b["w"], 2, "<")), ("b.w!=2", lambda a, b: cmp(b["w"], 2, "!=")),
         ("b.w>0", lambda a, b: cmp(b["w"], 0, ">")), ("b.w>=2", lambda a, b: cmp(b["w"], 2, ">=")), ("b.x<=2", lambda a, b: b["x"] <= 2), ("b.x!=1", lambda a, b: b["x"] != 1), ("1<b.x", lambda a, b: b["x"] > 1), ("2>=b.w", lambda a, b: cmp(b["w"], 2, "<=")),
         ("b.x=1+1", lambda a, b: b["x"] == 2), ("b.x=@pyvc_y", lambda a, b: b["x"] == 2), ("b.w!=@pyvc_y", lambda a, b: cmp(b["w"], 2, "!=")), ("b.w=@pyvc_n", lambda a, b: False), ("b.w<@pyvc_n", lambda a, b: False), ("b.w=null", lambda a, b: False),
         ("b.w<length(concat('a','b','c'))", lambda a, b: cmp(b["w"], 3, "<")), ("b.w<(select max(uid)+1 as m from pyvc_u2)", lambda a, b: cmp(b["w"], 2, "<")), ("b.w<=(select max(w) from pyvc_u3)", lambda a, b: False), ("b.x=(select max(uid) from pyvc_u2)", lambda a, b: b["x"] == 1),
         ("b.x in (1,3)", lambda a, b: b["x"] in (1, 3)), ("b.w in (1,2)", lambda a, b: b["w"] in (1, 2)), ("b.w in (1,null)", lambda a, b: b["w"] == 1), ("b.w not in (1,2)", lambda a, b: b["w"] == 3), ("b.w in (@pyvc_y,1)", lambda a, b: b["w"] in (1, 2)),
         ("b.w in (select uid from pyvc_u2)", lambda a, b: b["w"] == 1), ("b.w in (select w from pyvc_u3)", lambda a, b: False), ("b.x in (select uid from pyvc_u2)", lambda a, b: b["x"] in (0, 1)), ("b.x between 1 and 1", lambda a, b: b["x"] == 1), ("b.w is null", lambda a, b: b["w"] is None), ("b.w is not null", lambda a, b: b["w"] is not None),
         ("b.s like 'a%'", lambda a, b: b["s"][0] == "a"), ("b.s='a'", lambda a, b: b["s"] == "a"), ("b.s!='a'", lambda a, b: b["s"] != "a"), ("b.w+b.x>2", lambda a, b: b["w"] is not None and b["w"] + b["x"] > 2), ("b.w>=b.x", lambda a, b: cmp(b["w"], b["x"], ">=")),
         ("b.w>=a.h", lambda a, b: cmp(b["w"], a["h"], ">=")), ("b.w>=a.v", lambda a, b: cmp(b["w"], a["v"], ">=")), ("a.h>b.w", lambda a, b: cmp(b["w"], a["h"], "<")), ("b.w!=a.h", lambda a, b: cmp(b["w"], a["h"], "!=")), ("b.w<a.h+1", lambda a, b: cmp(b["w"], a["h"] + 1, "<")),
         ("(b.w=1 or b.x=2)", lambda a, b: b["w"] == 1 or b["x"] == 2), ("(b.w=1 or a.h=2)", lambda a, b: b["w"] == 1 or a["h"] == 2), ("(b.w>1 and b.x<3 or b.s='b')", lambda a, b: cmp(b["w"], 1, ">") and b["x"] < 3 or b["s"] == "b"),
         ("b.w in (1+1)", lambda a, b: b["w"] == 2), ("b.w not in (@pyvc_y)", lambda a, b: cmp(b["w"], 2, "!=")), ("b.w in (a.h)", lambda a, b: b["w"] == a["h"]), ("b.w in (@pyvc_n)", lambda a, b: False), ("b.w not in (abs(-1))", lambda a, b: cmp(b["w"], 1, "!=")),
         ("b.w in @pyvc_y", lambda a, b: b["w"] == 2), ("b.w+b.x in @pyvc_y", lambda a, b: b["w"] is not None and b["w"] + b["x"] == 2), ("b.w in @pyvc_n", lambda a, b: False), ("(select max(uid) from pyvc_u2)=b.w", lambda a, b: b["w"] == 1), ("(select max(w) from pyvc_u3)=b.w", lambda a, b: False), ("(select max(uid)+1 as m from pyvc_u2)>b.w+b.x-1", lambda a, b: b["w"] is not None and b["w"] + b["x"] - 1 < 2),
         ("b.w in (a.h,2)", lambda a, b: b["w"] in (a["h"], 2)), ("b.w in (a.h-1,b.x)", lambda a, b: b["w"] in (a["h"] - 1, b["x"])), ("b.w not in (a.h,1)", lambda a, b: b["w"] is not None and b["w"] not in (a["h"], 1)), ("a.h in (b.w,3)", lambda a, b: a["h"] in (b["w"], 3)),
         ("b.w=b.x", lambda a, b: cmp(b["w"], b["x"], "=")), ("b.x=b.w", lambda a, b: cmp(b["w"], b["x"], "=")), ("b.w=a.h-b.x", lambda a, b: cmp(b["w"], a["h"] - b["x"], "=")), ("a.h+b.x=b.w", lambda a, b: cmp(b["w"], a["h"] + b["x"], "=")), ("b.w+b.x=a.h", lambda a, b: b["w"] is not None and b["w"] + b["x"] == a["h"]),
         ("a.h=2", lambda a, b: a["h"] == 2), ("2<=a.h", lambda a, b: a["h"] >= 2), ("a.h in (1,3)", lambda a, b: a["h"] in (1, 3)), ("a.g!=2", lambda a, b: cmp(a["g"], 2, "!=")), ("a.v is null", lambda a, b: a["v"] is None), ("a.v=null", lambda a, b: False), ("a.h<a.v", lambda a, b: cmp(a["h"], a["v"], "<")), ("a.h=(select max(uid) from pyvc_u2)", lambda a, b: a["h"] == 1), ("(a.h=1 or a.v>2)", lambda a, b: a["h"] == 1 or cmp(a["v"], 2, ">"))]
SAME = [[i for i, (t, _) in enumerate(EXTRA) if t.startswith(c)] for c in ("b.w", "b.x", "b.w", "b.x", "a.h")]
FILTERS = [("", lambda a, b: True)] * 8 + [("where a.h>1", lambda a, b: a["h"] > 1), ("where b.x=2", lambda a, b: b.get("x") == 2), ("where b.uid is null", lambda a, b: b.get("uid") is None), ("where b.uid is not null and a.h<3", lambda a, b: b.get("uid") is not None and a["h"] < 3),
           ("where a.v>b.w", lambda a, b: cmp(a["v"], b.get("w"), ">")), ("where b.w>1 or a.h=1", lambda a, b: cmp(b.get("w"), 1, ">") or a["h"] == 1), ("where a.g in (1,2) and b.x!=2", lambda a, b: a["g"] in (1, 2) and cmp(b.get("x"), 2, "!="))]
def same(got, want):
    assert sorted(got, key=repr) == sorted(want, key=repr), "pairs of rows"
def setup():
    e = sqlrun.engine()
    e.execute("set @pyvc_y=2"); e.execute("set @pyvc_n=null")
    sqlrun.put("pyvc_u2", [{"uid": 0}, {"uid": 1}]); sqlrun.put("pyvc_u3", [{"uid": 0, "w": None}])
def keys(rng, n, unique, null=False):
    ks = rng.sample([1, 2, 3, 4, 5, 6], n) if unique else [rng.choice([1, 2, 4]) for _ in range(n)]
    return [None if null and rng.random() < .3 else k for k in ks]
def left_rows(rng): return [{"id": i, "g": rng.choice([1, 2, 3, None]), "v": rng.choice([5, 1, None, 3, 2]), "h": rng.choice([1, 2, 3])} for i in range(rng.choice([1, 3, 5]))]
def right_rows(rng, unique, null=False): return [{"uid": i, "k": k, "w": rng.choice([1, 2, 3, None]), "x": rng.choice([1, 2, 3]), "s": rng.choice(["a", "ab", "b"])} for i, k in enumerate(keys(rng, rng.choice([1, 2, 4, 6] if unique else [1, 2, 4]), unique, null))]
def third_rows(rng, unique): return [{"cid": i, "m": k, "n": rng.choice([1, 2]), "z": rng.choice([1, 2, None])} for i, k in enumerate(keys(rng, rng.choice([1, 2, 4]), unique))]

# ---- one joined table
def one_case(rng):
    unique = rng.random() < .5
    among = rng.choice(SAME) if rng.random() < .35 else range(len(EXTRA))
    parts = [(0, rng.randrange(len(KEYS)))] + [(1, rng.choice(among)) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
    rng.shuffle(parts)
    return left_rows(rng), right_rows(rng, unique, rng.random() < .1), parts, rng.randrange(len(FILTERS))
def join_one_known(args, msg):
    rows = args[0][1]
    if msg and "pairs of rows" in msg and any(r["k"] is None for r in rows) and any(r["g"] is None for r in args[0][0]): return "join-null-keys"
@contract(P, {"case": Custom("case", one_case), "kind": Choice("left join", "join", "inner join")}, bounded_only=True, cases=9000, known=join_one_known, targets=[F + "parse_on_condition", F + "parse_joins", F + "optimize_rewrite_inner_join", F + "compile_join_column"],
    bound="tables of up to 5 and 6 rows with and without repeated keys and NULLs; 7 key conditions, up to four of 68 further ON conditions, 7 WHERE conditions")
def join_one(case, kind):
    left, right, parts, w = case
    setup()
    try:
        on = [(KEYS, EXTRA)[t][i] for t, i in parts]
        where, keep = FILTERS[w]
        want = []
        for a in left:
            ms = [b for b in right if all(f(a, b) for _, f in on)]
            want += [[a["id"], b.get("uid")] for b in (ms or ([] if kind == "inner join" else [{}])) if keep(a, b)]
        rows = sqlrun.query("select a.id, b.uid from pyvc_t a %s pyvc_u b on %s %s" % (kind, " and ".join(s for s, _ in on), where), pyvc_t=left, pyvc_u=right)
        same([[r["id"], r["uid"]] for r in rows], want)
    finally: sqlrun.put("pyvc_t", []); sqlrun.put("pyvc_u", [])

# ---- two joined tables, independent or one joined to the other
ON1 = [("a.g=b.k", lambda e: cmp(e["a"]["g"], e["b"]["k"], "=")), ("b.k=a.g", lambda e: cmp(e["a"]["g"], e["b"]["k"], "=")), ("a.g=b.k and b.x=1", lambda e: cmp(e["a"]["g"], e["b"]["k"], "=") and e["b"]["x"] == 1), ("a.g=b.k and a.h=b.x", lambda e: cmp(e["a"]["g"], e["b"]["k"], "=") and cmp(e["a"]["h"], e["b"]["x"], "=")),
       ("b.k=a.h+1 and b.w in (1,2)", lambda e: e["b"]["k"] == e["a"]["h"] + 1 and e["b"]["w"] in (1, 2)), ("a.h=b.k and b.w!=2", lambda e: cmp(e["a"]["h"], e["b"]["k"], "=") and e["b"]["w"] not in (2, None)), ("b.x>1 and a.h=b.k", lambda e: cmp(e["a"]["h"], e["b"]["k"], "=") and e["b"]["x"] > 1)]
ON2 = [("a.h=c.m", "a", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=")), ("b.w=c.m", "b", lambda e: cmp(e["b"].get("w"), e["c"]["m"], "=")), ("c.m=b.k and c.n=1", "b", lambda e: cmp(e["b"].get("k"), e["c"]["m"], "=") and e["c"]["n"] == 1), ("c.m=a.g and c.n=b.x", "b", lambda e: cmp(e["a"]["g"], e["c"]["m"], "=") and cmp(e["b"].get("x"), e["c"]["n"], "=")),
       ("c.m=b.x+1", "b", lambda e: cmp(plus(e["b"].get("x"), 1), e["c"]["m"], "=")), ("c.m=a.h+b.x-1", "b", lambda e: cmp(plus(e["b"].get("x"), e["a"]["h"] - 1), e["c"]["m"], "=")), ("b.w*2-b.x=c.m", "b", lambda e: e["b"].get("w") is not None and e["b"]["w"] * 2 - e["b"]["x"] == e["c"]["m"]),
       ("c.m=a.h and (c.n=1 or b.x=2)", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and (e["c"]["n"] == 1 or e["b"].get("x") == 2)), ("c.m=a.h and c.n<=b.x", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and cmp(e["c"]["n"], e["b"].get("x"), "<=")), ("c.m=a.h and b.x=1", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and e["b"].get("x") == 1),
       ("c.m=a.h and c.n+1>b.x", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and cmp(e["c"]["n"] + 1, e["b"].get("x"), ">")), ("c.m=a.h and c.n+0 in (b.x,3)", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and (e["c"]["n"] == 3 or cmp(e["c"]["n"], e["b"].get("x"), "="))),
       ("c.m=a.h and c.n*2!=b.x+c.n", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and cmp(plus(e["b"].get("x"), e["c"]["n"]), e["c"]["n"] * 2, "!=")), ("c.m=a.h and b.x>c.n", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and cmp(e["c"]["n"], e["b"].get("x"), "<")),
       ("c.m=a.h and c.n in (1,b.x)", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and (e["c"]["n"] == 1 or cmp(e["c"]["n"], e["b"].get("x"), "="))), ("c.m=a.h and b.uid is not null", "b", lambda e: cmp(e["a"]["h"], e["c"]["m"], "=") and e["b"].get("uid") is not None), ("c.m=ifnull(b.k,a.h)", "b", lambda e: cmp(e["b"]["k"] if e["b"].get("k") is not None else e["a"]["h"], e["c"]["m"], "="))]
def plus(x, y): return None if x is None else x + y
def two_case(rng):
    unique = rng.random() < .5
    return left_rows(rng), right_rows(rng, unique), third_rows(rng, unique), rng.randrange(len(ON1)), rng.randrange(len(ON2))
def join(envs, rows, name, inner, test):
    out = []
    for e in envs:
        ms = [dict(e, **{name: r}) for r in rows if test(dict(e, **{name: r}))]
        out += ms or ([] if inner else [dict(e, **{name: {}})])
    return out
def join_two_known(args, msg):
    left, right, third, i1, i2 = args[0]
    if not msg or "pairs of rows" not in msg or ON2[i2][1] != "a": return None
    for a in left:                      # some row matches several rows of both joined tables independently
        if sum(1 for b in right if ON1[i1][1]({"a": a, "b": b})) > 1 and sum(1 for c in third if ON2[i2][2]({"a": a, "c": c})) > 1: return "join-two-multiple"
@contract(P, {"case": Custom("case", two_case), "kinds": Choice(*[(x, y) for x in ("left join", "join", "inner join") for y in ("left join", "join", "inner join")])}, bounded_only=True, cases=6000, known=join_two_known, targets=[F + "parse_on_condition", F + "parse_joins", F + "optimize_rewrite_inner_join", F + "compile_join_column"],
    bound="three tables of up to 5, 6 and 4 rows; 7 x 17 ON conditions, every pair of join kinds")
def join_two(case, kinds):
    left, right, third, i1, i2 = case
    setup()
    try:
        envs = join([{"a": r} for r in left], right, "b", kinds[0] == "inner join", ON1[i1][1])
        envs = join(envs, third, "c", kinds[1] == "inner join", ON2[i2][2])
        rows = sqlrun.query("select a.id, b.uid, c.cid from pyvc_t a %s pyvc_u b on %s %s pyvc_c c on %s" % (kinds[0], ON1[i1][0], kinds[1], ON2[i2][0]), pyvc_t=left, pyvc_u=right, pyvc_c=third)
        same([[r["id"], r["uid"], r["cid"]] for r in rows], [[e["a"]["id"], e["b"].get("uid"), e["c"].get("cid")] for e in envs])
    finally: sqlrun.put("pyvc_t", []); sqlrun.put("pyvc_u", []); sqlrun.put("pyvc_c", [])

# ---- four tables: every later table joined to some of the earlier ones; the joined tables have unique keys
def chain_case(rng):
    tables = [left_rows(rng)] + [[{"k": k, "v": rng.choice([1, 2, 3, None]), "x": rng.choice([1, 2])} for k in rng.sample([1, 2, 3, 4], rng.choice([2, 3, 4]))] for _ in range(3)]
    on = []
    for i in range(1, 4):
        source = rng.randrange(i)
        column = rng.choice(["h", "g", "v"]) if source == 0 else rng.choice(["k", "v", "x"])
        other = rng.choice([None, None] + list(range(1, i + 1)))
        on.append((source, column, other, rng.choice(["left join", "join", "inner join"])))
    return tables, on
@contract(P, {"case": Custom("case", chain_case)}, bounded_only=True, cases=4000, targets=[F + "parse_on_condition", F + "parse_joins", F + "optimize_rewrite_inner_join", F + "compile_join_column", F + "compile_join_column_tables"],
    bound="four tables of up to 5 and 4 rows, each joined on a unique key to a column of any earlier one, with or without a condition on any")
def join_chain(case):
    tables, on = case
    names = ["a", "b", "c", "d"]
    envs, text = [{"a": r} for r in tables[0]], "pyvc_t a"
    for i, (source, column, other, kind) in enumerate(on):
        n, s, o = names[i + 1], names[source], names[other] if other else None
        envs = join(envs, tables[i + 1], n, kind == "inner join", lambda e: cmp(e[s].get(column), e[n]["k"], "=") and (o is None or cmp(e[o].get("x"), 1, ">")))
        text += " %s pyvc_u%d %s on %s.k=%s.%s" % (kind, i + 5, n, n, s, column) + (" and %s.x>1" % o if o else "")
    try:
        rows = sqlrun.query("select a.id, b.k as bk, c.k as ck, d.k as dk, d.v as dv, c.v as cv from " + text, pyvc_t=tables[0], pyvc_u5=tables[1], pyvc_u6=tables[2], pyvc_u7=tables[3])
        same([[r["id"], r["bk"], r["ck"], r["dk"], r["dv"], r["cv"]] for r in rows], [[e["a"]["id"], e["b"].get("k"), e["c"].get("k"), e["d"].get("k"), e["d"].get("v"), e["c"].get("v")] for e in envs])
    finally:
        for n in ("pyvc_t", "pyvc_u5", "pyvc_u6", "pyvc_u7"): sqlrun.put(n, [])

# ---- what the joined rows are used for: every part of the statement sees the matched row
USES = [("a.id, b.w as x, b.s as y", lambda a, b: [a["id"], b.get("w"), b.get("s")], ["id", "x", "y"]), ("b.uid, a.id, a.h+b.x as x", lambda a, b: [b.get("uid"), a["id"], a["h"] + b["x"] if b else None], ["uid", "id", "x"]), ("a.id, ifnull(b.w,-1) as x", lambda a, b: [a["id"], b["w"] if b.get("w") is not None else -1], ["id", "x"]),
        ("a.id, case when b.x>1 then 'p' else 'q' end as x", lambda a, b: [a["id"], "p" if b and b["x"] > 1 else "q"], ["id", "x"]), ("a.id, b.k as x, concat(b.s,'-') as y", lambda a, b: [a["id"], b.get("k"), b["s"] + "-" if b else None], ["id", "x", "y"])]
SOURCES = [("pyvc_t a", "pyvc_u b"), ("pyvc_t a", "(select uid,k,w,x,s from pyvc_u) b"), ("(select id,g,v,h from pyvc_t) a", "pyvc_u b"), ("(select id,g,v,h from pyvc_t) a", "(select uid,k,w,x,s from pyvc_u) b")]
def use_case(rng): return left_rows(rng), right_rows(rng, rng.random() < .5), rng.randrange(4), rng.randrange(len(EXTRA)) if rng.random() < .4 else None
@contract(P, {"case": Custom("case", use_case), "kind": Choice("left join", "join", "inner join"), "use": Choice(*range(len(USES))), "source": Choice(*range(len(SOURCES)))}, bounded_only=True, cases=5000, targets=[F + "parse_on_condition", F + "parse_joins", F + "optimize_rewrite_inner_join", F + "compile_join_column"],
    bound="5 select lists over tables, subqueries on either side")
def join_uses(case, kind, use, source):
    left, right, k, x = case
    setup()
    try:
        on = [KEYS[k]] + ([EXTRA[x]] if x is not None else [])
        sel, f, names = USES[use]
        want = []
        for a in left:
            ms = [b for b in right if all(g(a, b) for _, g in on)]
            want += [f(a, b) for b in (ms or ([] if kind == "inner join" else [{}]))]
        rows = sqlrun.query("select %s from %s %s %s on %s" % (sel, SOURCES[source][0], kind, SOURCES[source][1], " and ".join(s for s, _ in on)), pyvc_t=left, pyvc_u=right)
        same([[r[n] for n in names] for r in rows], want)
    finally: sqlrun.put("pyvc_t", []); sqlrun.put("pyvc_u", [])

# ---- the rest of the statement is applied to the joined rows, whatever the kind of join
def grouped(envs, key, f):
    out = {}
    for e in envs: out.setdefault(key(e), []).append(e)
    return [f(k, es) for k, es in out.items()]
def total(es): return sum(e["b"]["w"] for e in es if e["b"].get("w") is not None)
CLAUSES = [("select distinct a.h as x, b.x as y", "", lambda envs: [list(k) for k in dict.fromkeys((e["a"]["h"], e["b"].get("x")) for e in envs)]),
           ("select a.h as x, count(*) as y", "group by a.h", lambda envs: grouped(envs, lambda e: e["a"]["h"], lambda k, es: [k, len(es)])),
           ("select a.h as x, count(b.uid) as y", "group by a.h", lambda envs: grouped(envs, lambda e: e["a"]["h"], lambda k, es: [k, sum(1 for e in es if e["b"])])),
           ("select b.x as x, count(*) as y", "group by b.x", lambda envs: grouped(envs, lambda e: e["b"].get("x"), lambda k, es: [k, len(es)])),
           ("select a.h as x, sum(b.uid) as y", "group by a.h having y>1", lambda envs: [r for r in grouped(envs, lambda e: e["a"]["h"], lambda k, es: [k, sum(e["b"]["uid"] for e in es if e["b"])]) if r[1] > 1]),
           ("select a.id as x, b.uid as y", "having y>0", lambda envs: [[e["a"]["id"], e["b"]["uid"]] for e in envs if e["b"] and e["b"]["uid"] > 0]),
           ("select a.id as x, b.uid as y", "order by a.id desc, b.uid limit 3", lambda envs: sorted([[e["a"]["id"], e["b"].get("uid")] for e in envs], key=lambda r: (-r[0], -1 if r[1] is None else r[1]))[:3]),
           ("select a.id as x, b.uid as y", "order by b.uid desc, a.id limit 2 offset 1", lambda envs: sorted([[e["a"]["id"], e["b"].get("uid")] for e in envs], key=lambda r: (1 if r[1] is None else -r[1], r[0]) if r[1] is not None else (1000, r[0]))[1:3]),
           ("select a.id as x, b.uid as y", "where a.h>1 or b.x=2", lambda envs: [[e["a"]["id"], e["b"].get("uid")] for e in envs if e["a"]["h"] > 1 or e["b"].get("x") == 2]),
           ("select count(*) as x, count(b.uid) as y", "where a.h>1", lambda envs: [[len(es), sum(1 for e in es if e["b"])] for es in [[e for e in envs if e["a"]["h"] > 1]] if es]),
           ("select a.h as x, count(*) as y", "where b.x<3 or a.h=1 group by a.h having y<3 order by x desc limit 2", lambda envs: sorted([r for r in grouped([e for e in envs if e["b"] and e["b"]["x"] < 3 or e["a"]["h"] == 1], lambda e: e["a"]["h"], lambda k, es: [k, len(es)]) if r[1] < 3], key=lambda r: -r[0])[:2])]
def clause_known(args, msg):
    (left, right, k, x), kind, clause = args
    on = [KEYS[k]] + ([EXTRA[x]] if x is not None else [])
    # no output column uses the joined table, and some row matches several of its rows
    if clause in (1, 10) and msg and "pairs of rows" in msg and any(sum(1 for b in right if all(g(a, b) for _, g in on)) > 1 for a in left): return "join-unused-table"
def clause_case(rng): return left_rows(rng), right_rows(rng, rng.random() < .5), rng.randrange(len(KEYS)), rng.randrange(len(EXTRA)) if rng.random() < .3 else None
@contract(P, {"case": Custom("case", clause_case), "kind": Choice("left join", "join", "inner join", "INNER JOIN"), "clause": Choice(*range(len(CLAUSES)))}, bounded_only=True, cases=6000, known=clause_known, targets=[F + "parse_on_condition", F + "optimize_rewrite_inner_join"],
    bound="11 combinations of DISTINCT, WHERE, GROUP BY, HAVING, ORDER BY and LIMIT")
def join_clauses(case, kind, clause):
    left, right, k, x = case
    setup()
    try:
        on = [KEYS[k]] + ([EXTRA[x]] if x is not None else [])
        sel, rest, f = CLAUSES[clause]
        envs = join([{"a": r} for r in left], right, "b", kind.lower() == "inner join", lambda e: all(g(e["a"], e["b"]) for _, g in on))
        rows = sqlrun.query("%s from pyvc_t a %s pyvc_u b on %s %s" % (sel, kind, " and ".join(s for s, _ in on), rest), pyvc_t=left, pyvc_u=right)
        got, want = [[r["x"], r["y"]] for r in rows], f(envs)
        same(got, want)
        if "order by" in rest: assert got == want, "order"
    finally: sqlrun.put("pyvc_t", []); sqlrun.put("pyvc_u", [])
