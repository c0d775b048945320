"""C08  Aggregates ignore NULL and equal their definition over the group."""
import json, fractions
from pyvc.api import *
from contracts import sqlrun
from contracts.common import number, integer
from syncanysql.calculaters import CALCULATERS

P = "C08"
T = "syncanysql/calculaters/aggregate_calculater.py:Aggregate"
NAMES = ("aggregate_count", "aggregate_distinct_count", "aggregate_sum", "aggregate_max", "aggregate_min", "aggregate_avg", "group_concat", "group_array",
         "group_uniq_array", "group_bit_and", "group_bit_or", "group_bit_xor", "json_arrayagg", "json_objectagg")
def mode(name, m): return CALCULATERS[name].instance(name + "::" + m)
STEP = {n: mode(n, "aggregate") for n in NAMES}
REDUCE = {n: mode(n, "reduce") for n in NAMES}
FINAL = {n: mode(n, "final_value") for n in NAMES if hasattr(CALCULATERS[n], "final_value")}
def targets(*classes): return [T + c + "Calculater." + m for c in classes for m in ("aggregate", "reduce")] + [T + c + "Calculater.final_value" for c in classes if c in ("Avg", "DistinctCount", "GroupConcat", "GroupArray", "GroupUniqArray", "JsonArrayagg", "JsonObjectagg")]

def step(name, state, v): return STEP[name].calculate(state, v)
def reduce(name, a, b): return REDUCE[name].calculate(a, b)
def final(name, state): return FINAL[name].calculate(state)

def numeric(v):
    return outcome(number, v)[0] == "ok"
def plus(x, y):
    """SPEC: mathematical sum (exact)"""
    return fractions.Fraction(x) + fractions.Fraction(y)
def ratio(x, n):
    """SPEC: mathematical quotient"""
    return fractions.Fraction(x) / n
def close(a, b):
    """SPEC: equal as numbers (up to float rounding)"""
    return abs(fractions.Fraction(a) - fractions.Fraction(b)) <= fractions.Fraction(1, 10**9) * max(1, abs(fractions.Fraction(b)))
def elements(xs):
    """SPEC: the set of a list's elements"""
    return set(xs)
SC = ("none", "bool", "int", "float", "dec", "str", "datetime", "date", "time")
NUMS = ("none", "bool", "int", "float", "dec")

@contract(P, {"values": Seq()}, targets=targets("Count"))
def count(values):
    state, n = None, 0
    for v in values:
        state = step("aggregate_count", state, v)
        if v is not None: n = n + 1
        assert state == n, "number of non-NULL values so far"

@contract(P, {"values": Seq(*SC)}, targets=targets("DistinctCount", "GroupUniqArray"))
def distinct(values):
    state, uniq, seen = None, None, set()
    for v in values:
        state = step("aggregate_distinct_count", state, v)
        uniq = step("group_uniq_array", uniq, v)
        if v is not None: seen.add(v)
        assert state is None or state == seen, "distinct non-NULL values so far"
        assert uniq is None or uniq == seen, "distinct non-NULL values so far"
    assert final("aggregate_distinct_count", state) == len(seen), "COUNT(DISTINCT) is the number of distinct non-NULL values"
    r = final("group_uniq_array", uniq)
    assert isinstance(r, list) and elements(r) == seen, "GROUP_UNIQ_ARRAY lists the distinct non-NULL values"
    assert len(r) == len(seen), "each once"

@contract(P, {"values": Seq(*SC)}, targets=targets("Sum", "Avg"), weight=3)
def sum_and_average(values):
    s, a, total, n = None, None, None, 0
    for v in values:
        s, a = step("aggregate_sum", s, v), step("aggregate_avg", a, v)
        if v is not None and numeric(v): total, n = (number(v) if total is None else plus(total, number(v))), n + 1
        assert close(s, 0 if total is None else total), "sum of the numeric values so far, 0 when there is none"
    r = final("aggregate_avg", a)
    if total is None: assert r == 0, "0 when there is no numeric value"
    else: assert close(r, ratio(total, n)), "mean of the numeric values"

def greater(a, b): return a > b
def comparable(a, b): return outcome(greater, a, b)[0] == "ok"
def extreme(values, f):
    state, best = None, None
    for v in values:
        if v is not None and best is not None: assume(comparable(v, best))
        state = step(f, state, v)
        if v is not None and (best is None or (v > best if f == "aggregate_max" else v < best)): best = v
        assert state == best, "greatest (least) non-NULL value so far, NULL when there is none"
EX = targets("Max", "Min")
WHICH = Choice("aggregate_max", "aggregate_min")
@contract(P, {"values": Seq(*NUMS), "f": WHICH}, split="f", targets=EX)
def extreme_number(values, f): extreme(values, f)
@contract(P, {"values": Seq("none", "str"), "f": WHICH}, split="f", targets=EX)
def extreme_text(values, f): extreme(values, f)
@contract(P, {"values": Seq("none", "datetime"), "f": WHICH}, split="f", targets=EX)
def extreme_datetime(values, f): extreme(values, f)
@contract(P, {"values": Seq("none", "date"), "f": WHICH}, split="f", targets=EX)
def extreme_date(values, f): extreme(values, f)
@contract(P, {"values": Seq("none", "time"), "f": WHICH}, split="f", targets=EX)
def extreme_time(values, f): extreme(values, f)

@contract(P, {"values": Seq("none", "bool", "int", "float", "dec", "str"), "op": Choice("and", "or", "xor")}, split="op", targets=targets("GroupBitAnd", "GroupBitOr", "GroupBitXor"))
def bits(values, op):
    state, acc = None, None
    for v in values:
        if v is not None: assume(outcome(integer, v)[0] == "ok")
        state = step("group_bit_" + op, state, v)
        if v is not None:
            i = integer(v)
            if acc is None: acc = i
            elif op == "and": acc = acc & i
            elif op == "or": acc = acc | i
            else: acc = acc ^ i
        assert state == acc, "bitwise fold of the non-NULL values so far"

@contract(P, {"values": Seq(*SC), "f": Choice("group_array", "json_arrayagg", "group_concat")}, split="f", targets=targets("GroupConcat", "GroupArray", "JsonArrayagg"))
def lists(values, f):
    state, kept = None, []
    for v in values:
        state = step(f, state, v)
        if v is not None: kept.append(str(v) if f == "group_concat" else v)
        if state is not None: assert state == kept, "the non-NULL values so far in order"
    r = final(f, state)
    if f == "group_array": assert r == kept, "GROUP_ARRAY lists the non-NULL values in order"
    elif f == "group_concat":
        if state is not None: assert r == ",".join(kept), "GROUP_CONCAT joins the non-NULL values in order"
        else: assert r == "", "empty text when there is none"
    elif state is None: assert r is None, "NULL when there is no value"
    else: assert r == json.dumps(kept, ensure_ascii=False, default=FINAL[f].format_value), "JSON text of the non-NULL values in order"

def pairs_gen(rng):
    k = lambda: rng.choice(["a", "b", "", 1, 2.5, True, None, datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.time(1, 2, 3)])
    return tuple([k(), rng.choice([None, 1, "x", True, datetime.date(2021, 1, 1)])] for _ in range(rng.randint(0, 6)))
def key_text(k):
    """text of a key in the JSON object"""
    if isinstance(k, datetime.datetime): return k.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(k, datetime.date): return k.strftime("%Y-%m-%d")
    if isinstance(k, datetime.time): return k.strftime("%H:%M:%S")
    return str(k)
def pair(p, i):
    """SPEC: key or value of a pair"""
    return p[i]
def same_entry(d, e):
    """SPEC: same documents"""
    return d == e
def json_text(d, f):
    return json.dumps(d, ensure_ascii=False, default=f)
@contract(P, {"pairs": Custom("pairs", pairs_gen)}, targets=targets("JsonObjectagg"))
def object_of_pairs(pairs):
    state, doc = None, {}
    for p in pairs:
        state = step("json_objectagg", state, [pair(p, 0), pair(p, 1)])
        doc[key_text(pair(p, 0))] = pair(p, 1)
        assert same_entry(state, doc), "every key holds the last value given for it, other keys are untouched"
    r = final("json_objectagg", state)
    if state is None: assert r is None, "NULL when there is no pair"
    else: assert r == json_text(doc, FINAL["json_objectagg"].format_value), "JSON text of the object"

# ---- through queries: grouping, argument compilation, finalisation
ROWS = Custom("rows", lambda rng: (lambda pool: [{"id": i, "g": rng.choice([1, 2, None]), "k": rng.choice(["p", "q"]), "v": rng.choice(pool)} for i in range(rng.randint(1, 7))])(
    rng.choice([[None, 1, 2, 3], [None, 0, 5, -4, 2.5, 7], [None, "a", "b", "3"], [None, None, 1], [True, 2, 3], [None, D("1.5"), D("2"), 2.5], ["1", 2, None]])))
AGG = {"count(v)": lambda vs, n: len(vs), "count(*)": lambda vs, n: n, "count(distinct v)": lambda vs, n: len(set(vs)), "sum(v)": lambda vs, n: sum((fractions.Fraction(number(x)) for x in vs if numeric(x)), fractions.Fraction(0)),
       "avg(v)": lambda vs, n: (lambda xs: sum(xs) / len(xs) if xs else 0)([fractions.Fraction(number(x)) for x in vs if numeric(x)]),
       "max(v)": lambda vs, n: max(vs) if vs else None, "min(v)": lambda vs, n: min(vs) if vs else None, "group_concat(v)": lambda vs, n: ",".join(map(str, vs)), "group_array(v)": lambda vs, n: vs,
       "group_uniq_array(v)": lambda vs, n: set(vs), "json_arrayagg(v)": lambda vs, n: vs if vs else None}
def check_aggregate(agg, got, vs, n):
    want = AGG[agg](vs, n)
    if agg in ("sum(v)", "avg(v)"): assert isinstance(got, (int, float, D)) and close(got, want), "sum/mean of the numeric values"
    elif agg == "group_uniq_array(v)": assert set(got) == want and len(got) == len(want), "distinct values"
    elif agg == "json_arrayagg(v)": assert got == (None if want is None else json.dumps(want, default=str)), "values in order"
    else: assert got == want, "aggregate of the group's non-NULL values"
@contract(P, {"rows": ROWS, "agg": Choice(*AGG), "where": Choice("", " where id > 1")}, bounded_only=True, cases=700, bound="seeded tables of up to 7 rows, executed by the engine")
def in_a_query(rows, agg, where):
    sel = [r for r in rows if not where or r["id"] > 1]
    vs = [r["v"] for r in sel if r["v"] is not None]
    if agg in ("max(v)", "min(v)"): assume(len({isinstance(x, str) for x in vs}) <= 1)
    if sel:
        got = sqlrun.query("select %s as x from t%s" % (agg, where), t=rows)
        assert len(got) == 1, "one row"
        check_aggregate(agg, got[0]["x"], vs, len(sel))
    got = sqlrun.query("select g, %s as x, count(*) as n, %s as y from t%s group by g" % (agg, agg, where), t=rows)
    groups = []
    for r in sel:
        if r["g"] not in groups: groups.append(r["g"])
    assert [r["g"] for r in got] == groups, "one row per group"
    for r in got:
        mine = [x for x in sel if x["g"] == r["g"]]
        assert r["n"] == len(mine), "group size"
        check_aggregate(agg, r["x"], [x["v"] for x in mine if x["v"] is not None], len(mine))
        check_aggregate(agg, r["y"], [x["v"] for x in mine if x["v"] is not None], len(mine))
@contract(P, {"rows": Custom("rows", lambda rng: [{"id": i, "g": rng.choice([1, 2]), "k": rng.choice(["p", "q", "r"]), "v": rng.choice([None, 0, 1, 6, 12, 255, True])} for i in range(rng.randint(1, 7))]), "op": Choice("and", "or", "xor")}, bounded_only=True, cases=120, bound="seeded tables of up to 7 rows, executed by the engine")
def bits_and_objects_in_a_query(rows, op):
    got = sqlrun.query("select g, group_bit_%s(v) as x, json_objectagg(k, v) as j from t group by g" % op, t=rows)
    for r in got:
        mine = [x for x in rows if x["g"] == r["g"]]
        acc, doc = None, {}
        for x in mine:
            doc[x["k"]] = x["v"]
            if x["v"] is not None: acc = x["v"] if acc is None else {"and": acc & x["v"], "or": acc | x["v"], "xor": acc ^ x["v"]}[op]
        assert r["x"] == acc, "bitwise fold of the non-NULL values"
        assert json.loads(r["j"]) == doc, "last value per key"
AROUND = ["-%s", "abs(-%s)", "~%s", "-%s + 1", "ifnull(-%s, 1)", "if(-%s < 0, 'n', 'p')", "(%s) * 2", "not %s", "%s is null", "%s between 1 and 6", "%s in (3, 6)", "case when -%s < -2 then 'a' else 'b' end", "concat('x', -%s)", "cast(%s as char)", "-%s * -count(*)", "adddate('2020-01-31', interval %s day)"]
@contract(P, {"rows": Custom("rows", lambda rng: [{"id": i, "g": rng.choice([1, 2]), "v": rng.choice([None, 1, 2, 3])} for i in range(rng.randint(1, 6))]), "around": Choice(*AROUND), "agg": Choice("sum(v)", "count(*)", "max(id)"), "grouped": Bool()}, bounded_only=True, cases=300, bound="seeded tables of up to 6 rows, executed by the engine")
def inside_an_expression(rows, around, agg, grouped):
    """an aggregate inside an expression is the aggregate of the group, then the expression"""
    by = " group by g" if grouped else ""
    if grouped:
        got = sqlrun.query("select g, %s as x from t%s" % (around % agg, by), t=rows)
        values = sqlrun.query("select g, %s as a, count(*) as n from t group by g" % agg, t=rows)
    else:
        got = sqlrun.query("select %s as x from t" % (around % agg), t=rows)
        values = sqlrun.query("select %s as a, count(*) as n from t" % agg, t=rows)
    assert len(got) == len(values), "one row per group"
    for r, v in zip(got, values):
        want = sqlrun.query("select %s as x from one" % (around % "a").replace("count(*)", "n"), one=[{"a": v["a"], "n": v["n"]}])[0]["x"]
        assert r["x"] == want, "the expression of the group's aggregate"
