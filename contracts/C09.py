"""C09  Merging partial aggregates equals aggregating everything at once."""
import os, tempfile, shutil, json
from pyvc.api import *
from contracts import sqlrun
from contracts.common import integer
from contracts.C08 import step, reduce, final, close, targets, pair, same_entry, json_text, comparable, pairs_gen, SC, NUMS, elements, check_aggregate, key_text

P = "C09"
def merge(f, left, right):
    """partial states of two consecutive batches, merged in order into an empty accumulator"""
    return reduce(f, reduce(f, None, left), right)
def first_batch(f, rows, left, whole):
    for v in rows: left, whole = step(f, left, v), step(f, whole, v)
    return left, whole
def second_batch(f, rows, left, right, whole):
    for v in rows: right, whole = step(f, right, v), step(f, whole, v)
    return right, whole
def run_batches(f, first, second):
    left, whole = first_batch(f, first, None, None)
    right, whole = second_batch(f, second, left, None, whole)
    assert reduce(f, None, None) is None, "merging two empty batches stays empty"
    return merge(f, left, right), whole

@contract(P, {"first": Seq(), "second": Seq()}, targets=targets("Count"))
def count(first, second):
    merged, whole = run_batches("aggregate_count", first, second)
    assert merged == whole, "same count"
@contract(P, {"first": Seq(*SC), "second": Seq(*SC), "f": Choice("aggregate_distinct_count", "group_uniq_array")}, split="f", targets=targets("DistinctCount", "GroupUniqArray"))
def distinct(first, second, f):
    merged, whole = run_batches(f, first, second)
    assert merged == whole, "same distinct values"
    x, y = final(f, merged), final(f, whole)
    if f == "group_uniq_array": assert len(x) == len(y) and elements(x) == elements(y), "same final values"
    else: assert x == y, "same final value"
@contract(P, {"first": Seq(*SC), "second": Seq(*SC)}, targets=targets("Sum"))
def sums(first, second):
    merged, whole = run_batches("aggregate_sum", first, second)
    if whole is None: assert merged is None, "nothing to sum"
    else: assert close(merged, whole), "same sum"
@contract(P, {"first": Seq(*SC), "second": Seq(*SC)}, targets=targets("Avg"), weight=2)
def averages(first, second):
    merged, whole = run_batches("aggregate_avg", first, second)
    if whole is None: assert merged is None, "nothing to average"
    else:
        assert merged is not None and merged["count_value"] == whole["count_value"], "same number of values"
        assert close(merged["sum_value"], whole["sum_value"]), "same sum"
    assert close(final("aggregate_avg", merged), final("aggregate_avg", whole)), "same mean"

def extreme(first, second, f):
    left = right = whole = None
    for v in first:
        if v is not None and whole is not None: assume(comparable(v, whole))
        left, whole = step(f, left, v), step(f, whole, v)
    for v in second:
        if v is not None and whole is not None: assume(comparable(v, whole))
        if v is not None and right is not None: assume(comparable(v, right))
        right, whole = step(f, right, v), step(f, whole, v)
    if left is not None and right is not None: assume(comparable(left, right))
    assert merge(f, left, right) == whole, "same extreme"
EX = targets("Max", "Min")
WHICH = Choice("aggregate_max", "aggregate_min")
@contract(P, {"first": Seq(*NUMS), "second": Seq(*NUMS), "f": WHICH}, split="f", targets=EX)
def extreme_number(first, second, f): extreme(first, second, f)
@contract(P, {"first": Seq("none", "str"), "second": Seq("none", "str"), "f": WHICH}, split="f", targets=EX)
def extreme_text(first, second, f): extreme(first, second, f)
@contract(P, {"first": Seq("none", "datetime"), "second": Seq("none", "datetime"), "f": WHICH}, split="f", targets=EX)
def extreme_datetime(first, second, f): extreme(first, second, f)
@contract(P, {"first": Seq("none", "date"), "second": Seq("none", "date"), "f": WHICH}, split="f", targets=EX)
def extreme_date(first, second, f): extreme(first, second, f)
@contract(P, {"first": Seq("none", "time"), "second": Seq("none", "time"), "f": WHICH}, split="f", targets=EX)
def extreme_time(first, second, f): extreme(first, second, f)

def bit_batches(f, first, second):
    left = right = whole = None
    for v in first:
        if v is not None: assume(outcome(integer, v)[0] == "ok")
        left, whole = step(f, left, v), step(f, whole, v)
    for v in second:
        if v is not None: assume(outcome(integer, v)[0] == "ok")
        right, whole = step(f, right, v), step(f, whole, v)
    return merge(f, left, right), whole
INTS = ("none", "bool", "int", "float", "dec", "str")
@contract(P, {"first": Seq(*INTS), "second": Seq(*INTS), "op": Choice("and", "or", "xor")}, split="op", targets=targets("GroupBitAnd", "GroupBitOr", "GroupBitXor"))
def bits(first, second, op):
    merged, whole = bit_batches("group_bit_" + op, first, second)
    assert merged == whole, "same bits"

@contract(P, {"first": Seq(*SC), "second": Seq(*SC), "f": Choice("group_array", "json_arrayagg", "group_concat")}, split="f", targets=targets("GroupConcat", "GroupArray", "JsonArrayagg"))
def lists(first, second, f):
    merged, whole = run_batches(f, first, second)
    if whole is None: assert merged is None, "nothing collected"
    else: assert merged == whole, "same values in the same order"
    assert final(f, merged) == final(f, whole), "same final value"

@contract(P, {"first": Custom("pairs", pairs_gen), "second": Custom("more_pairs", pairs_gen)}, targets=targets("JsonObjectagg"))
def objects(first, second):
    f = "json_objectagg"
    left = right = whole = None
    for p in first: left, whole = step(f, left, [pair(p, 0), pair(p, 1)]), step(f, whole, [pair(p, 0), pair(p, 1)])
    for p in second: right, whole = step(f, right, [pair(p, 0), pair(p, 1)]), step(f, whole, [pair(p, 0), pair(p, 1)])
    merged = merge(f, left, right)
    if whole is None: assert merged is None, "no pairs"
    else: assert merged is not None and same_entry(merged, whole), "same object"

# ---- batching in the engine
def batch_gen(rng):
    pool = rng.choice([[None, 1, 2, 3], [0, 5, -4, 2.5, 7], ["a", "b", None], ["3", 2, None], [None, None, None, 4], [True, 2, 3]])
    return [{"id": i, "g": rng.choice([1, 2, 3]), "k": rng.choice(["p", "q", "r"]), "v": rng.choice(pool)} for i in range(rng.randint(1, 9))]
AGGS = ("count(v)", "count(*)", "count(distinct v)", "sum(v)", "avg(v)", "max(v)", "min(v)", "group_concat(v)", "group_array(v)", "group_uniq_array(v)", "json_arrayagg(v)")
def batched(rows, sql, batch):
    d = tempfile.mkdtemp(prefix="pyvcC09")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with open("t.json", "w") as fp: json.dump(rows, fp)
        sqlrun.engine().execute("set @batch=%d;" % batch)
        try: return sqlrun.query(sql.replace(" from t", " from `file://./t.json`"))
        finally: sqlrun.engine().execute("set @batch=0;")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
@contract(P, {"rows": Custom("rows", batch_gen), "agg": Choice(*AGGS), "batch": Choice(1, 2, 3), "where": Choice("", " where id > 1")}, bounded_only=True, cases=250, bound="seeded tables of up to 9 rows read in batches of 1 to 3 rows, executed by the engine")
def in_a_query(rows, agg, batch, where):
    sel = [r for r in rows if not where or r["id"] > 1]
    vs = [r["v"] for r in sel if r["v"] is not None]
    if agg in ("max(v)", "min(v)"): assume(len({isinstance(x, str) for x in vs}) <= 1)
    got = batched(rows, "select g, %s as x, count(*) as n from t%s group by g" % (agg, where), batch)
    groups = []
    for r in sel:
        if r["g"] not in groups: groups.append(r["g"])
    assert sorted(r["g"] for r in got) == sorted(groups), "one row per group"
    for r in got:
        mine = [x for x in sel if x["g"] == r["g"]]
        assert r["n"] == len(mine), "group size"
        check_aggregate(agg, r["x"], [x["v"] for x in mine if x["v"] is not None], len(mine))
@contract(P, {"rows": Custom("rows", lambda rng: [{"id": i, "g": rng.choice([1, 2]), "k": rng.choice(["p", "q", "r"]), "v": rng.choice([None, 0, 1, 6, 12, 255])} for i in range(rng.randint(1, 9))]), "op": Choice("and", "or", "xor"), "batch": Choice(1, 2, 3)}, bounded_only=True, cases=120, bound="seeded tables of up to 9 rows read in batches of 1 to 3 rows, executed by the engine")
def bits_and_objects_in_a_query(rows, op, batch):
    got = batched(rows, "select g, group_bit_%s(v) as x, json_objectagg(k, v) as j from t group by g" % op, batch)
    assert sorted(r["g"] for r in got) == sorted({r["g"] for r in rows}), "one row per group"
    for r in got:
        mine = [x for x in rows if x["g"] == r["g"]]
        acc, doc = None, {}
        for x in mine:
            doc[x["k"]] = x["v"]
            if x["v"] is not None: acc = x["v"] if acc is None else {"and": acc & x["v"], "or": acc | x["v"], "xor": acc ^ x["v"]}[op]
        assert r["x"] == acc, "bitwise fold of the non-NULL values"
        assert json.loads(r["j"]) == doc, "last value per key"
