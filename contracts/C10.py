"""C10  Ranking and offset window functions follow the ordered partition."""
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters import CALCULATERS
from syncany.valuers.partition import OrderPartitionCalculaterContext

P = "C10"
T = "syncanysql/calculaters/window_calculater.py:WindowAggregate"

class Win:
    """an ordered partition as one window column sees it"""
    def __init__(self, orders, values, places): self.orders, self.values, self.places = orders, values, places
    def __repr__(self): return "Win(orders=%r, values=%r, place of the column among the row's window columns=%r)" % (self.orders, self.values, self.places)
class Column:
    def __init__(self, valuer_id): self.valuer_id = valuer_id
class Cell:
    def __init__(self, value, column): self.value, self.calculate_valuer = value, column

def size(win): 
    """SPEC: number of rows of the partition"""
    return len(win.orders)
def value_at(win, j):
    """SPEC: value of the window function's first argument in row j"""
    return win.values[j]
def order_at(win, j):
    """SPEC: ORDER BY value of row j"""
    return win.orders[j]
def context(win, args):
    """SPEC: the library's context of this window column; with several arguments a cell holds their list"""
    mine, other = Column(77), [Column(5), Column(6)]
    c = OrderPartitionCalculaterContext()
    c.datas = []
    for o, v, p in zip(win.orders, win.values, win.places):
        cells = [Cell(["other"], other[0]), Cell("other2", other[1])]
        cells.insert(p, Cell([v] + list(args) if args else v, mine))
        c.datas.append((o, {}, cells))
    return c
def visit(win, c, i):
    """SPEC: the library moves the context to row i"""
    c.update(i, c.datas[i][2][win.places[i]])

def function(name): return CALCULATERS[name].instance(name + "::order_aggregate")
def cell(win, i, args): return [value_at(win, i)] + list(args) if args else value_at(win, i)
def at(name, win, i, args):
    c = context(win, args)
    visit(win, c, i)
    return function(name).calculate(None, cell(win, i, args), c)

def win_gen(rng, distinct=False):
    n = rng.randint(1, 9)
    pool = rng.choice([[1, 2, 3], list(range(20)), ["a", "b", "c"], [None, 1], [1.5, 2, 2.0, True]])
    orders = sorted((rng.choice(pool) for _ in range(n)), key=repr)
    if distinct: orders = list(range(n))
    return Win(orders, [rng.choice([None, 0, 1, "x", "y", 2.5]) for _ in range(n)], [rng.randint(0, 2) for _ in range(n)])
WIN = Custom("win", win_gen)
IDX = Int(0, 8)

@contract(P, {"win": WIN, "i": IDX, "state": Any}, targets=[T + "RowNumberCalculater.order_aggregate"])
def row_number(win, i, state):
    assume(i < size(win))
    c = context(win, ())
    visit(win, c, i)
    assert function("row_number").calculate(state, value_at(win, i), c) == i + 1, "rows are numbered 1..n in order"

@contract(P, {"win": Custom("win", lambda rng: win_gen(rng, True)), "f": Choice("rank", "dense_rank")}, split="f",
          targets=[T + n for n in ("RankCalculater.order_aggregate", "RankCalculater.final_value", "DenseRankCalculater.order_aggregate", "DenseRankCalculater.final_value")])
def rank_of_distinct_rows(win, f):
    step, final = function(f), CALCULATERS[f].instance(f + "::final_value")
    c = context(win, ())
    state = None
    for i in range(size(win)):
        if i > 0: assume(order_at(win, i) != order_at(win, 0))
        visit(win, c, i)
        state = step.calculate(state, value_at(win, i), c)
        assert final.calculate(state) == i + 1, "without ties the rank is one plus the number of preceding rows"

@contract(P, {"win": WIN, "f": Choice("rank", "dense_rank")}, split="f",
          targets=[T + n for n in ("RankCalculater.order_aggregate", "RankCalculater.final_value", "DenseRankCalculater.order_aggregate", "DenseRankCalculater.final_value")])
def rank_within_the_first_peer_group(win, f):
    step, final = function(f), CALCULATERS[f].instance(f + "::final_value")
    c = context(win, ())
    state = None
    for i in range(size(win)):
        assume(order_at(win, i) == order_at(win, 0))
        visit(win, c, i)
        state = step.calculate(state, value_at(win, i), c)
        assert final.calculate(state) == 1, "rows equal to the first row share rank 1"

def pinned_rank(orders): 
    """what both functions compute today: one plus the number of rows so far that differ from the first"""
    return [1 + sum(1 for o in orders[:i + 1] if o != orders[0]) for i in range(len(orders))]
def ranks(f, win):
    step, final = function(f), CALCULATERS[f].instance(f + "::final_value")
    c, state, out = context(win, ()), None, []
    for i in range(size(win)):
        visit(win, c, i)
        state = step.calculate(state, value_at(win, i), c)
        out.append(final.calculate(state))
    return out
def known_rank(args, msg):
    win, f = args
    try: return "rank-ties" if ranks(f, win) == pinned_rank(win.orders) else None
    except Exception: return None
@contract(P, {"win": WIN, "f": Choice("rank", "dense_rank")}, bounded_only=True, bound="seeded partitions of up to 9 rows with ties", known=known_rank)
def rank_with_ties(win, f):
    got, orders = ranks(f, win), win.orders
    for i in range(len(orders)):
        before = [o for o in orders[:i] if o != orders[i]]
        distinct = [o for k, o in enumerate(before) if o not in before[:k]]
        assert got[i] == 1 + len(before if f == "rank" else distinct), "one plus the rows (or distinct values) strictly before the peer group"

NOLIST = Kind("none", "bool", "int", "float", "dec", "str", "datetime", "date", "time")
@contract(P, {"win": WIN, "i": IDX, "f": Choice("first_value", "last_value")}, split="f", targets=[T + "FirstValueCalculater.order_aggregate", T + "LastValueCalculater.order_aggregate"])
def first_and_last_value(win, i, f):
    assume(i < size(win))
    assert same(at(f, win, i, ()), value_at(win, 0 if f == "first_value" else size(win) - 1)), "value of the first (last) row of the partition"

@contract(P, {"win": WIN, "i": IDX, "f": Choice("lag", "lead")}, split="f", targets=[T + "LagCalculater.order_aggregate", T + "LeadCalculater.order_aggregate"])
def neighbour_value(win, i, f):
    assume(i < size(win))
    j = i - 1 if f == "lag" else i + 1
    r = at(f, win, i, ())
    if 0 <= j < size(win): assert same(r, value_at(win, j)), "value of the row before (after)"
    else: assert r is None, "NULL outside the partition"

@contract(P, {"win": WIN, "i": IDX, "f": Choice("lag", "lead"), "k": Int(), "default": Any, "n": Choice(1, 2, 3)}, split="f", weight=2, targets=[T + "LagCalculater.order_aggregate", T + "LeadCalculater.order_aggregate"])
def offset_value(win, i, f, k, default, n):
    """with offset and default; a single argument may reach the function as a list of one"""
    assume(i < size(win))
    args = (k, default)[:n - 1]
    if n == 1:
        c = context(win, ())
        visit(win, c, i)
        assume(not isinstance(value_at(win, i), list))
    j = (i - (1 if n == 1 else k)) if f == "lag" else (i + (1 if n == 1 else k))
    r = at(f, win, i, args)
    if 0 <= j < size(win): assert same(r, value_at(win, j)), "value of the row that many rows before (after)"
    else: assert same(r, default if n == 3 else None), "the default (else NULL) outside the partition"

@contract(P, {"win": WIN, "i": IDX, "k": Int(), "default": Any, "n": Choice(1, 2, 3)}, split="n", targets=[T + "NthValueCalculater.order_aggregate"])
def nth_value(win, i, k, default, n):
    assume(i < size(win) and k != 0)
    r = at("nth_value", win, i, (k, default)[:n - 1])
    if n == 1: k = 1
    j = k - 1 if k > 0 else size(win) + k
    if 0 <= j < size(win): assert same(r, value_at(win, j)), "value of the n-th row (from the end for negative n)"
    else: assert same(r, default if n == 3 else None), "the default (else NULL) outside the partition"

@contract(P, {"win": WIN, "i": IDX, "n": Int(-2, 14), "form": Choice("number", "text", "list")}, targets=[T + "NtileCalculater.order_aggregate"])
def ntile(win, i, n, form):
    assume(i < size(win))
    f, c = function("ntile"), context(win, ())
    v = n if form == "number" else (str(n) if form == "text" else [n])
    visit(win, c, i)
    r = f.calculate(None, v, c)
    if n <= 0: assert r is None, "NULL for n <= 0"
    else:
        assert isinstance(r, int) and 1 <= r and r <= n, "a bucket in 1..n"
        if i + 1 < size(win):
            visit(win, c, i + 1)
            s = f.calculate(None, v, c)
            assert s >= r, "never decreases along the partition"
            assert s <= r + (1 if size(win) >= n else n), "no bucket is left out when there are enough rows"

# ---- the same through queries: partitioning, ordering and argument passing by the compiler
def rows_gen(rng):
    n = rng.randint(1, 8)
    ks = rng.sample(range(-20, 20), n)
    return [{"id": i, "g": rng.choice([1, 2, None, "a"]), "k": ks[i], "h": rng.choice([1, 2, 3]), "v": rng.choice([None, 1, 2, "x", 2.5])} for i in range(n)]
CALLS = ["row_number()", "rank()", "dense_rank()", "lag(v)", "lead(v)", "lag(v, 2)", "lead(v, 2, 'z')", "lag(v, 1, id)", "first_value(v)", "last_value(v)", "nth_value(v, 2)", "nth_value(v, 3, 'q')", "ntile(2)", "ntile(3)", "lead(v, 0)"]
def expected(call, part, i):
    n, name = len(part), call.split("(")[0]
    a = [x.strip() for x in call.split("(")[1].rstrip(")").split(",")]
    val = lambda j, d=None: part[j]["v"] if 0 <= j < n else d
    if name in ("row_number", "rank", "dense_rank"): return i + 1
    d = None if len(a) < 3 else (part[i]["id"] if a[2] == "id" else a[2].strip("'"))
    if name == "lag": return val(i - (int(a[1]) if len(a) > 1 else 1), d)
    if name == "lead": return val(i + (int(a[1]) if len(a) > 1 else 1), d)
    if name == "first_value": return val(0)
    if name == "last_value": return val(n - 1)
    if name == "nth_value": return val(int(a[1]) - 1, d)
    return None
@contract(P, {"rows": Custom("rows", rows_gen), "call": Choice(*CALLS), "part": Choice("", "partition by g ", "partition by g, h "), "desc": Bool()}, bounded_only=True, cases=900,
          bound="seeded tables of up to 8 rows with distinct ORDER BY values, 1 or 2 window columns, executed by the engine")
def in_a_query(rows, call, part, desc):
    d = " desc" if desc else ""
    got = sqlrun.query("select id, %s over(%sorder by k%s) w, row_number() over(%sorder by k%s) rn, ntile(2) over(%sorder by k%s) nt from t" % (call, part, d, part, d, part, d), t=rows)
    assert [r["id"] for r in got] == [r["id"] for r in rows], "every row once"
    byid = {r["id"]: r for r in got}
    key = lambda r: (r["g"] if part else 0, r["h"] if "h" in part else 0)
    for r in rows:
        p = sorted((x for x in rows if key(x) == key(r)), key=lambda x: x["k"], reverse=desc)
        i = p.index(r)
        assert byid[r["id"]]["rn"] == i + 1, "row number in the ordered partition"
        w = byid[r["id"]]["w"]
        if "ntile" in call:
            m = int(call[6])
            assert 1 <= w <= m, "a bucket in 1..n"
            if i: assert byid[p[i - 1]["id"]]["w"] <= w, "never decreases"
        else: assert same(w, expected(call, p, i)), "value of the addressed row"

def known_list(args, msg): return "window-list-value"
@contract(P, {"n": Int(1, 4), "f": Choice("lag", "lead", "nth_value")}, bounded_only=True, bound="partitions of 1..4 rows whose argument is a list", known=known_list)
def single_argument_that_is_a_list(n, f):
    win = Win(list(range(n)), [[j, j] for j in range(n)], [0] * n)
    for i in range(n):
        j = {"lag": i - 1, "lead": i + 1, "nth_value": 0}[f]
        r = at(f, win, i, ())
        assert r == ([j, j] if 0 <= j < n else None), "the whole list of the addressed row"
