"""C22  Row numbering and previous-row functions see each row once, in order."""
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters.row_calculater import RowIndexCalculater, RowLastCalculater
from syncanysql.calculaters import CALCULATERS

P = "C22"
T = "syncanysql/calculaters/row_calculater.py:"

@contract(P, {"rows": Seq(), "extra": Any, "two": Bool()}, targets=[T + "RowIndexCalculater.calculate", T + "RowIndexCalculater.instance", T + "RowIndexCalculater.__init__"])
def index_counts_every_row(rows, extra, two):
    column = CALCULATERS["row_index"].instance("row_index")
    other = CALCULATERS["row_index"].instance("row_index")
    assert column is not other, "every use has its own counter"
    n = 0
    for row in rows:
        other.calculate(extra)
        n += 1
        r = column.calculate(row, extra) if two else column.calculate(row)
        assert r == n, "row k of a column is numbered k whatever other columns do"
    other = CALCULATERS["row_index"].instance("row_index")
    assert other.calculate() == 1, "a new use starts again at 1"
    assert column.calculate() == n + 1, "and does not disturb the others"

@contract(P, {"rows": Seq(), "others": Any}, targets=[T + "RowLastCalculater.calculate", T + "RowLastCalculater.instance", T + "RowLastCalculater.__init__"])
def last_returns_the_preceding_value(rows, others):
    column = CALCULATERS["row_last"].instance("row_last")
    other = CALCULATERS["row_last"].instance("row_last")
    assert column is not other, "every use has its own state"
    previous = None
    for row in rows:
        other.calculate(others)
        r = column.calculate(row)
        assert same(r, previous), "the value given for the preceding row, NULL for the first"
        previous = row
    other = CALCULATERS["row_last"].instance("row_last")
    assert other.calculate(others) is None, "a new use starts with NULL"
    assert same(column.calculate(None), previous), "and does not disturb the others"

@contract(P, {"x": Any, "y": Any, "u": Any, "v": Any}, targets=[T + "RowLastCalculater.calculate"])
def last_of_several_values(x, y, u, v):
    column = RowLastCalculater.instance("row_last")
    assert column.calculate(x, y) is None, "NULL for the first row"
    r = column.calculate(u, v)
    assert isinstance(r, tuple) and len(r) == 2, "the record of the preceding row's values"
    assert same(r[0], x) and same(r[1], y), "values of the preceding row in order"
    assert same(column.calculate()[1], v), "and so on"

ROWS = Custom("rows", lambda rng: [{"id": i, "v": rng.choice([None, 0, 1, "a", 2.5]), "g": rng.choice([1, 2, 3])} for i in range(rng.randint(0, 6))])
@contract(P, {"rows": ROWS, "cond": Choice("", " where g > 1", " where v = 1")}, bounded_only=True, bound="seeded random tables of up to 6 rows, executed by the engine", cases=150)
def columns_of_a_query(rows, cond):
    got = sqlrun.query("select id, row_index() n, row_last(v) l, row_index() m, row_last(id, v) k from t" + cond, t=rows)
    prev = None
    sel = [r for r in rows if cond == "" or (r["g"] > 1 if "g" in cond else r["v"] == 1 and not isinstance(r["v"], str))]
    assert [r["id"] for r in got] == [r["id"] for r in sel], "every row once"
    for i, r in enumerate(got):
        assert r["n"] == i + 1 and r["m"] == i + 1, "numbered from 1 in order"
        assert same(r["l"], None if prev is None else prev["v"]), "preceding value"
        assert r["k"] is None if prev is None else tuple(r["k"]) == (prev["id"], prev["v"]), "preceding record"
        prev = sel[i]
