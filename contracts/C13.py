"""C13  Adding and subtracting date intervals is calendar correct."""
import datetime, calendar
from pyvc.api import *
from contracts import sqlrun
from syncany.utils import parse_datetime, get_timezone
from syncanysql.calculaters.mysql_funcs import datetime_funcs as DF

P = "C13"
F = "syncanysql/calculaters/mysql_funcs/datetime_funcs.py:"
MONTHS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
MICROS = {"WEEK": 604800000000, "DAY": 86400000000, "HOUR": 3600000000, "MINUTE": 60000000, "SECOND": 1000000, "MICROSECOND": 1}
def month_length(year, month):
    if month == 2: return 29 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 28
    return 30 if month == 4 or month == 6 or month == 9 or month == 11 else 31
def months_away(dt, months):
    """the moment that many calendar months later: same clock, same day of month or that month's last day"""
    total = dt.year * 12 + dt.month - 1 + months
    year, month = total // 12, total % 12 + 1
    assume(year >= 1 and year <= 9999)
    last = month_length(year, month)
    return dt.replace(year=year, month=month, day=dt.day if dt.day <= last else last)
def shifted(dt, micros):
    """SPEC: the moment exactly that much later"""
    return dt + datetime.timedelta(microseconds=micros)
def in_range(dt, micros):
    """SPEC: the moment that much later lies in years 1..9999"""
    try: dt + datetime.timedelta(microseconds=micros)
    except OverflowError: return False
    return True
def is_date(dt):
    """SPEC: a date without a time of day"""
    return not isinstance(dt, datetime.datetime)
def at_midnight(d): return datetime.datetime(d.year, d.month, d.day, tzinfo=get_timezone())
def moved(dt, unit, n):
    if unit in MONTHS: return months_away(dt, n * MONTHS[unit])
    if is_date(dt) and unit != "WEEK" and unit != "DAY": dt = at_midnight(dt)
    assume(in_range(dt, n * MICROS[unit]))
    return shifted(dt, n * MICROS[unit])

def moment(rng):
    y = rng.choice([1, 2, 1900, 1999, 2000, 2020, 2023, 2024, 2100, 9998, 9999, rng.randint(1, 9999)])
    m = rng.choice([1, 2, 2, 3, 11, 12, rng.randint(1, 12)])
    d = rng.choice([1, 28, calendar.monthrange(y, m)[1], rng.randint(1, 28), max(1, calendar.monthrange(y, m)[1] - 1)])
    if rng.random() < 0.2: return datetime.date(y, m, d)
    return datetime.datetime(y, m, d, rng.choice([0, 12, 23, rng.randint(0, 23)]), rng.choice([0, 59]), rng.choice([0, 59]), rng.choice([0, 999999, rng.randint(0, 999999)]), tzinfo=rng.choice([None, datetime.timezone.utc]))
def amount(rng): return rng.choice([0, 1, -1, 2, 3, 11, 12, 13, -11, -12, -13, 24, 36, 100, -100, rng.randint(-50, 50), rng.randint(-10**5, 10**5), rng.randint(-10**9, 10**9)])
Moment = lambda: Custom("moment", moment)
Amount = lambda: Custom("amount", amount, lambda: [0, 1, -1, 12, -12, 13])
Unit = lambda: Choice(*MONTHS, *MICROS)
FNS = {"adddate": 1, "dateadd": 1, "addtime": 1, "datesub": -1, "subdate": -1, "subtime": -1}
def function(name): return getattr(DF, "mysql_" + name)

@contract(P, {"dt": Moment(), "unit": Unit(), "n": Amount(), "sub": Bool()}, split="unit", targets=[F + "calculate_datetime"], cases=20000)
def interval(dt, unit, n, sub):
    want = moved(dt, unit, -n if sub else n)
    got = outcome(DF.calculate_datetime, dt, {"unit": unit, "value": n}, sub)
    assert got[0] == "ok" and got[1] is not None, "never NULL while the result lies in the supported years"
    assert got[1] == want and is_date(got[1]) == is_date(want), "the calendar month that many months away, or exactly that duration"

@contract(P, {"dt": Moment(), "unit": Unit(), "n": Amount(), "name": Choice(*FNS), "upper": Bool()}, split="name", targets=[F + "mysql_" + n for n in FNS] + [F + "calculate_datetime"], cases=6000)
def functions(dt, unit, n, name, upper):
    want = moved(dt, unit, n * FNS[name])
    got = outcome(function(name), dt, {"unit": unit if upper else unit.lower(), "value": n})
    assert got[0] == "ok" and got[1] == want and is_date(got[1]) == is_date(want), "the function moves the moment by the interval"
@contract(P, {"dt": Moment(), "n": Amount(), "name": Choice(*FNS)}, targets=[F + "mysql_" + n for n in FNS], cases=6000)
def plain_number(dt, n, name):
    want = moved(dt, "DAY", n * FNS[name])
    got = outcome(function(name), dt, n)
    assert got[0] == "ok" and got[1] == want, "a plain number counts days"
def date_text(rng): return str(moment(rng))[:26].replace("+00:00", "")
@contract(P, {"text": Custom("moment_text", date_text), "unit": Unit(), "n": Amount(), "name": Choice(*FNS)}, targets=[F + "mysql_" + n for n in FNS], cases=3000)
def text_moment(text, unit, n, name):
    dt = parse_datetime(text, None, get_timezone())
    want = moved(dt, unit, n * FNS[name])
    got = outcome(function(name), text, {"unit": unit, "value": n})
    assert got[0] == "ok" and got[1] == want, "a text counts as the moment it denotes"
@contract(P, {"name": Choice(*FNS), "unit": Unit(), "n": Amount()}, targets=[F + "mysql_" + n for n in FNS])
def null_moment(name, unit, n): assert function(name)(None, {"unit": unit, "value": n}) is None and function(name)(None, n) is None, "NULL stays NULL"

# ---- bounded
def clock(rng):
    h, m, s = rng.randint(0, 30), rng.randint(0, 59), rng.randint(0, 59)
    f = rng.choice(["", "", "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 6)))])
    return (rng.choice(["%d:%d:%d", "%02d:%02d:%02d"]) % (h, m, s) + f, ((h * 60 + m) * 60 + s) * 1000000 + int((f[1:] + "000000")[:6] if f else 0))
@contract(P, {"dt": Moment(), "c": Custom("clock", clock), "name": Choice(*FNS), "days": Int(0, 40)}, bounded_only=True, cases=6000, targets=[F + "calculate_datetime"], bound="seeded '[days ]h:m:s[.f]' texts")
def clock_text(dt, c, name, days):
    text, micros = c
    if days % 2: text, micros = "%d %s" % (days, text), micros + days * MICROS["DAY"]
    base = at_midnight(dt) if is_date(dt) else dt
    assume(in_range(base, FNS[name] * micros))
    got = function(name)(dt, text)
    if is_date(got): got = at_midnight(got)
    assert got == shifted(base, FNS[name] * micros), "a clock text shifts by exactly that duration"
@contract(P, {"dt": Custom("naive", lambda rng: moment(rng)), "unit": Unit(), "n": Amount(), "form": Choice("number", "text", "column", "expression", "parameter", "subquery", "aggregate", "unary"), "op": Choice("fn", "+", "where", "join")},
          bounded_only=True, cases=1000, targets=["syncanysql/compiler.py:Compiler.compile_calculate", "syncanysql/compiler.py:Compiler.parse_calculate"], bound="seeded moments and amounts through SQL")
def through_sql(dt, unit, n, form, op):
    n = max(-10**6, min(10**6, n))
    base = parse_datetime(str(dt)[:26].replace("+00:00", ""), None, get_timezone())
    want = moved(base, unit, n)
    e = sqlrun.engine(); e.executor.env_variables["@pyvc_n"] = n
    amount = {"number": "%d" % n, "text": "'%d'" % n, "column": "n", "expression": "(n + 1 - 1)", "parameter": "@pyvc_n", "subquery": "(select max(n) as m from t)", "aggregate": "max(n)", "unary": "-m"}[form]
    text = "'%s'" % str(dt)[:26].replace("+00:00", "")
    moved_to = ("date_add(%s, interval %s %s)" if op != "+" else "%s + interval %s %s") % (text, amount, unit)
    rows = [{"id": 1, "n": n, "m": -n}]
    if op == "where" and form not in ("aggregate", "subquery"):
        got = sqlrun.query("select id from t where %s = date_add('%s', 0)" % (moved_to, str(want)[:26]), t=rows)
        assert got == [{"id": 1}], "the moved moment can be compared with its text"
        return
    if op == "join" and form in ("column", "unary", "number"):
        got = sqlrun.query("select a.id as id, %s as v from t a join t b on a.id = b.id" % moved_to.replace(" n ", " b.n ").replace("-m ", "-b.m "), t=rows)
    else: got = sqlrun.query("select %s as v from t" % moved_to, t=rows)
    assert len(got) == 1 and got[0]["v"] == want, "the interval expression moves the moment"
