"""Prover side of C13: a moment is its year, month and day, an opaque clock (time of day and zone) and the duration added to it."""
from proofs.common import *
from contracts import C13 as C
from pyvc.engine import SymMethod
from syncany.utils import parse_datetime, get_timezone
import datetime
ASSUMPTIONS = ["datetime.replace raises ValueError exactly when the year, month or day does not exist and otherwise changes only the given fields (Python)",
               "moment + timedelta is the moment exactly that much later, OverflowError outside years 1..9999; a date ignores what is below a day (Python)",
               "syncany.utils.parse_datetime is assumed as the meaning of a date text"]
def mlen(y, m): return z3.If(m == 2, z3.If(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))
def valid(y, m, d): return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= mlen(y, m))
def fits(eng, v, micros):
    """the moment that much later exists"""
    k = eng.uf("in_range", I, I, I, I, I, B)(v.y, v.m, v.d, v.clock, z3.simplify(micros))
    eng.axiom(("range", k.get_id()), lambda: z3.Implies(k, z3.And(micros < 400000000000000000, micros > -400000000000000000)))
    return k
class Delta(M.LazyInstance):
    def __init__(self, t): self.t = t
def delta(eng, a, k):
    us = {"weeks": 604800000000, "days": 86400000000, "hours": 3600000000, "minutes": 60000000, "seconds": 1000000, "milliseconds": 1000, "microseconds": 1}
    if a: k = dict(zip(("days", "seconds", "microseconds"), a), **k)
    t = z3.IntVal(0)
    for n, v in k.items():
        v = eng.resolve(v)
        if isinstance(v, (SFloat, float)): raise Unsupported("timedelta of a float")
        t = t + us[n] * int_of(v)
    t = z3.simplify(t)
    if eng.branch(z3.Or(t >= 86400000000 * 1000000000, t <= -86400000000 * 1000000000)): eng.raise_(OverflowError, "days")
    return Delta(t)
class Moment(M.LazyInstance):
    def __init__(self, y, m, d, clock, off, date): self.y, self.m, self.d, self.clock, self.off, self.date = y, m, d, clock, off, date
    def isinstance(self, eng, cls):
        if object in cls or datetime.date in cls: return True
        return datetime.datetime in cls and not self.date
    def eq(self, eng, o):
        if not isinstance(o, Moment): return False
        if self.date != o.date: return False
        return M.mkbool(z3.And(self.y == o.y, self.m == o.m, self.d == o.d, self.clock == o.clock, self.off == o.off))
    def truth(self, eng): return True
    def getattr(self, eng, name):
        if name in ("replace",): return SymMethod(self, name)
        if not z3.is_int_value(z3.simplify(self.off)) or z3.simplify(self.off).as_long(): raise Unsupported("field of a moved moment")
        if name in ("year", "month", "day"): return SInt({"year": self.y, "month": self.m, "day": self.d}[name])
        raise Unsupported("datetime." + name)
    def method(self, eng, name, args, kw):
        if args or set(kw) - {"year", "month", "day"}: raise Unsupported("replace")
        self.getattr(eng, "year")
        y, m, d = [z3.simplify(int_of(eng.resolve(kw[n]))) if n in kw else f for n, f in (("year", self.y), ("month", self.m), ("day", self.d))]
        if not eng.branch(valid(y, m, d)): eng.raise_(ValueError, "no such day")
        return Moment(y, m, d, self.clock, self.off, self.date)
    def binop(self, eng, op, o, reflected):
        if not isinstance(o, Delta) or op not in ("Add", "Sub") or reflected and op == "Sub": eng.raise_(TypeError, "operands")
        t = o.t if op == "Add" else -o.t
        if self.date: t = (t / 86400000000) * 86400000000 if op == "Add" else -((-t) / 86400000000) * 86400000000
        off = z3.simplify(self.off + t)
        if not eng.branch(fits(eng, self, off)): eng.raise_(OverflowError, "date value out of range")
        return Moment(self.y, self.m, self.d, self.clock, off, self.date)
    def concretize(self, eng, m):
        y, mo, d, c = [m.eval(x, model_completion=True).as_long() for x in (self.y, self.m, self.d, self.clock)]
        try: return datetime.date(y, mo, d) if self.date else datetime.datetime(y, mo, d, 23, 59, 58, 7)
        except Exception: return datetime.datetime(2024, 2, 29)
def moment(eng, name):
    y, m, d, c = [eng.fresh(name + "_" + x, I) for x in ("year", "month", "day", "clock")]
    eng.assume(valid(y, m, d)); eng.assume(c > 0)
    date = eng.branch(eng.fresh(name + "_is_date", B))
    return Moment(y, m, d, z3.IntVal(0) if date else c, z3.IntVal(0), date)
def build(eng, a, k):
    if len(a) != 3 or set(k) - {"tzinfo"}: raise Unsupported("datetime.datetime(...)")
    y, m, d = [z3.simplify(int_of(eng.resolve(x))) for x in a]
    if not eng.branch(valid(y, m, d)): eng.raise_(ValueError, "no such day")
    return Moment(y, m, d, z3.IntVal(-1 if k.get("tzinfo") == "the session's zone" else -2), z3.IntVal(0), False)
def shifted(eng, a, k): return a[0].binop(eng, "Add", Delta(z3.simplify(int_of(a[1]))), False)
def parsed(eng, a, k):
    s = a[0]
    if not isinstance(s, SStr) or not z3.is_const(s.t): raise Unsupported("parse_datetime of another text")
    y, m, d, c = [z3.Int("parsed_%s_%s" % (x, s.t)) for x in ("year", "month", "day", "clock")]
    eng.axiom(("parsed", s.t.get_id()), lambda: z3.And(valid(y, m, d), c > 0))
    return Moment(y, m, d, c, z3.IntVal(0), False)
SYMS = {"moment": moment, "amount": lambda eng, name: eng.sym("int", name), "moment_text": lambda eng, name: eng.sym("str", name)}
SUMMARIES = {datetime.timedelta: delta, datetime.datetime: build, C.shifted: shifted, C.in_range: lambda eng, a, k: M.mkbool(fits(eng, a[0], z3.simplify(int_of(a[1])) if not a[0].date else z3.simplify((int_of(a[1]) / 86400000000) * 86400000000))),
             C.is_date: lambda eng, a, k: a[0].date, parse_datetime: parsed, get_timezone: lambda eng, a, k: "the session's zone"}
