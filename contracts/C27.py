"""C27  An expression has the value its structure denotes, on every row and wherever it is written."""
import random, re
from pyvc.api import *
from contracts import sqlrun

P = "C27"
F = "syncanysql/compiler.py:Compiler."

# ---- whole statements; an expression is (text, value of a row, level of its outermost operator)
def tri(x): return None if x is None else (1 if x else 0)
def true(x): return x is not None and x != 0
class Gen(object):
    """random expressions over a table's columns, with prefix p before the names of columns"""
    def __init__(self, rng, p): self.rng, self.p = rng, p
    def wrap(self, e, level): return e[0] if e[2] > level else "(%s)" % e[0]
    def leaf(self):
        rng = self.rng; k = rng.random()
        if k < .62:
            c = rng.choice(["v", "g", "id"]); return self.p + c, lambda t: t[c], 9
        if k < .9:
            n = rng.choice([0, 1, 2, 3, 7]); return str(n), lambda t: n, 9
        if k < .96: return "null", lambda t: None, 9
        return "@pyvc_two", lambda t: 2, 9
    def number(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < .1: return self.leaf()
        k = rng.choice(["+", "-", "*", "+", "-", "*", "neg", "if", "ifnull", "coalesce", "case", "cases", "simple", "simple", "paren", "cond", "greatest", "abs", "pow", "length", "half", "bits", "if2"])
        if k in "+-*":
            level = 5 if k in "+-" else 6
            a, b = self.number(d - 1), self.number(d - 1)
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[k]
            def value(t, a=a, b=b):
                x, y = a[1](t), b[1](t)
                return None if x is None or y is None else f(x, y)
            return "%s %s %s" % (self.wrap(a, level - 1), k, self.wrap(b, level)), value, level
        if k == "neg":
            a = self.number(d - 1)
            if not a[0].replace(".", "").isalnum() or a[0] == "null": a = ("(%s)" % a[0], a[1], 9)
            return "-%s" % a[0], lambda t: None if a[1](t) is None else -a[1](t), 7
        if k == "paren":
            a = self.number(d - 1); return "(%s)" % a[0], a[1], 9
        if k == "if":
            c, a, b = self.condition(d - 1), self.number(d - 1), self.number(d - 1)
            return "if(%s, %s, %s)" % (c[0], a[0], b[0]), lambda t: a[1](t) if true(c[1](t)) else b[1](t), 9
        if k == "ifnull":
            a, b = self.number(d - 1), self.number(d - 1)
            return "ifnull(%s, %s)" % (a[0], b[0]), lambda t: b[1](t) if a[1](t) is None else a[1](t), 9
        if k == "coalesce":
            parts = [("null", lambda t: None, 9) if rng.random() < .25 else self.number(d - 1) for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 6]))]
            return "coalesce(%s)" % ", ".join(x[0] for x in parts), lambda t: ([v for v in (x[1](t) for x in parts) if v is not None] + [None])[0], 9
        if k == "cond":
            c = self.condition(d - 1); return "(%s)" % c[0], c[1], 9
        if k == "greatest":
            a, b = self.number(d - 1), self.number(d - 1)
            return "greatest(%s, %s)" % (a[0], b[0]), lambda t: None if a[1](t) is None or b[1](t) is None else max(a[1](t), b[1](t)), 9
        if k == "if2":
            c, a = self.condition(d - 1), self.number(d - 1)
            return "if(%s, %s)" % (c[0], a[0]), lambda t: a[1](t) if true(c[1](t)) else 0, 9
        if k == "pow":
            a, n = self.number(d - 1), rng.choice([2, 3]); return "pow(%s, %d)" % (a[0], n), lambda t: None if a[1](t) is None else a[1](t) ** n, 9
        if k == "length":
            a = self.text(); return "length(%s)" % a[0], lambda t: None if a[1](t) is None else len(a[1](t)), 9
        if k == "half":
            a, n = self.leaf(), rng.choice([0, 3]); return "round(%s / 8, %d)" % (a[0], n), lambda t: None if a[1](t) is None else round(a[1](t) / 8, n), 9
        if k == "bits":
            a, b = self.leaf(), self.leaf(); o = rng.choice("&|^")
            f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[o]
            return "(%s %s %s)" % (a[0], o, b[0]), lambda t: None if a[1](t) is None or b[1](t) is None else f(a[1](t), b[1](t)), 9
        if k == "abs":
            a = self.number(d - 1); return "abs(%s)" % a[0], lambda t: None if a[1](t) is None else abs(a[1](t)), 9
        n = rng.choice([1, 2, 3, 3, 5, 6])
        default = self.number(d - 1) if rng.random() < .6 else None
        thens = [self.number(d - 1) for _ in range(n)]
        tail = (" else %s" % default[0] if default else "") + " end"
        other = default[1] if default else (lambda t: None)
        if k == "simple":
            r = rng.random()
            if r < .3: subject = self.text()
            elif r < .5:
                subject = self.condition(d - 1); subject = ("(%s)" % subject[0], subject[1], 9)
            else: subject = self.number(d - 1)
            whens = [self.text(True) if subject[2] == "s" else self.leaf() if rng.random() < .7 else self.number(d - 1) for _ in range(n)]
            def value(t):
                x = subject[1](t)
                for w, th in zip(whens, thens):
                    y = w[1](t)
                    if x is not None and y is not None and x == y: return th[1](t)
                return other(t)
            return "case %s %s%s" % (subject[0], " ".join("when %s then %s" % (w[0], th[0]) for w, th in zip(whens, thens)), tail), value, 9
        whens = [self.condition(d - 1) for _ in range(n)]
        def value(t):
            for w, th in zip(whens, thens):
                if true(w[1](t)): return th[1](t)
            return other(t)
        return "case %s%s" % (" ".join("when %s then %s" % (w[0], th[0]) for w, th in zip(whens, thens)), tail), value, 9
    def text(self, constant=False):
        if constant:
            x = self.rng.choice(["a", "b", "#end", ":1", "#case", "1", ""]); return "'%s'" % x, lambda t: x, "s"
        if self.rng.random() < .25:
            i, n = self.rng.choice([1, 2, 3]), self.rng.choice([1, 2])
            return "substring(%ss, %d, %d)" % (self.p, i, n), lambda t: None if t["s"] is None else t["s"][i - 1:i - 1 + n], "s"
        return self.p + "s", lambda t: t["s"], "s"
    def condition(self, d):
        rng = self.rng
        k = rng.choice(["cmp", "cmp", "cmp", "null", "between", "in", "and", "or", "not", "text", "date"] if d > 0 else ["cmp", "cmp", "null", "text"])
        if k == "cmp":
            a, b = self.number(d - 1), self.number(d - 1); o = rng.choice(["=", "!=", "<", "<=", ">", ">="])
            f = {"=": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[o]
            return "%s %s %s" % (self.wrap(a, 4), o, self.wrap(b, 4)), lambda t: None if a[1](t) is None or b[1](t) is None else tri(f(a[1](t), b[1](t))), 4
        if k == "text":
            a, b = self.text(), self.text(True); o = rng.choice(["=", "!="])
            return "%s %s %s" % (a[0], o, b[0]), lambda t: None if a[1](t) is None else tri((a[1](t) == b[1](t)) == (o == "=")), 4
        if k == "date":
            a, b = self.leaf(), self.leaf(); o, m = rng.choice(["<", "<=", ">"]), rng.choice("+-")
            f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y}[o]
            return "date('2020-01-10') %s interval %s day %s date('2020-01-08') + interval %s day" % (m, a[0], o, b[0]), lambda t: None if a[1](t) is None or b[1](t) is None else tri(f(10 + a[1](t) * (1 if m == "+" else -1), 8 + b[1](t))), 4
        if k == "null":
            a = self.number(d - 1); neg = rng.random() < .5
            return "%s is %snull" % (self.wrap(a, 4), "not " if neg else ""), lambda t: tri((a[1](t) is None) != neg), 4
        if k == "between":
            a, b, c = self.number(d - 1), self.number(d - 1), self.number(d - 1); neg = rng.random() < .25
            def value(t):
                x, lo, hi = a[1](t), b[1](t), c[1](t)
                parts = [None if x is None or lo is None else x >= lo, None if x is None or hi is None else x <= hi]
                r = False if False in parts else None if None in parts else True
                return tri(r if not neg or r is None else not r)
            return "%s %sbetween %s and %s" % (self.wrap(a, 4), "not " if neg else "", self.wrap(b, 4), self.wrap(c, 4)), value, 2
        if k == "in":
            a = self.number(d - 1); items = [self.number(d - 1) for _ in range(rng.choice([1, 2, 3]))]; neg = rng.random() < .25
            def value(t):
                x, ys = a[1](t), [i[1](t) for i in items]
                if x is not None and x in [y for y in ys if y is not None]: r = True
                elif x is None or None in ys: r = None
                else: r = False
                return tri(r if not neg or r is None else not r)
            return "%s %sin (%s)" % (self.wrap(a, 4), "not " if neg else "", ", ".join(i[0] for i in items)), value, 4
        if k == "not":
            a = self.condition(d - 1)
            return "not (%s)" % a[0], lambda t: None if a[1](t) is None else tri(not true(a[1](t))), 3
        a, b = self.condition(d - 1), self.condition(d - 1)
        if k == "and":
            def value(t):
                x, y = a[1](t), b[1](t)
                return 0 if x == 0 or y == 0 else None if x is None or y is None else 1
            return "%s and %s" % (self.wrap(a, 1), self.wrap(b, 2)), value, 2
        def value(t):
            x, y = a[1](t), b[1](t)
            return 1 if true(x) or true(y) else None if x is None or y is None else 0
        return "%s or %s" % (self.wrap(a, 0), self.wrap(b, 1)), value, 1
def table(rng): return [{"id": i, "g": rng.choice([1, 2, 3, None]), "v": rng.choice([5, 1, None, 3, 2, 0]), "s": rng.choice(["a", "b", None, "#end", ":1", "1", "", "#case"])} for i in range(rng.choice([1, 3, 6]))]
def case(rng):
    seed = rng.randrange(10 ** 9); p = rng.choice(["", "", "a."])
    return table(rng), seed, p, expression(seed, p)[0]
def expression(seed, p):
    rng = random.Random(seed); g = Gen(rng, p)
    return g.number(rng.choice([1, 2, 2, 3]))
SHAPES = ("column", "column", "two", "subquery", "sum", "group", "order", "where", "joined", "right", "right", "over aggregates", "over all")
@contract(P, {"case": Custom("case", case), "shape": Choice(*range(len(SHAPES)))}, bounded_only=True, cases=6000, targets=[F + "compile_calculate", F + "compile_select_calculate_column"],
    bound="seeded expressions of up to 3 levels over arithmetic, comparisons, AND, OR, NOT, BETWEEN, IN, IS NULL, IF, IFNULL, COALESCE, CASE, GREATEST, ABS, POW, LENGTH, SUBSTRING, ROUND, bit operators, dates with INTERVAL and unary minus, on columns that may be NULL, in 8 kinds of statement over tables of up to 6 rows")
def expressions(case, shape):
    t, seed, p, text = case
    f = expression(seed, p)[1]
    kind = SHAPES[shape]
    a = "a" if p else ""
    sqlrun.put("t", t); sqlrun.put("u", [{"k": 1, "w": 4}, {"k": 3, "w": None}]); sqlrun.engine().execute("set @pyvc_two=2")
    try:
        values = [f(r) for r in t]
        if kind == "column": sql, want = "select id, %s as x from t %s" % (text, a), [{"id": r["id"], "x": x} for r, x in zip(t, values)]
        elif kind == "two": sql, want = "select %s as x, id, %s as y from t %s" % (text, text, a), [{"x": x, "id": r["id"], "y": x} for r, x in zip(t, values)]
        elif kind == "subquery": sql, want = "select q.x from (select id, %s as x from t %s) q" % (text, a), [{"x": x} for x in values]
        elif kind == "sum":
            known = [x for x in values if x is not None]
            sql, want = "select count(%s) as n, sum(%s) as x from t %s" % (text, text, a), [{"n": len(known), "x": sum(known)}]
        elif kind == "group":
            keys = []
            for r in t:
                if r["g"] not in keys: keys.append(r["g"])
            sql, want = "select g, count(%s) as n from t %s group by %sg" % (text, a, p), [{"g": k, "n": len([x for r, x in zip(t, values) if r["g"] == k and x is not None])} for k in keys]
        elif kind == "order": sql, want = "select id, %s as x from t %s order by x, id" % (text, a), sorted([{"id": r["id"], "x": x} for r, x in zip(t, values)], key=lambda r: (r["x"] is not None, r["x"] or 0, r["id"]))
        elif kind == "where": sql, want = "select id from t %s where %s" % (a, text), [{"id": r["id"]} for r, x in zip(t, values) if true(x)]
        elif kind.startswith("over"):
            keys = []
            for r in t:
                if r["g"] not in keys: keys.append(r["g"])
            if kind == "over all": keys = [0]
            known = lambda c, k: [r[c] for r in t if (kind == "over all" or r["g"] == k) and r[c] is not None]
            rows = [{"g": k, "v": sum(known("v", k)), "id": max(known("id", k)), "s": max(known("s", k) or [None])} for k in keys]
            sql = text
            for c, fn in (("v", "sum"), ("id", "max"), ("s", "max")): sql = re.sub(r"(?<![\w@])%s%s\b" % (re.escape(p), c), "%s(%s%s)" % (fn, p, c), sql)
            if kind == "over aggregates": sql, want = "select g, %s as x from t %s group by %sg" % (sql, a, p), [{"g": r["g"], "x": f(r)} for r in rows]
            else:
                assume(len(t) > 0)
                sql = re.sub(r"(?<![\w@])%sg\b" % re.escape(p), "count(%sg)" % p, sql); rows[0]["g"] = len(known("g", 0))
                sql, want = "select %s as x from t %s" % (sql, a), [{"x": f(rows[0])}]
                assume("(" in sql and re.search("sum|max|count", sql))
        elif kind == "right":
            assume(p == "a.")
            w = {1: 4, 3: None}
            sql, want = "select a.id, %s as x from t a left join u b on a.id=b.k" % text.replace("a.v", "b.w"), [{"id": r["id"], "x": f({**r, "v": w.get(r["id"])})} for r in t]
        else:
            assume(p == "a.")
            w = {1: 4, 3: None}
            sql, want = "select a.id, %s as x, b.w from t a left join u b on a.id=b.k" % text, [{"id": r["id"], "x": x, "w": w.get(r["id"])} for r, x in zip(t, values)]
        got = sqlrun.query(sql)
        assert got == want, "the value of the expression on every row"
    finally:
        sqlrun.put("t", []); sqlrun.put("u", [])

# ---- the term compile_calculate gives for one level of an expression, over arbitrary parts
def compiler(): raise NotImplementedError          # SPEC: a compiler of an arbitrary statement
def expression_of(plan, kind): raise NotImplementedError     # SPEC: an expression of that form over arbitrary parts; CASE and COALESCE of any number of parts
def surroundings(plan): raise NotImplementedError  # SPEC: the plan, the arguments, the primary table, the joined tables and the join the expression belongs to
def has_value(plan, expression, term):
    """SPEC: on every row the term has the value the expression denotes: that of its operator, in the order of its
    operands; the first condition of CASE that is true chooses; NULL where nothing does"""
    raise NotImplementedError
def used_once(plan, term):
    """SPEC: no part of the term is the same object as another part: the core rewrites the terms it is given in place"""
    raise NotImplementedError
TERM_KINDS = ("neg", "bitwisenot", "paren", "if", "if without else", "ifnull", "coalesce", "case", "simple case", "case without else", "simple case without else", "between", "and", "or", "not", "is", "is not",
    "eq", "neq", "gt", "gte", "lt", "lte", "like", "add", "sub", "mul", "div", "mod", "bitwiseand", "bitwiseor", "bitwisexor", "add interval", "sub interval", "in list", "in query", "in variable", "abs", "pow", "substring", "length", "round", "json_extract", "greatest", "concat", "call", "call of a module", "call convert", "call define", "call generator", "tuple", "cast", "interval", "variable", "named variable", "assignment", "first value",
    "column", "constant", "subquery", "all columns")
@contract(P, {"plan": Custom("expression", None), "kind": Choice(*TERM_KINDS)}, targets=[F + "compile_calculate"], concrete=False, split="kind")
def term(plan, kind):
    from syncanysql.compiler import Compiler
    e = expression_of(plan, kind)
    config, arguments, primary, joined, index = surroundings(plan)
    t = Compiler.compile_calculate(compiler(), e, config, arguments, primary, joined, index)
    assert has_value(plan, e, t), "the term has the value of the expression"
    assert used_once(plan, t), "no part of the term is used twice"
    cover("term")

# ---- the columns an expression reads are made known to the plan
def fields_of(plan): raise NotImplementedError     # SPEC: the list the columns are collected in
def primary_of(plan): raise NotImplementedError    # SPEC: the primary table
def all_collected(plan, expression, fields):
    """SPEC: the columns of every part of the expression that is no constant are in the list, those of an arbitrary one of
    its list of parts included; a column is there itself, and among the columns of the primary table if it is one of it;
    the columns inside a subquery are none of the expression"""
    raise NotImplementedError
@contract(P, {"plan": Custom("expression", None), "kind": Choice(*TERM_KINDS)}, targets=[F + "parse_calculate"], concrete=False, split="kind")
def columns_read(plan, kind):
    from syncanysql.compiler import Compiler
    e = expression_of(plan, kind)
    config, arguments, _, _, _ = surroundings(plan)
    fields = fields_of(plan)
    Compiler.parse_calculate(compiler(), e, config, arguments, primary_of(plan), fields)
    assert all_collected(plan, e, fields), "every column the expression reads is made known"
    cover("columns")

# ---- the aggregates within an expression are found
def all_aggregates(plan, expression, found):
    """SPEC: the expression is in the list if it is an aggregate, and so are the aggregates of every part of it, those of
    an arbitrary one of its list of parts included; those of a subquery are its own"""
    raise NotImplementedError
AGGREGATE_KINDS = TERM_KINDS + ("sum", "max", "count", "average", "aggregate by name")
@contract(P, {"plan": Custom("expression", None), "kind": Choice(*AGGREGATE_KINDS)}, targets=[F + "parse_aggregate", F + "is_aggregate", F + "is_calculate"], concrete=False, split="kind")
def aggregates_within(plan, kind):
    from syncanysql.compiler import Compiler
    e = expression_of(plan, kind)
    config, arguments, _, _, _ = surroundings(plan)
    found = fields_of(plan)
    Compiler.parse_aggregate(compiler(), e, config, arguments, found)
    assert all_aggregates(plan, e, found), "every aggregate of the expression is found"
    cover("aggregates")
