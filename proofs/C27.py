import copy
from proofs.common import *
from contracts import C27 as C
from syncanysql import compiler as CP
from syncanysql.compiler import Compiler
from sqlglot import expressions as X
ASSUMPTIONS = ["compile_calculate: the parts of an expression are known by the contract of the recursive call (structural induction over the expression); is_column, is_const and is_subquery tell columns, constants and subqueries apart, and parse_column, compile_join_column_field, parse_const, compile_const and compile_query_condition give the terms of those (C18, C21, C23)",
    "the core evaluates #const, #if, #make, @is_null, @convert_array and a function over its arguments as documented, giving a term used in one place its value (checked by the statements, bounded); the functions are those of C05, C06 and C07",
    "parse_aggregate: as parse_calculate, for aggregates; find_aggregate_calculater knows no other aggregates; aggregates within an aggregate are not promised",
    "parse_calculate: the columns of a part are in the list after the recursive call (structural induction); a constant reads no column",
    "functions other than ABS, POW, SUBSTRING, LENGTH, ROUND, JSON_EXTRACT, GREATEST, CONCAT and calls by name are left to the statements"]
SUMMARIES, SYMS, LOOPS = {}, {}, {}
CLS = {"neg": X.Neg, "bitwisenot": X.BitwiseNot, "paren": X.Paren, "if": X.If, "if without else": X.If, "ifnull": X.IfNull, "coalesce": X.Coalesce, "case": X.Case, "simple case": X.Case, "case without else": X.Case,
    "simple case without else": X.Case, "between": X.Between, "and": X.And, "or": X.Or, "not": X.Not, "is": X.Is, "is not": X.Not, "eq": X.EQ, "neq": X.NEQ, "gt": X.GT, "gte": X.GTE, "lt": X.LT, "lte": X.LTE, "like": X.Like,
    "add": X.Add, "sub": X.Sub, "mul": X.Mul, "div": X.Div, "mod": X.Mod, "bitwiseand": X.BitwiseAnd, "bitwiseor": X.BitwiseOr, "bitwisexor": X.BitwiseXor, "add interval": X.Add, "sub interval": X.Sub, "in list": X.In, "in query": X.In,
    "in variable": X.In, "abs": X.Abs, "pow": X.Pow, "substring": X.Substring, "length": X.Length, "round": X.Round, "json_extract": X.JSONExtract, "column": X.Column, "constant": X.Literal, "subquery": X.Subquery, "all columns": X.Star}
PARTS = {"if": ("this", "true", "false"), "if without else": ("this", "true"), "ifnull": ("this", "expression"), "coalesce": ("this",), "case": ("default",), "simple case": ("this", "default"), "case without else": (), "simple case without else": ("this",),
    "between": ("this", "low", "high"), "in query": ("this", "query"), "in variable": ("this", "field"), "in list": ("this",), "substring": ("this", "start", "length"), "round": ("this", "decimals"), "all columns": (), "column": (), "constant": ("this",), "subquery": ("this",)}
CALLS = {"call": ("Concat_WS", "@mysql::concat_ws"), "call of a module": ("some$deep$Fn", "@some::deep.fn"), "call convert": ("CONVERT_INT", "@convert_int|int"), "call define": ("call_define", "#call"), "call generator": ("Some$gen", "@some::gen"), "aggregate by name": ("Group_Array", "-")}
for k in CALLS: CLS[k], PARTS[k] = X.Anonymous, ()
CLS["greatest"], CLS["concat"], PARTS["greatest"], PARTS["concat"] = X.Greatest, X.Concat, ("this",), ()
CLS.update({"tuple": X.Tuple, "cast": X.Cast, "interval": X.Interval, "variable": X.Parameter, "named variable": X.Parameter, "assignment": CP.AssignParameter, "first value": X.Anonymous})
PARTS.update({"tuple": (), "cast": ("this",), "interval": ("this",), "variable": (), "named variable": (), "assignment": ("expression",), "first value": ()})
VARIABLES = {"variable": "plain", "named variable": "short", "assignment": "short"}
MAPPING = {"short": "Long Name"}
AGGREGATES = {"sum": X.Sum, "max": X.Max, "count": X.Count, "average": X.Avg}
CLS.update(AGGREGATES); PARTS.update({k: ("this",) for k in AGGREGATES})
LISTS = ("tuple",) + ("in list", "greatest", "concat") + tuple(CALLS)
for k in ("neg", "bitwisenot", "paren", "not", "is not", "abs", "length"): PARTS[k] = ("this",)
PAIRS = {"eq": "eq", "neq": "neq", "gt": "gt", "gte": "gte", "lt": "lt", "lte": "lte"}
def V(n, v): return (n, v)
def bit(c): return z3.If(c, z3.RealVal(1), z3.RealVal(0))
NULL = (z3.BoolVal(True), z3.RealVal(0))
def true(x): return z3.And(z3.Not(x[0]), x[1] != 0)
def false(x): return z3.And(z3.Not(x[0]), x[1] == 0)
def choose(c, a, b): return (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))
def agree(a, b): return z3.And(a[0] == b[0], z3.Implies(z3.Not(a[0]), a[1] == b[1]))
def norm(x): return (x[0], z3.If(x[0], z3.RealVal(0), x[1]))
def three(un, t): return (un, bit(t))
def apply(eng, op, args):
    """the value of a function"""
    args = [norm(a) if isinstance(a, tuple) else a for a in args]
    if op in ("eq", "neq", "gt", "gte", "lt", "lte"):
        (xn, x), (yn, y) = args
        return three(z3.Or(xn, yn), {"eq": x == y, "neq": x != y, "gt": x > y, "gte": x >= y, "lt": x < y, "lte": x <= y}[op])
    if op in ("and", "or"):
        a, b = args
        if op == "and": return three(z3.And(z3.Not(false(a)), z3.Not(false(b)), z3.Or(a[0], b[0])), z3.And(true(a), true(b)))
        return three(z3.And(z3.Not(true(a)), z3.Not(true(b)), z3.Or(a[0], b[0])), z3.Or(true(a), true(b)))
    if op == "not": return three(args[0][0], args[0][1] == 0)
    if op in ("is", "is_not"):
        t = eng.uf("is", B, R, B, R, B)(*args[0], *args[1]); return three(z3.BoolVal(False), t if op == "is" else z3.Not(t))
    flat = [t for a in args for t in (a if isinstance(a, tuple) else (z3.IntVal(a.key()),))]
    sorts = [t.sort() for t in flat]
    name = "%s/%d" % (op, len(args))
    return (eng.uf("null_" + name, *sorts, B)(*flat), eng.uf("value_" + name, *sorts, R)(*flat))
class Tok(M.LazyInstance):
    """what is only handed on"""
    def __init__(self, name): self.name = name
    def isinstance(self, eng, cls): return dict in cls
    def truth(self, eng): return True
    def eq(self, eng, o): return o is self
class Names(Tok):
    """the joined tables"""
    def isinstance(self, eng, cls): return list in cls
class World(M.LazyInstance):
    def __init__(self, eng):
        self.eng, self.kind = eng, None
        self.n = eng.fresh("number_of_parts", I); eng.assume(self.n >= 0)
        self.around = [Tok("config"), Tok("arguments"), Tok("primary_table"), Names("joined"), Tok("join_index")]
        self.children, self.outer_used, self.proved = {}, [], set()
        self.all_const = eng.fresh("all_constant", B)
        eng.ghost["world"] = self
    def concretize(self, eng, m): return None
    def child(self, name, k=None):
        key = (name, None if k is None else z3.simplify(k).get_id())
        if key not in self.children: self.children[key] = Child(self, name, k)
        return self.children[key]
    def value(self, name, k=None):
        if k is None: return (z3.Const("null_" + name, B), z3.Const("value_" + name, R))
        return (self.eng.uf("null_of_" + name, I, B)(k), self.eng.uf("value_of_" + name, I, R)(k))
    def rest(self, k):
        """the value of CASE or COALESCE from its k-th part on"""
        return (self.eng.uf("rest_null", I, B)(k), self.eng.uf("rest_value", I, R)(k))
    def has(self, part): return part in PARTS.get(self.kind, ("this", "expression"))
    def unfold(self, k):
        if self.kind == "coalesce":
            e = self.value("item", k)
            return choose(k >= self.n, NULL, choose(e[0], self.rest(k + 1), e))
        c = self.value("when", k)
        if self.kind.startswith("simple"): c = apply(self.eng, "eq", [self.value("this"), c])
        return choose(k >= self.n, self.value("default") if self.has("default") else NULL, choose(true(c), self.value("then", k), self.rest(k + 1)))
    def define(self, k): self.eng.assume(agree(self.rest(k), self.unfold(k)))
    def denoted(self):
        k, v, eng = self.kind, self.value, self.eng
        if k == "cast": return choose(z3.Const("has_type", B), apply(eng, "cast some_type", [v("this")]), v("this"))
        if k in ("variable", "named variable"): return apply(eng, "variable @" + MAPPING.get(VARIABLES[k], VARIABLES[k]), [])
        if k == "assignment": return apply(eng, "set @" + MAPPING.get(VARIABLES[k], VARIABLES[k]), [v("expression")])
        if k == "first value": return v("only")
        if k == "paren": return v("this")
        if k in ("if", "if without else"): return choose(true(v("this")), v("true"), v("false") if self.has("false") else (z3.BoolVal(False), z3.RealVal(0)))
        if k == "ifnull": return choose(v("this")[0], v("expression"), v("this"))
        if k == "coalesce": return choose(v("this")[0], self.rest(z3.IntVal(0)), v("this"))
        if "case" in k: return self.rest(z3.IntVal(0))
        if k == "between": return apply(eng, "and", [apply(eng, "gte", [v("this"), v("low")]), apply(eng, "lte", [v("this"), v("high")])])
        if k == "is not": return apply(eng, "not", [apply(eng, "is", [v("left"), v("right")])])
        if k == "in list": return apply(eng, "in", [v("this"), List("items")])
        if k in ("in query", "in variable"): return apply(eng, "in", [v("this"), List("query" if k == "in query" else "field")])
        if k.endswith(" interval"): return apply(eng, "date" + k[:3], [v("this"), v("expression")])
        if k in ("greatest", "concat"): return apply(eng, k, [v(p) for p in PARTS[k]] + [List("items")])
        if k in CALLS: return apply(eng, "#yield " + CALLS[k][1] if k == "call generator" else CALLS[k][1], [List("items")])
        if k in ("column", "constant", "subquery", "all columns"): return v(k)
        return apply(eng, k, [v(p) for p in PARTS.get(k, ("this", "expression"))])
class List:
    """the values of a list, in order"""
    KEYS = {"items": 1, "query": 2, "field": 3}
    def __init__(self, name): self.name = name
    def key(self): return self.KEYS[self.name]
class Child(M.LazyInstance):
    def __init__(self, w, name, k=None): self.w, self.name, self.k = w, name, k
    def truth(self, eng): return True
    def isinstance(self, eng, cls):
        if X.Expression in cls: return True
        if X.Is in cls: return self.w.kind == "is not" and self.name == "this"
        if X.Interval in cls: return self.w.kind.endswith(" interval") and self.name == "expression"
        if list in cls or str in cls or dict in cls: return False
        raise Unsupported("form of a part of the expression")
    def method(self, eng, name, args, kw):
        if name == "find" and args == [X.Parameter] and self.w.kind == "interval":
            return Named(self.w, "found") if eng.branch(z3.Const("reads_variable", B)) else None
        raise Unsupported("part.%s" % name)
    def getattr(self, eng, name):
        if name == "find": return E.SymMethod(self, name)
        if name == "args" and self.w.kind == "is not" and self.name == "this": return Args(self.w, "is")
        raise Unsupported("part.%s" % name)
class Items(M.LazyInstance):
    """the values of a list"""
    def __init__(self, w): self.w = w
    def len(self, eng): return SInt(self.w.n)
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return True
class Seq(M.LazyInstance):
    """the parts of CASE or COALESCE from a position on"""
    def __init__(self, w, off): self.w, self.off = w, off
    def isinstance(self, eng, cls): return list in cls
    def truth(self, eng): return SBool(self.off < self.w.n)
    def len(self, eng): return SInt(self.w.n - self.off)
    def getitem(self, eng, k):
        if isinstance(k, slice):
            if k.stop is not None or k.step is not None or not isinstance(k.start, int): raise Unsupported("slice")
            if k.start < 0: return Seq(self.w, z3.simplify(self.w.n + k.start)) if eng.branch(self.w.n + k.start >= self.off) else Seq(self.w, self.off)
            return Seq(self.w, z3.simplify(self.off + k.start)) if eng.branch(self.off + k.start <= self.w.n) else Seq(self.w, self.w.n)
        if not isinstance(k, int): raise Unsupported("position %r" % (k,))
        at = z3.simplify(self.off + k) if k >= 0 else z3.simplify(self.w.n + k)
        if not eng.branch(z3.And(at >= self.off, at < self.w.n)): eng.raise_(IndexError, "list index out of range")
        return self.w.child("item", at) if self.w.kind == "coalesce" else Arm(self.w, at)
class Arm(M.LazyInstance):
    """WHEN .. THEN .."""
    def __init__(self, w, k): self.w, self.k = w, k
    def truth(self, eng): return True
    def isinstance(self, eng, cls): return any(issubclass(X.If, c) for c in cls if isinstance(c, type))
    def getattr(self, eng, name):
        if name == "args": return Args(self.w, "arm", self.k)
        raise Unsupported("when.%s" % name)
class Args(M.LazyInstance):
    def __init__(self, w, of, k=None): self.w, self.of, self.k = w, of, k
    def part(self, name):
        w = self.w
        if self.of == "is": return {"this": w.child("left"), "expression": w.child("right")}.get(name)
        if self.of == "arm": return {"this": w.child("when", self.k), "true": w.child("then", self.k)}.get(name)
        if self.of == "name": return {"this": VARIABLES[w.kind]}.get(name)
        if self.of == "unit": return {"this": "DAY"}.get(name)
        if name == "this" and w.kind in VARIABLES: return Named(w, "name")
        if name == "unit" and w.kind == "interval": return Named(w, "unit")
        if name == "this" and w.kind == "first value": return "Get_Value"
        if name == "expressions" and w.kind == "first value": return [w.child("only")]
        if name == "this" and self.of == "root" and w.kind in CALLS: return CALLS[w.kind][0]
        if name == "expressions":
            return Items(w) if w.kind in LISTS else Seq(w, z3.IntVal(0)) if w.kind == "coalesce" else None
        if name == "ifs" and "case" in w.kind: return Seq(w, z3.IntVal(0))
        return w.child(name) if w.has(name) else None
    def contains(self, eng, k): return self.part(k) is not None
    def getitem(self, eng, k):
        v = self.part(k)
        if v is None: eng.raise_(KeyError, k)
        return v
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "get":
            v = self.part(args[0]); return v if v is not None or len(args) < 2 else args[1]
        if name == "values" and self.of == "root": return [self.part(k) for k in CLS[self.w.kind].arg_types]
        if name == "items" and self.of == "root": return [(k, self.part(k)) for k in CLS[self.w.kind].arg_types]
        raise Unsupported("args.%s" % name)
class Named(M.LazyInstance):
    """the name of a variable or a unit"""
    def __init__(self, w, of): self.w, self.of = w, of
    def truth(self, eng): return True
    def isinstance(self, eng, cls): return X.Expression in cls
    def getattr(self, eng, name):
        if name == "args": return Args(self.w, self.of)
        raise Unsupported("name.%s" % name)
class Node(M.LazyInstance):
    def __init__(self, w): self.w = w
    def truth(self, eng): return True
    def isinstance(self, eng, cls): return any(issubclass(CLS[self.w.kind], c) for c in cls if isinstance(c, type))
    def getattr(self, eng, name):
        if name == "args": return Args(self.w, "root")
        if name == "key": return CLS[self.w.kind].key
        if name == "arg_types": return CLS[self.w.kind].arg_types
        if name in ("this", "expression", "expressions"): return Args(self.w, "root").part(name)
        raise Unsupported("expression.%s" % name)
class Term(M.LazyInstance):
    """a term with a known value"""
    def __init__(self, value): self.value = value
    def truth(self, eng): return True
    def isinstance(self, eng, cls): raise Unsupported("form of a term")
class ListTerm(M.LazyInstance):
    def __init__(self, name): self.name = name
    def truth(self, eng): return True
    def isinstance(self, eng, cls): return list in cls
    def iterate(self, eng):
        if eng.ghost.get("iterated_by") != "extend": raise Unsupported("iteration over the terms of a list")
        return [Spread(self.name)]
class Spread(M.LazyInstance):
    """the values of the list, written into a longer one"""
    def __init__(self, name): self.name = name
class Col(M.LazyInstance):
    """a call with the first i values of the list"""
    def __init__(self, base, i): self.base, self.i = base, i
    def truth(self, eng): return True
    def isinstance(self, eng, cls): return list in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append": raise Unsupported("call.%s" % name)
        M.log_write(eng, self)
        t = args[0]
        ok = isinstance(t, Term) and t.child == "item" and t.k is not None
        eng.prove("every value of the list is handed to the function in order", t.k == self.i if ok else z3.BoolVal(False))
        self.i = z3.simplify(self.i + 1)
class Values(LoopSpec):
    def __init__(self): LoopSpec.__init__(self, self.i_call, self.h_call, seq=lambda eng, it: (it.w.n, lambda i: it.w.child("item", i)), entry=self.e_call, modifies=lambda eng, fr, st: [x for x in fr.locals.values() if isinstance(x, Col)])
    def wants(self, eng, it): return isinstance(it, Items)
    def e_call(self, eng, fr, st):
        names = [n for n, x in fr.locals.items() if isinstance(x, list) and x and isinstance(x[0], str) and x[0][:1] in "@#"]
        if len(names) != 1: raise Unsupported("loop over the values of a list")
        st["name"] = names[0]; fr.locals[names[0]] = Col(fr.locals[names[0]], z3.IntVal(0))
    def h_call(self, eng, fr, st, i):
        c = fr.locals[st["name"]]; fr.locals[st["name"]] = Col(c.base, i)
    def i_call(self, eng, fr, st, i):
        c = fr.locals.get(st["name"])
        return [("the first values of the list are handed to the function", isinstance(c, Col) and SBool(c.i == i))]
class Backwards(M.LazyInstance):
    """the parts from the last one to the first"""
    def __init__(self, seq): self.seq = seq
def s_reversed(eng, a, k): return Backwards(a[0]) if isinstance(a[0], Seq) else NotImplemented
class FromTheEnd(LoopSpec):
    """the term is built from the last part on: after i parts it has the value of what is left from there"""
    def __init__(self): LoopSpec.__init__(self, self.i_rest, self.h_rest, seq=self.parts, entry=self.e_rest)
    def wants(self, eng, it): return isinstance(it, Backwards)
    def parts(self, eng, it):
        w, s = it.seq.w, it.seq
        return z3.simplify(w.n - s.off), lambda i: w.child("item", z3.simplify(w.n - 1 - i)) if w.kind == "coalesce" else Arm(w, z3.simplify(w.n - 1 - i))
    def at(self, w, i): return z3.simplify(w.n - i)
    def e_rest(self, eng, fr, st):
        w = eng.ghost["world"]; w.define(w.n)
        names = [n for n, x in fr.locals.items() if n in fr.localnames and not isinstance(x, E.Poison) and self.starts(eng, w, x)]
        names = [n for n in names if n in E.assigned_names([x for x in E.ast.walk(fr.node) if isinstance(x, E.ast.For)])]
        if len(names) != 1: raise Unsupported("loop over the parts")
        st["name"] = names[0]; st["start"] = fr.locals[names[0]]
        st["others"] = {id(o) for n, x in fr.locals.items() if n != names[0] for o in objects(x)} - {id(o) for o in objects(st["start"])}
        st["keep"] = [fr.locals[n] for n in fr.locals]
    def starts(self, eng, w, x):
        try: return (isinstance(x, Term) or isinstance(x, list) or x is None) and eng.entailed(agree(value(eng, x), w.rest(w.n)))
        except Unsupported: return False
    def h_rest(self, eng, fr, st, i):
        w = eng.ghost["world"]
        t = Term(w.rest(self.at(w, i))); t.child = t.k = None
        fr.locals[st["name"]] = t
        w.define(self.at(w, i)); w.define(z3.simplify(w.n - i - 1))
    def i_rest(self, eng, fr, st, i):
        w = eng.ghost["world"]
        t = fr.locals[st["name"]]; used = objects(t)
        return [("the term has the value of the parts seen", SBool(agree(value(eng, t), w.rest(self.at(w, i))))),
            ("no part of the term is used twice", distinct(used) and not [o for o in used if id(o) in st["others"]] and (t is st["start"] or not {id(o) for o in used} & {id(o) for o in objects(st["start"])}))]
class Loops:
    """the loop over the values of a list, or over the parts of CASE, wherever it is"""
    def __init__(self): self.specs = [Values(), FromTheEnd()]
    def wants(self, eng, it): return any(s.wants(eng, it) for s in self.specs)
    def run_for(self, eng, s, fr, it): return [x for x in self.specs if x.wants(eng, it)][0].run_for(eng, s, fr, it)
class Handed(M.LazyInstance):
    """what parse_column, parse_const give of the expression"""
    def __init__(self, what, of): self.what, self.of = what, of
    def getitem(self, eng, k):
        if k == "value" and self.what == "const" and isinstance(self.of, Child):
            if self.of.name != "one": eng.prove("only a constant is read as one", is_form(eng, "constant", self.of))
            return ConstValue(self.of)
        raise Unsupported("%s[%r]" % (self.what, k))
def value(eng, t, env=None):
    w = eng.ghost["world"]
    if isinstance(t, Term): return t.value
    if t is None: return NULL
    if isinstance(t, list) and len(t) == 2 and t[0] == "#yield" and isinstance(t[1], Col): return call(eng, t[1], env, "#yield ")
    if isinstance(t, Col): return call(eng, t, env)
    if isinstance(t, str) and env and t.startswith("$.") and t[2:] in env: return env[t[2:]]
    if t == "$.*" and w.kind == "all columns": return w.value("all columns")
    if isinstance(t, list) and t and isinstance(t[0], str):
        head, rest = t[0], t[1:]
        if head == "#const" and len(t) == 2:
            if t[1] is None: return NULL
            if isinstance(t[1], (bool, int, float)): return (z3.BoolVal(False), z3.RealVal(t[1]))
        if head == "#if" and len(t) in (3, 4): return choose(true(value(eng, t[1], env)), value(eng, t[2], env), value(eng, t[3], env) if len(t) == 4 else NULL)
        if head == "#if" and len(t) == 5 and t[1] == ["#const", 1] and t[3] is None and isinstance(t[4], str) and t[4][:5] == ":$.*|": return apply(eng, "cast " + t[4][5:], [value(eng, t[2], env)])
        if head == "@current_env_variable::get_value" and len(t) == 2 and t[1][:1] == ["#const"]: return apply(eng, "variable " + t[1][1], [])
        if head == "@current_env_variable::set_value" and len(t) == 3 and t[1][:1] == ["#const"]: return apply(eng, "set " + t[1][1], [value(eng, t[2], env)])
        if head == "@is_null" and len(t) == 2: return three(z3.BoolVal(False), value(eng, t[1], env)[0])
        if head == "#make" and len(t) == 3 and isinstance(t[1], dict) and isinstance(t[2], list) and isinstance(t[2][0], str) and t[2][0][:1] == ":":
            made = {k: value(eng, x, env) for k, x in t[1].items()}
            return value(eng, [t[2][0][1:]] + t[2][1:], made)
        if head.startswith("@mysql::"): return apply(eng, head[8:], [argument(eng, x, env) for x in rest])
    raise Unsupported("term %r" % (t,))
def call(eng, t, env, prefix=""):
    w = eng.ghost["world"]
    eng.prove("all values of the list are handed to the function", t.i == w.n)
    return apply(eng, prefix + (t.base[0][8:] if t.base[0].startswith("@mysql::") and w.kind not in CALLS else t.base[0]), [argument(eng, x, env) for x in t.base[1:]] + [List("items")])
def argument(eng, x, env):
    if isinstance(x, Spread): return List(x.name)
    if isinstance(x, list) and len(x) == 2 and x[0] == "#make" and isinstance(x[1], ListTerm): return List(x[1].name)
    if isinstance(x, list) and len(x) == 2 and x[0] == "@convert_array" and isinstance(x[1], Term) and x[1].child in List.KEYS: return List(x[1].child)
    return value(eng, x, env)
def objects(t, out=None):
    """the objects a term is made of, once for every place"""
    out = [] if out is None else out
    if isinstance(t, (Term, ListTerm, Spread)): out.append(t)
    elif isinstance(t, Col): out.append(t); objects(t.base, out)
    elif isinstance(t, (list, tuple)):
        if isinstance(t, list): out.append(t)
        for x in t: objects(x, out)
    elif isinstance(t, dict):
        out.append(t)
        for x in t.values(): objects(x, out)
    return out
def distinct(ts): return len({id(t) for t in ts}) == len(ts)
# ---- parts of the compiler
NAMES = ("config", "arguments", "primary_table", "column_join_tables", "join_index")
def handed_on(eng, w, a, k, first, names=NAMES):
    got = dict(zip(names, a[first:])); got.update(k)
    for n, want in zip(NAMES, w.around):
        if n in names: eng.prove("the parts are compiled for the same plan, tables and join", z3.BoolVal(got.get(n) is want))
def s_calculate(eng, a, k):
    """contract of the recursive call on a part"""
    e, w = a[1], eng.ghost["world"]
    if not isinstance(e, Child):
        if isinstance(e, Node): return NotImplemented
        raise Unsupported("compile_calculate of %r" % (e,))
    handed_on(eng, w, a, k, 2)
    return part_term(w, e)
def part_term(w, e):
    t = Term(w.value(e.name, e.k)); t.child, t.k = e.name, e.k; return t
def is_form(eng, kind, c):
    if c.k is None: return z3.Const("%s_is_%s" % (c.name, kind), B)
    return eng.uf("%s_is_%s" % (c.name, kind), I, B)(c.k)
class Flag(M.LazyInstance):
    """whether each value of the list is constant"""
def m_all(eng, a, k): return SBool(eng.ghost["world"].all_const) if isinstance(a[0], Flag) else NotImplemented
class ConstValue(M.LazyInstance):
    """the value of a constant part"""
    def __init__(self, of): self.of = of
class Constants(M.LazyInstance):
    """the values of the list, all constant"""
    def isinstance(self, eng, cls): return list in cls
def form(kind):
    def s(eng, a, k):
        if isinstance(a[1], Node): return eng.ghost["world"].kind == kind
        if isinstance(a[1], Child): return Flag() if eng.ghost.get("mapping") else SBool(is_form(eng, kind, a[1]))
        raise Unsupported("is_%s" % kind)
    return s
def s_parse(what):
    def s(eng, a, k):
        if not isinstance(a[1], (Node, Child)): raise Unsupported("parse_%s" % what)
        handed_on(eng, eng.ghost["world"], a, k, 2, NAMES[:2]); return Handed(what, a[1])
    return s
def s_join_field(eng, a, k):
    w = eng.ghost["world"]
    if not isinstance(a[1], Node) or w.kind != "column": raise Unsupported("compile_join_column_field")
    handed_on(eng, w, a, {}, 2, ("config", "arguments", "primary_table", "join_index"))
    eng.prove("the column is looked up among the joined tables", z3.BoolVal(isinstance(a[6], Handed) and a[6].what == "column" and a[7] is w.around[3]))
    t = Term(w.value("column")); t.child = t.k = None; return t
def s_const(eng, a, k):
    w = eng.ghost["world"]
    if isinstance(a[1], Child) and isinstance(a[4], Handed) and a[4].of is a[1] and a[4].what == "const": return part_term(w, a[1])
    if not isinstance(a[1], Node) or w.kind != "constant" or not isinstance(a[4], Handed): raise Unsupported("compile_const")
    t = Term(w.value("constant")); t.child = t.k = None; return t
def s_query(eng, a, k):
    w = eng.ghost["world"]
    if not isinstance(a[1], Node) or w.kind != "subquery": raise Unsupported("compile_query_condition")
    handed_on(eng, w, a, {}, 2, ("config", "arguments", "primary_table"))
    t = Term(w.value("subquery")); t.child = t.k = None; return t
def s_generator(eng, a, k):
    if eng.ghost["world"].kind == "call generator": return Tok("generator")
    eng.raise_(CP.CalculaterUnknownException, a[0])
class ByName(M.LazyInstance):
    """the joined tables by their names"""
def dictcomp(eng, e, fr):
    if len(e.generators) == 1 and isinstance(eng.eval(e.generators[0].iter, fr), Names): return ByName()
    return None
def comprehension(eng, e, fr):
    w = eng.ghost["world"]
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    g = e.generators[0]
    if not isinstance(eng.eval(g.iter, fr), Items): return None
    x = w.child("one")
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    eng.assign(g.target, x, inner)
    old = eng.ghost.get("mapping"); eng.ghost["mapping"] = True
    try: r = eng.eval(e.elt, inner)
    finally: eng.ghost["mapping"] = old
    if isinstance(r, Flag): return r
    if isinstance(r, ConstValue) and r.of is x:
        eng.prove("only constants are read as such", w.all_const); return Constants()
    if isinstance(r, Term) and r.child == "one": return ListTerm("items")
    raise Unsupported("list of %r" % (r,))
def clone(t):
    if isinstance(t, Term):
        c = Term(t.value); c.child, c.k = t.child, t.k; return c
    if isinstance(t, ListTerm): return ListTerm(t.name)
    if isinstance(t, list): return [clone(x) for x in t]
    if isinstance(t, dict): return {k: clone(x) for k, x in t.items()}
    if t is None or isinstance(t, (str, int, float, bool)): return t
    raise Unsupported("copy of %r" % (t,))
def s_copy(eng, a, k): return clone(a[0])
def s_hasattr(eng, a, k):
    if isinstance(a[0], Node): return False
    return NotImplemented
def at_position(x):
    if isinstance(x, Arm): return x.k
    if isinstance(x, Seq): return x.off
def moved(w, x, k): return Arm(w, k) if isinstance(x, Arm) else Seq(w, k)
def nested(eng, f, args, kw):
    """a local function over the parts from a position on: proved once for an arbitrary position, its call on later
    parts known by the induction hypothesis; the call itself is then known by what was proved"""
    w = eng.ghost["world"]
    places = [(i, at_position(x)) for i, x in enumerate(args) if at_position(x) is not None]
    if not places: return NotImplemented
    if kw or len(places) != len(args) or len(places) > 2: raise Unsupported("local function over parts")
    form = tuple(type(x) for x in args)
    if form not in ((Seq,), (Arm, Seq)): raise Unsupported("local function over parts")
    k = z3.simplify(places[0][1])
    if len(places) == 2: eng.prove("the parts that follow are handed on", places[1][1] == k + 1)
    inside = eng.ghost.get("inside")
    if inside is not None:
        if inside[0] is not f.node: raise Unsupported("another local function")
        eng.prove("every step goes on with later parts", z3.And(k > inside[1], k <= w.n))
        w.define(k); w.define(k + 1)
    else:
        j = eng.fresh("j", I)
        eng.assume(z3.And(j >= 0, j < w.n if len(places) == 2 else j <= w.n))
        w.define(j); w.define(j + 1); w.define(j + 2)
        outer = {id(o) for x in f.frame.locals.values() for o in objects(x)}
        keep = [o for x in f.frame.locals.values() for o in objects(x)]
        eng.ghost["inside"] = (f.node, j)
        body = [Arm(w, j), Seq(w, z3.simplify(j + 1))][:2] if len(places) == 2 else [Seq(w, j)]
        try: r = eng.call_node(f.node, f.frame.globals, body, {}, f.defaults, f.kwdefaults, parent=f.frame, qualname=f.__qualname__)
        finally: eng.ghost["inside"] = None
        eng.prove("from every part on, the term has the value of what is left", agree(value(eng, r), w.rest(j)))
        used = objects(r)
        eng.prove("no part of the term is used twice", z3.BoolVal(distinct(used)))
        shared = [o for o in used if id(o) in outer]
        if shared: eng.prove("a term from outside is used by one part only", j >= w.n - 1)
        w.outer_used.append((keep, shared))
    w.define(k)
    t = Term(w.rest(k)); t.child = t.k = None; return t
def s_cast_type(eng, a, k):
    if not isinstance(a[1], Node): raise Unsupported("type of a part")
    return "some_type" if eng.branch(z3.Const("has_type", B)) else None
def s_compiler(eng, a, k):
    c = object.__new__(Compiler); c.mapping = dict(MAPPING); return c
def s_expression(eng, a, k):
    w = a[0]; w.kind = a[1]
    if w.kind in LISTS and w.kind not in CALLS: eng.assume(w.n >= 1)
    return Node(w)
def s_has_value(eng, a, k):
    w, node, t = a
    w.define(z3.IntVal(0))
    if w.kind == "tuple":       # the list of its values
        return isinstance(t, list) and len(t) == 2 and (t[0] == "#make" and isinstance(t[1], ListTerm) and t[1].name == "items" or t[0] == "#const" and isinstance(t[1], Constants) and SBool(w.all_const))
    if w.kind == "interval":    # the number and its unit
        if not (isinstance(t, list) and len(t) == 2 and isinstance(t[1], dict) and set(t[1]) == {"value", "unit"}): return False
        if t[0] == "#const":
            c = t[1]["value"]
            return isinstance(c, ConstValue) and c.of.name == "this" and t[1]["unit"] == "DAY" and SBool(z3.And(is_form(eng, "constant", c.of), z3.Not(z3.Const("reads_variable", B))))
        return t[0] == "#make" and t[1]["unit"] == ["#const", "DAY"] and SBool(agree(value(eng, t[1]["value"]), w.value("this")))
    return SBool(agree(value(eng, t), w.denoted()))
def s_used_once(eng, a, k):
    w, t = a
    return distinct(objects(t) + [o for keep, shared in w.outer_used for o in shared])
TERM = {all: m_all, Compiler.parse_cast_typing_filter: s_cast_type, C.compiler: s_compiler, C.expression_of: s_expression, C.surroundings: lambda eng, a, k: tuple(a[0].around), C.has_value: s_has_value, C.used_once: s_used_once,
    Compiler.compile_calculate: s_calculate, Compiler.is_column: form("column"), Compiler.is_const: form("constant"), Compiler.is_subquery: form("subquery"), Compiler.parse_column: s_parse("column"), Compiler.parse_const: s_parse("const"),
    Compiler.compile_join_column_field: s_join_field, Compiler.compile_const: s_const, Compiler.compile_query_condition: s_query, copy.deepcopy: s_copy, hasattr: s_hasattr, reversed: s_reversed, CP.find_generate_calculater: s_generator}
LOOPS = {("syncanysql.compiler:Compiler.compile_calculate", i): Loops() for i in range(8)}
CONTRACT_SUMMARIES = {"term": TERM}
SYMS["expression"] = lambda eng, name: World(eng)
def setup(eng): eng.ghost["comprehension"], eng.ghost["dictcomp"], eng.ghost["calls"] = comprehension, dictcomp, nested
SETUP = {"term": setup}
# ---- the columns an expression reads
class Fields(M.LazyInstance):
    def __init__(self, w):
        self.w, self.seen, self.columns = w, set(), []
        self.k0 = w.eng.fresh("some_part", I); w.eng.assume(z3.And(self.k0 >= 0, self.k0 < w.n))
        self.k0_seen = z3.BoolVal(False)
    def isinstance(self, eng, cls): return list in cls
    def getattr(self, eng, name): return E.SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append": raise Unsupported("columns.%s" % name)
        M.log_write(eng, self); self.columns.append(args[0])
    def visit(self, eng, part):
        M.log_write(eng, self)
        k = part.k
        if k is None: self.seen.add(part.name)
        else: self.k0_seen = z3.simplify(z3.Or(self.k0_seen, k == self.k0))
class Primary(M.LazyInstance):
    """the primary table"""
    def __init__(self, w): self.w, self.known = w, None
    def isinstance(self, eng, cls): return dict in cls
    def getitem(self, eng, k):
        if k == "table_name": return TableName(z3.Const("primary_name", I))
        if k == "columns": return Known(self)
        raise Unsupported("table[%r]" % (k,))
class Known(M.LazyInstance):
    def __init__(self, p): self.p = p
    def setitem(self, eng, k, v):
        M.log_write(eng, self.p)
        if not isinstance(k, ColumnName) or not isinstance(v, Column): raise Unsupported("columns of the table")
        self.p.known = True
class TableName(M.LazyInstance):
    def __init__(self, t): self.t = t
    def isinstance(self, eng, cls): return str in cls
    def truth(self, eng): return SBool(self.t != 0)
    def eq(self, eng, o): return SBool(self.t == o.t) if isinstance(o, TableName) else False
class ColumnName(M.LazyInstance):
    def isinstance(self, eng, cls): return str in cls
class Column(M.LazyInstance):
    """the column the expression is"""
    def isinstance(self, eng, cls): return dict in cls
    def getitem(self, eng, k):
        if k == "table_name": return TableName(z3.Const("column_table", I))
        if k == "column_name": return ColumnName()
        raise Unsupported("column[%r]" % (k,))
def s_collect(eng, a, k):
    """contract of the recursive call: the columns of a part are in the list"""
    e, w = a[1], eng.ghost["world"]
    if isinstance(e, Node): return NotImplemented
    if not isinstance(e, (Child, Arm)): raise Unsupported("parse_calculate of %r" % (e,))
    names = dict(zip(("config", "arguments", "primary_table", "calculate_fields"), a[2:])); names.update(k)
    eng.prove("the columns of the parts are collected in the same list and table", z3.BoolVal(names.get("calculate_fields") is w.fields and names.get("primary_table") is w.primary and names.get("config") is w.around[0] and names.get("arguments") is w.around[1]))
    w.fields.visit(eng, e)
def s_column(eng, a, k):
    if not isinstance(a[1], Node) or eng.ghost["world"].kind != "column": raise Unsupported("parse_column")
    return Column()
class EveryPart(LoopSpec):
    """k0: an arbitrary one of the parts"""
    def __init__(self): LoopSpec.__init__(self, self.i_part, self.h_part, seq=self.parts, modifies=lambda eng, fr, st: [eng.ghost["world"].fields])
    def wants(self, eng, it): return isinstance(it, (Items, Seq))
    def parts(self, eng, it):
        w = it.w
        if isinstance(it, Items): return w.n, lambda i: w.child("item", i)
        return z3.simplify(w.n - it.off), lambda i: w.child("item", z3.simplify(it.off + i)) if w.kind == "coalesce" else Arm(w, z3.simplify(it.off + i))
    def h_part(self, eng, fr, st, i): eng.ghost["world"].fields.k0_seen = eng.fresh("seen", B)
    def i_part(self, eng, fr, st, i):
        f = eng.ghost["world"].fields
        return [("the parts so far are collected", SBool(z3.Implies(f.k0 < i, z3.Or(f.k0_seen, constant(eng, f.w, f.k0)))))]
def constant(eng, w, k):
    return z3.BoolVal(False) if "case" in w.kind else eng.uf("item_is_constant", I, B)(k)
def s_fields(eng, a, k):
    w = a[0]; w.fields = Fields(w); return w.fields
def s_primary(eng, a, k):
    w = a[0]; w.primary = Primary(w); return w.primary
def s_all_collected(eng, a, k):
    w, node, f = a
    if w.kind == "column":
        own = z3.Or(z3.Const("column_table", I) == 0, z3.Const("column_table", I) == z3.Const("primary_name", I))
        return SBool(z3.And(z3.BoolVal(len(f.columns) == 1 and isinstance(f.columns[0], Column)), own == z3.BoolVal(w.primary.known is not None)))
    if f.columns: return False
    if w.kind in ("constant", "subquery", "all columns"): return True
    parts = {"is not": ("this",), "first value": ("only",)}.get(w.kind, PARTS.get(w.kind, ("this", "expression")))
    missing = [p for p in parts if p not in f.seen]
    ok = [z3.Const("%s_is_constant" % p, B) for p in missing]
    if w.kind in LISTS or "case" in w.kind or w.kind == "coalesce": ok.append(z3.Or(f.k0_seen, constant(eng, w, f.k0)))
    return SBool(z3.And(ok + [z3.BoolVal(True)]))
CONTRACT_SUMMARIES["columns_read"] = {**TERM, Compiler.parse_calculate: s_collect, Compiler.parse_column: s_column, C.fields_of: s_fields, C.primary_of: s_primary, C.all_collected: s_all_collected}
LOOPS.update({("syncanysql.compiler:Compiler.parse_calculate", i): EveryPart() for i in range(8)})
SETUP["columns_read"] = setup
# ---- the aggregates within an expression
def s_within(eng, a, k):
    """contract of the recursive call: the aggregates of a part are in the list"""
    e, w = a[1], eng.ghost["world"]
    if isinstance(e, Node): return NotImplemented
    if isinstance(e, Named): return
    if not isinstance(e, (Child, Arm)): raise Unsupported("parse_aggregate of %r" % (e,))
    names = dict(zip(("config", "arguments", "found"), a[2:])); names.update({"found" if n.endswith("expressions") else n: x for n, x in k.items()})
    eng.prove("the aggregates of the parts are collected in the same list", z3.BoolVal(names.get("found") is w.fields and names.get("config") is w.around[0] and names.get("arguments") is w.around[1]))
    w.fields.visit(eng, e)
def s_find(eng, a, k): eng.raise_(CP.CalculaterUnknownException, a[0])
class EveryChild(EveryPart):
    def i_part(self, eng, fr, st, i):
        f = eng.ghost["world"].fields
        return [("the parts so far are searched", SBool(z3.Implies(f.k0 < i, f.k0_seen)))]
def s_all_aggregates(eng, a, k):
    w, node, f = a
    own = w.kind in AGGREGATES or w.kind == "aggregate by name"
    if len(f.columns) != (1 if own else 0) or own and f.columns[0] is not node: return False
    if own or w.kind in ("constant", "subquery", "all columns", "column"): return True
    parts = {"is not": ("this",), "first value": ("only",)}.get(w.kind, PARTS.get(w.kind, ("this", "expression")))
    if [p for p in parts if p not in f.seen]: return False
    return SBool(f.k0_seen) if w.kind in LISTS or "case" in w.kind or w.kind == "coalesce" else True
CONTRACT_SUMMARIES["aggregates_within"] = {**TERM, Compiler.parse_aggregate: s_within, CP.find_aggregate_calculater: s_find, C.fields_of: s_fields, C.all_aggregates: s_all_aggregates}
LOOPS.update({("syncanysql.compiler:Compiler.parse_aggregate", i): EveryChild() for i in range(8)})
SETUP["aggregates_within"] = setup
