"""Prover side of C01: a script is its length and an arbitrary character at every position; what has been read is a
fold of the lexer over the characters (the contract's reference loop is itself proved to compute that fold)."""
from proofs.common import *
from contracts import C01 as C
from pyvc.engine import SymMethod
from syncanysql.parser import SqlParser, SqlSegment
ASSUMPTIONS = ["indexing and slicing a text give its characters at those positions (Python)"]
QS = ["'", '"', "`"]
MODES = {"": -1, "line": -2, "open": -3, "block": -4, "close": -5}
lit = lambda c: z3.IntVal(MODES[c] if c in MODES else ord(c))
def code(x): return x.t if isinstance(x, Char) else lit(x)
class Char(M.LazyInstance):
    """one character of the script, by its code"""
    def __init__(self, t): self.t = t
    def eq(self, eng, o):
        if isinstance(o, str): return M.mkbool(self.t == lit(o)) if o in MODES or len(o) == 1 else False
        if isinstance(o, Char): return M.mkbool(self.t == o.t)
        raise Unsupported("comparison of a character")
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "isalpha": raise Unsupported("character.%s" % name)
        return M.mkbool(alpha(eng, self.t))
class Piece(M.LazyInstance):
    def __init__(self, a, b): self.a, self.b = a, b
class Statement(M.LazyInstance):
    def __init__(self, t): self.t = t
class Found(M.LazyInstance):
    """statements found so far"""
    def __init__(self, t): self.t = t
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append" or not isinstance(args[0], Statement): raise Unsupported("list.%s" % name)
        M.log_write(eng, self, name)
        self.t = eng.uf("and_then", I, I, I)(self.t, args[0].t)
NONE = z3.IntVal(0)
def found(l):
    if isinstance(l, Found): return l.t
    if l == []: return NONE
    raise Unsupported("list of statements")
class Text(M.LazyInstance):
    def __init__(self, eng, name):
        self.eng, self.name, self.n = eng, name, eng.fresh("length", I)
        eng.assume(self.n >= 0)
    def ch(self, i): return self.eng.uf("char_" + self.name, I, I)(z3.simplify(i))
    def len(self, eng): return SInt(self.n)
    def getitem(self, eng, k):
        n = self.n
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported("step")
            a, b = [eng.resolve(x) for x in (k.start, k.stop)]
            a = z3.IntVal(0) if a is None else int_of(a)
            b = n if b is None else int_of(b)
            d = z3.simplify(b - a)
            if not eng.entailed(a >= 0): raise Unsupported("negative slice bound")
            if z3.is_int_value(d): return Look(self, a, max(0, d.as_long()))
            if not eng.entailed(z3.And(a <= b, b <= n)): raise Unsupported("slice outside the text")
            return Piece(z3.simplify(a), z3.simplify(b))
        i = int_of(k)
        if not eng.branch(z3.And(i >= 0, i < n)): 
            if eng.branch(z3.And(i < 0, i >= -n)): raise Unsupported("negative index")
            eng.raise_(IndexError, "string index out of range")
        return Char(self.ch(i))
    def getattr(self, eng, name):
        if name not in ("startswith",): raise Unsupported("str.%s of a script" % name)
        return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        pos = int_of(args[1]) if len(args) > 1 else z3.IntVal(0)
        if len(args) > 2 or not isinstance(args[0], (str, tuple)) or not eng.entailed(pos >= 0): raise Unsupported("startswith")
        return M.mkbool(z3.Or([z3.And([pos + len(w) <= self.n] + [self.ch(pos + j) == lit(c) for j, c in enumerate(w)]) for w in ([args[0]] if isinstance(args[0], str) else args[0])]))
    def contains(self, eng, x): raise Unsupported("in")
    def concretize(self, eng, m):
        n = min(24, m.eval(self.n, model_completion=True).as_long())
        return "".join(chr(max(9, min(0xffff, m.eval(self.ch(z3.IntVal(i)), model_completion=True).as_long()))) for i in range(n))
class Look(M.LazyInstance):
    """the (at most) k characters from position a"""
    def __init__(self, t, a, k): self.t, self.a, self.k = t, a, k
    def eq(self, eng, o):
        if not isinstance(o, str): raise Unsupported("comparison of a slice")
        n, m = self.t.n, len(o)
        if m > self.k: return False
        end = (self.a + m <= n) if m == self.k else (self.a + m == n) if m else (self.a >= n)
        return M.mkbool(z3.And([end] + [self.t.ch(self.a + j) == lit(c) for j, c in enumerate(o)]))
def alpha(eng, c): return eng.uf("isalpha", I, B)(c)
def seg(eng, a, k):
    if not isinstance(a[0], Piece): raise Unsupported("statement text")
    return Statement(eng.uf("segment", I, I, I, I)(a[0].a, a[0].b, int_of(a[1])))
NAMES = ["mode", "escaped", "start", "at", "line", "out"]
def fold(eng):
    if "fold" in eng.ghost: return eng.ghost["fold"]
    t = eng.inputs[0][1]
    def step(i, s):
        mode, esc, start, at, line, out = s
        c, d, more = t.ch(i), t.ch(i + 1), i + 1 < t.n
        two = lambda x, y: z3.And(more, c == lit(x), d == lit(y))
        it = lambda x: mode == lit(x)
        quote = z3.Or([c == lit(q) for q in QS])
        after = z3.If(it(""), z3.If(quote, c, z3.If(z3.Or(c == lit("#"), two("-", "-")), lit("line"), z3.If(two("/", "*"), lit("open"), lit("")))),
                z3.If(it("line"), z3.If(c == lit("\n"), lit(""), lit("line")), z3.If(it("open"), lit("block"), z3.If(it("block"), z3.If(two("*", "/"), lit("close"), lit("block")),
                z3.If(it("close"), lit(""), z3.If(z3.And(z3.Not(esc), c == mode, c != lit("\\")), lit(""), mode))))))
        in_quote = z3.And([mode != lit(x) for x in ("", "line", "open", "block", "close")])
        esc2 = z3.And(in_quote, z3.Not(esc), c == lit("\\"))
        plain = z3.And(it(""), after == lit(""))
        end = z3.And(plain, c == lit(";"))
        begin = z3.And(plain, c != lit(";"), start < 0, z3.Or(alpha(eng, c), c == lit("(")))
        out2 = z3.If(z3.And(end, start >= 0), eng.uf("and_then", I, I, I)(out, eng.uf("segment", I, I, I, I)(start, i, at)), out)
        return [after, esc2, z3.If(end, z3.IntVal(-1), z3.If(begin, i, start)), z3.If(begin, line, at), z3.If(c == lit("\n"), line + 1, line), out2]
    f = Fold(eng, "lexed", [lit(""), z3.BoolVal(False), z3.IntVal(-1), z3.IntVal(0), z3.IntVal(1), NONE], step, t.n)
    eng.ghost["fold"] = f
    # at every position: outside quotes nothing is escaped, a started statement began earlier (lemma, by induction)
    def fact(i, s): return z3.And(z3.Implies(z3.Or([s[0] == lit(x) for x in ("", "line", "open", "block", "close")]), z3.Not(s[1])), s[2] >= -1, s[2] <= z3.If(i > 0, i - 1, -1), z3.Or([s[0] == lit(x) for x in ["", "line", "open", "block", "close"] + QS]))
    k = eng.fresh("k", I); s0 = [eng.fresh("s_" + n, x.sort()) for n, x in zip(NAMES, f.state(z3.IntVal(0)))]
    eng.prove("lemma: the lexer state is well formed (initially)", fact(z3.IntVal(0), f.state(z3.IntVal(0))))
    eng.prove("lemma: the lexer state is well formed (induction step)", z3.Implies(z3.And(k >= 0, k < t.n, fact(k, s0)), fact(k + 1, step(k, s0))))
    f.fact = lambda i: eng.axiom(("wf", z3.simplify(i).get_id()), lambda: z3.Implies(z3.And(i >= 0, i <= t.n), fact(i, f.state(i))))
    return f
def touch(eng, f, *at):
    for i in at:
        i = z3.simplify(i)
        f.at(i); f.fact(i)
def st(f, i): return dict(zip(NAMES, f.state(z3.simplify(i))))

# the reference loop computes the fold
def opt(v): return z3.IntVal(-1) if v is None else int_of(v)
def ref_inv(eng, fr, s_, i):
    f = fold(eng); touch(eng, f, i); v = st(f, i); l = fr.locals
    return [("mode", code(l["mode"]) == v["mode"]), ("escaped", bool_of(l["escaped"]) == v["escaped"]), ("start", opt(l["start"]) == v["start"]), ("line of the start", z3.Or(v["start"] < 0, int_of(l["at"]) == v["at"])), ("line", int_of(l["line"]) == v["line"]), ("statements", found(l["found"]) == v["out"])]
def ref_havoc(eng, fr, s_, i):
    f = fold(eng); touch(eng, f, i); v = st(f, i); l = fr.locals
    l["mode"], l["escaped"], l["at"], l["line"], l["found"] = None, SBool(v["escaped"]), SInt(v["at"]), SInt(v["line"]), Found(v["out"])
    l["mode"] = Char(v["mode"])
    l["start"] = None if eng.branch(v["start"] < 0) else SInt(v["start"])
REF = LoopSpec(ref_inv, ref_havoc, modifies=lambda eng, fr, s_: [fr.locals["found"]], name=" of the reference")

# the real loops
def at(eng, fr): return int_of(eng.getattr(fr.locals["self"], "index"))
def position(eng, fr, f, i):
    return [("position", z3.And(i >= 0, i <= f.n)), ("line", int_of(eng.getattr(fr.locals["self"], "lineno")) == st(f, i)["line"])]
def move(eng, fr, f):
    p, i = fr.locals["self"], eng.fresh("index", I)
    eng.setattr(p, "index", SInt(i)); eng.setattr(p, "lineno", SInt(st(f, i)["line"]))
    eng.assume(z3.And(i >= 0, i <= f.n))
    touch(eng, f, i, i + 1)
    return i
def variant(eng, fr, s_): return fold(eng).n - at(eng, fr)
mod = lambda eng, fr, s_: [fr.locals["self"]]
def split_inv(eng, fr, s_, _):
    f, i, l = fold(eng), at(eng, fr), fr.locals
    touch(eng, f, i); v = st(f, i)
    return position(eng, fr, f, i) + [("outside quotes and comments", z3.Or(v["mode"] == lit(""), z3.And(i == f.n, v["mode"] == lit("line")))), ("start", opt(l["start_index"]) == v["start"]), ("line of the start", z3.Or(v["start"] < 0, int_of(l["lineno"]) == v["at"])), ("statements", found(l["segments"]) == v["out"])]
def split_havoc(eng, fr, s_, _):
    f = fold(eng); i = move(eng, fr, f); v = st(f, i); l = fr.locals
    touch(eng, f, i + 2)
    l["segments"], l["lineno"] = Found(v["out"]), SInt(v["at"])
    l["start_index"] = None if eng.branch(v["start"] < 0) else SInt(v["start"])
def inside(kind):
    """since the loop started the mode has not changed, and so no statement has started or ended"""
    def entry(eng, fr, s_):
        s_["from"] = z3.simplify(at(eng, fr)); s_["cs"] = fr.locals.get("cs")
        touch(eng, fold(eng), s_["from"], s_["from"] - 1, s_["from"] + 1)
    def inv(eng, fr, s_, _):
        f, i = fold(eng), at(eng, fr); touch(eng, f, i)
        v, w = st(f, i), st(f, s_["from"])
        r = position(eng, fr, f, i) + [("reading on", i >= s_["from"]), ("no statement ends inside", z3.And(v["out"] == w["out"], v["start"] == w["start"], v["at"] == w["at"]))]
        if kind == "quote": return r + [("inside the quote", z3.And(v["mode"] == code(fr.locals["c"]), z3.Or([v["mode"] == lit(q) for q in QS])))]
        m = z3.Or(v["mode"] == lit("line"), z3.And(i == s_["from"], v["mode"] == lit(""))) if s_["cs"] == "\n" else v["mode"] == lit("block")
        return r + [("inside the comment", m)]
    def havoc(eng, fr, s_, _):
        f = fold(eng); i = move(eng, fr, f); touch(eng, f, i + 1, i + 2)
    return LoopSpec(inv, havoc, modifies=mod, entry=entry, variant=variant, name=" (%s)" % kind)
def back_inv(eng, fr, s_, _):
    f, i, b = fold(eng), at(eng, fr), int_of(fr.locals["backslash"]); touch(eng, f, b, b + 1, i)
    e = lambda k: st(f, k)["escaped"]
    return [("before the character", z3.And(b >= -1, b < i)), ("only backslashes passed", e(i) == z3.If((i - 1 - b) % 2 == 0, e(b + 1), z3.Not(e(b + 1)))), ("inside the quote", st(f, b + 1)["mode"] == code(fr.locals["c"]))]
def back_havoc(eng, fr, s_, _):
    b = eng.fresh("backslash", I); fr.locals["backslash"] = SInt(b); f = fold(eng); touch(eng, f, b, b - 1)
BACK = LoopSpec(back_inv, back_havoc, modifies=lambda eng, fr, s_: [], variant=lambda eng, fr, s_: int_of(fr.locals["backslash"]) + 1, name=" (backslashes)")
LOOPS = {("contracts.C01:statements", 0): REF, ("syncanysql.parser:SqlParser.split", 0): LoopSpec(split_inv, split_havoc, modifies=lambda eng, fr, s_: [fr.locals["self"], fr.locals["segments"]], variant=variant),
    ("syncanysql.parser:SqlParser.skip_escape", 0): inside("quote"), ("syncanysql.parser:SqlParser.skip_escape", 1): BACK, ("syncanysql.parser:SqlParser.read_util", 0): inside("comment")}
SYMS = {"script": lambda eng, name: Text(eng, name)}
CONTRACT_SUMMARIES = {"splitting": {SqlSegment: seg, C.statement: seg, C.same_statements: lambda eng, a, k: M.mkbool(found(a[0]) == found(a[1]))}}
