"""Prover side of C21: a text is its length and an arbitrary character at every position; what the lexer has read is a fold
over the characters (the contract's reference loop is itself proved to compute that fold).  On top of it, a text with quoted
names is the sequence of those names and the text around them."""
from proofs.common import *
from contracts import C21 as C
from pyvc.engine import SymMethod
from syncanysql.parser import SqlParser
from syncanysql.compiler import Compiler
ASSUMPTIONS = ["indexing and slicing a text give its characters at those positions (Python)"]
MODES = {"": -1, "line": -2, "open": -3, "block": -4, "close": -5, "pair": -6}
QS = ["'", '"', "`"]
lit = lambda c: z3.IntVal(MODES[c] if c in MODES else ord(c))
def code(x): return x.t if isinstance(x, Char) else lit(x)
class Char(M.LazyInstance):
    """one character, by its code"""
    is_one = True
    def __init__(self, t): self.t = t
    def ordof(self, eng): return SInt(self.t)
    def binop(self, eng, op, o, right): return Str(NONE, [self.t]).binop(eng, op, o, right)
    def isinstance(self, eng, cls): return str in cls
    def eq(self, eng, o):
        if isinstance(o, str): return M.mkbool(self.t == lit(o)) if o in MODES or len(o) == 1 else False
        if isinstance(o, Char): return M.mkbool(self.t == o.t)
        raise Unsupported("comparison of a character")
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name in ("isalpha", "isdigit") and not args: return M.mkbool(eng.uf(name, I, B)(self.t))
        raise Unsupported("character.%s" % name)
class Piece(M.LazyInstance):
    """text[a:b], a <= b"""
    def __init__(self, a, b): self.a, self.b = a, b
    def eq(self, eng, o):
        if isinstance(o, Piece): return M.mkbool(z3.And(self.a == o.a, self.b == o.b))
        raise Unsupported("comparison of a part of the text")
class Text(M.LazyInstance):
    def __init__(self, eng, name):
        self.eng, self.name, self.n = eng, name, eng.fresh("length", I)
        eng.assume(self.n >= 0)
    def ch(self, i): return self.eng.uf("char_" + self.name, I, I)(z3.simplify(i))
    def len(self, eng): return SInt(self.n)
    def truth(self, eng): return M.mkbool(self.n > 0)
    def getitem(self, eng, k):
        n = self.n
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported("step")
            a, b = [eng.resolve(x) for x in (k.start, k.stop)]
            a = z3.IntVal(0) if a is None else int_of(a)
            b = n if b is None else int_of(b)
            d = z3.simplify(b - a)
            if not eng.entailed(a >= 0): raise Unsupported("negative slice bound")
            if z3.is_int_value(d): return Look(self, a, max(0, d.as_long()))
            if not eng.entailed(z3.And(a <= b, b <= n)): raise Unsupported("slice outside the text")
            return Piece(z3.simplify(a), z3.simplify(b))
        i = int_of(k)
        if not eng.branch(z3.And(i >= 0, i < n)):
            if eng.branch(z3.And(i < 0, i >= -n)): raise Unsupported("negative index")
            eng.raise_(IndexError, "string index out of range")
        return Char(self.ch(i))
    def getattr(self, eng, name):
        if name not in ("startswith",): raise Unsupported("str.%s of a text" % name)
        return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        pos = int_of(args[1]) if len(args) > 1 else z3.IntVal(0)
        if len(args) > 2 or not isinstance(args[0], (str, tuple)) or not eng.entailed(pos >= 0): raise Unsupported("startswith")
        return M.mkbool(z3.Or([z3.And([pos + len(w) <= self.n] + [self.ch(pos + j) == lit(c) for j, c in enumerate(w)]) for w in ([args[0]] if isinstance(args[0], str) else args[0])]))
    def contains(self, eng, x): raise Unsupported("in")
    def concretize(self, eng, m):
        n = min(24, m.eval(self.n, model_completion=True).as_long())
        return "".join(chr(max(9, min(0xffff, m.eval(self.ch(z3.IntVal(i)), model_completion=True).as_long()))) for i in range(n))
class Look(M.LazyInstance):
    """the (at most) k characters from position a"""
    def __init__(self, t, a, k): self.t, self.a, self.k = t, a, k
    def eq(self, eng, o):
        if not isinstance(o, str): raise Unsupported("comparison of a slice")
        n, m = self.t.n, len(o)
        if m > self.k: return False
        end = (self.a + m <= n) if m == self.k else (self.a + m == n) if m else (self.a >= n)
        return M.mkbool(z3.And([end] + [self.t.ch(self.a + j) == lit(c) for j, c in enumerate(o)]))

# ---- reading: where the next quoted name is
NAMES = ["mode", "escaped", "start", "end"]
def fold(eng):
    if "fold" in eng.ghost: return eng.ghost["fold"]
    t, at = eng.inputs[0][1], int_of(eng.inputs[1][1])
    def step(i, s):
        mode, esc, start, end = s
        c, d, more = t.ch(i), t.ch(i + 1), i + 1 < t.n
        two = lambda x, y: z3.And(more, c == lit(x), d == lit(y))
        it = lambda x: mode == lit(x)
        quote = z3.Or([c == lit(q) for q in QS])
        after = z3.If(it(""), z3.If(quote, c, z3.If(z3.Or(c == lit("#"), two("-", "-")), lit("line"), z3.If(two("/", "*"), lit("open"), lit("")))),
                z3.If(it("line"), z3.If(c == lit("\n"), lit(""), lit("line")), z3.If(it("open"), lit("block"), z3.If(it("block"), z3.If(two("*", "/"), lit("close"), lit("block")),
                z3.If(it("close"), lit(""), z3.If(it("pair"), lit("`"), z3.If(it("`"), z3.If(c != lit("`"), lit("`"), z3.If(two("`", "`"), lit("pair"), lit(""))),
                z3.If(z3.And(z3.Not(esc), c == mode, c != lit("\\")), lit(""), mode))))))))
        esc2 = z3.And(z3.Or(it("'"), it('"')), z3.Not(esc), c == lit("\\"))
        stay = z3.Or(i < at, end >= 0)
        new = [after, esc2, z3.If(z3.And(it(""), after == lit("`")), i + 1, start), z3.If(z3.And(it("`"), after == lit("")), i, end)]
        return [z3.If(stay, x, y) for x, y in zip(s, new)]
    f = Fold(eng, "lexed", [lit(""), z3.BoolVal(False), z3.IntVal(-1), z3.IntVal(-1)], step, t.n, stopped=lambda s: s[3] >= 0)
    eng.ghost["fold"] = f
    # at every position: only quoted texts have escapes, a name began earlier, an ended name lies before (lemma, by induction)
    def fact(i, s):
        quoted = z3.Or(s[0] == lit("'"), s[0] == lit('"'))
        return z3.And(z3.Implies(z3.Not(quoted), z3.Not(s[1])), z3.Or([s[0] == lit(x) for x in list(MODES) + QS]), z3.Implies(i <= at, z3.And(s[0] == lit(""), s[2] == -1, s[3] == -1)),
            s[2] >= -1, s[2] <= i, s[3] >= -1, z3.Or(s[3] == -1, s[3] < i), z3.Implies(z3.Or(s[3] >= 0, s[0] == lit("`"), s[0] == lit("pair")), z3.And(s[2] >= 1, s[2] <= i)), z3.Implies(s[3] >= 0, z3.And(s[0] == lit(""), s[2] <= s[3])), z3.Implies(s[0] == lit("pair"), s[2] < i))
    k = eng.fresh("k", I); s0 = [eng.fresh("s_" + n, x.sort()) for n, x in zip(NAMES, f.state(z3.IntVal(0)))]
    eng.assume(at >= 0)
    eng.prove("lemma: the lexer state is well formed (initially)", fact(z3.IntVal(0), f.state(z3.IntVal(0))))
    eng.prove("lemma: the lexer state is well formed (induction step)", z3.Implies(z3.And(k >= 0, k < t.n, fact(k, s0)), fact(k + 1, step(k, s0))))
    f.fact = lambda i: eng.axiom(("wf", z3.simplify(i).get_id()), lambda: z3.Implies(z3.And(i >= 0, i <= t.n), fact(i, f.state(i))))
    return f
def touch(eng, f, *at):
    for i in at:
        i = z3.simplify(i)
        f.at(i); f.fact(i); f.stable(i)
def st(f, i): return dict(zip(NAMES, f.state(z3.simplify(i))))
def opt(v): return z3.IntVal(-1) if v is None else int_of(v)
def maybe(eng, t): return None if eng.branch(t < 0) else SInt(t)
def ref_inv(eng, fr, s_, i):
    f = fold(eng); touch(eng, f, i); v = st(f, i); l = fr.locals
    return [("mode", code(l["mode"]) == v["mode"]), ("escaped", bool_of(l["escaped"]) == v["escaped"]), ("start", opt(l["start"]) == v["start"]), ("end", opt(l["end"]) == v["end"])]
def ref_havoc(eng, fr, s_, i):
    f = fold(eng); touch(eng, f, i); v = st(f, i); l = fr.locals
    l["mode"], l["escaped"], l["start"], l["end"] = Char(v["mode"]), SBool(v["escaped"]), maybe(eng, v["start"]), maybe(eng, v["end"])
def at(eng, fr): return int_of(eng.getattr(fr.locals["self"], "index"))
def position(eng, fr, f, i): return [("position", z3.And(i >= int_of(eng.inputs[1][1]), i <= f.n))]
def move(eng, fr, f):
    p, i = fr.locals["self"], eng.fresh("index", I)
    eng.setattr(p, "index", SInt(i)); eng.setattr(p, "lineno", SInt(eng.fresh("lineno", I)))
    eng.assume(z3.And(i >= 0, i <= f.n))
    touch(eng, f, i, i + 1)
    return i
def variant(eng, fr, s_): return fold(eng).n - at(eng, fr)
mod = lambda eng, fr, s_: [fr.locals["self"]]
def outside(eng, f, i):
    v = st(f, i)
    return z3.And(v["end"] < 0, z3.Or(v["mode"] == lit(""), z3.And(v["mode"] == lit("line"), i < f.n, eng.inputs[0][1].ch(i) == lit("\n"))))
def segment_inv(eng, fr, s_, _):
    f, i = fold(eng), at(eng, fr); touch(eng, f, i)
    return position(eng, fr, f, i) + [("between names, outside quotes and comments", outside(eng, f, i))]
def segment_havoc(eng, fr, s_, _):
    f = fold(eng); i = move(eng, fr, f); touch(eng, f, i + 2, f.n)
def doubled_inv(eng, fr, s_, _):
    f, i = fold(eng), at(eng, fr); touch(eng, f, i, i + 1); v = st(f, i)
    return position(eng, fr, f, i) + [("at a back-quote of the name", z3.And(v["mode"] == lit("`"), v["end"] < 0, i < f.n, eng.inputs[0][1].ch(i) == lit("`"), v["start"] == int_of(fr.locals["start_index"]), i >= v["start"]))]
def doubled_havoc(eng, fr, s_, _):
    f = fold(eng); i = move(eng, fr, f); touch(eng, f, i + 2, f.n)
def inside(kind):
    """since the loop started the mode has not changed, and so no name has started or ended"""
    def entry(eng, fr, s_):
        s_["from"] = z3.simplify(at(eng, fr)); s_["cs"] = fr.locals.get("cs")
        touch(eng, fold(eng), s_["from"], s_["from"] - 1, s_["from"] + 1, fold(eng).n)
    def inv(eng, fr, s_, _):
        f, i = fold(eng), at(eng, fr); touch(eng, f, i)
        v, w = st(f, i), st(f, s_["from"])
        r = position(eng, fr, f, i) + [("reading on", i >= s_["from"]), ("no name begins or ends inside", z3.And(v["end"] == -1, v["start"] == w["start"]))]
        if kind == "quote": return r + [("inside the quote", z3.And(v["mode"] == code(fr.locals["c"]), z3.Or(v["mode"] == lit("'"), v["mode"] == lit('"'))))]
        cs = s_["cs"]
        m = z3.Or(v["mode"] == lit("line"), z3.And(i == s_["from"], v["mode"] == lit(""))) if cs == "\n" else v["mode"] == lit("block") if cs == "*/" else v["mode"] == lit("`")
        return r + [("inside the comment or name", m)]
    def havoc(eng, fr, s_, _):
        f = fold(eng); i = move(eng, fr, f); touch(eng, f, i + 1, i + 2)
    return LoopSpec(inv, havoc, modifies=mod, entry=entry, variant=variant, name=" (%s)" % kind)
def back_inv(eng, fr, s_, _):
    f, i, b = fold(eng), at(eng, fr), int_of(fr.locals["backslash"]); touch(eng, f, b, b + 1, i)
    e = lambda k: st(f, k)["escaped"]
    return [("before the character", z3.And(b >= -1, b < i)), ("only backslashes passed", e(i) == z3.If((i - 1 - b) % 2 == 0, e(b + 1), z3.Not(e(b + 1)))), ("inside the quote", st(f, b + 1)["mode"] == code(fr.locals["c"])), ("no name ends", st(f, b + 1)["end"] < 0)]
def back_havoc(eng, fr, s_, _):
    b = eng.fresh("backslash", I); fr.locals["backslash"] = SInt(b); f = fold(eng); touch(eng, f, b, b - 1)
BACK = LoopSpec(back_inv, back_havoc, modifies=lambda eng, fr, s_: [], variant=lambda eng, fr, s_: int_of(fr.locals["backslash"]) + 1, name=" (backslashes)")
PARSER = "syncanysql.parser:SqlParser."
LOOPS = {("contracts.C21:next_name", 0): LoopSpec(ref_inv, ref_havoc, modifies=lambda eng, fr, s_: [], name=" of the reference"),
    (PARSER + "read_segment", 0): LoopSpec(segment_inv, segment_havoc, modifies=mod, variant=variant), (PARSER + "read_segment", 1): LoopSpec(doubled_inv, doubled_havoc, modifies=mod, variant=variant, name=" (doubled quotes)"),
    (PARSER + "skip_escape", 0): inside("quote"), (PARSER + "skip_escape", 1): BACK, (PARSER + "read_util", 0): inside("comment or name")}
SYMS = {"script": lambda eng, name: Text(eng, name)}
CONTRACT_SUMMARIES = {}

# ---- a text as the names in it and the text around them
NONE = z3.IntVal(0)
class Named(M.LazyInstance):
    """a text with n quoted names: the k-th is text[s(k):e(k)] (contract reading)"""
    def __init__(self, eng, name):
        self.eng, self.n, self.size = eng, eng.fresh("n_names", I), eng.fresh("length", I)
        self.s, self.e, self.raw = eng.uf("name_start", I, I), eng.uf("name_end", I, I), eng.uf("raw_name", I, I)
        eng.assume(z3.And(self.n >= 0, self.size >= 0))
        eng.ghost["named"], eng.ghost["k"] = self, z3.IntVal(0)
    def prev(self, k): return z3.If(k == 0, z3.IntVal(0), self.e(k - 1))
    def fact(self, k):
        k = z3.simplify(k)
        self.eng.axiom(("names", k.get_id()), lambda: z3.And(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.prev(k) < self.s(k), self.prev(k) >= 0, self.s(k) <= self.e(k), self.e(k) < self.size)),
            z3.Implies(z3.And(k > 0, k <= self.n), z3.And(self.e(k - 1) >= 0, self.e(k - 1) < self.size))))
    def len(self, eng): return SInt(self.size)
    def getitem(self, eng, k):
        if not isinstance(k, slice) or k.step is not None: raise Unsupported("character of the text")
        a, b = [eng.resolve(x) for x in (k.start, k.stop)]
        a, b = z3.IntVal(0) if a is None else int_of(a), self.size if b is None else int_of(b)
        if not eng.entailed(z3.And(a >= 0, a <= b, b <= self.size)): raise Unsupported("slice outside the text")
        return Piece(z3.simplify(a), z3.simplify(b))
    def isinstance(self, eng, cls): return str in cls
    def concretize(self, eng, m): return None
def text_id(eng, x):
    """the identity of a text"""
    if isinstance(x, str): return eng.uf("constant_text", I, I)(z3.IntVal(hash_of(x))) if x else NONE
    if isinstance(x, Piece): return eng.uf("text_part", I, I, I)(x.a, x.b)
    if isinstance(x, Word): return x.t
    if isinstance(x, Prefix): return z3.If(x.k == word_len(eng, x.w), x.w, eng.uf("prefix", I, I, I)(x.w, x.k))
    if isinstance(x, Built): return x.id(eng)
    raise Unsupported("text %r" % (x,))
CONSTS = []
def hash_of(x):
    if x not in CONSTS: CONSTS.append(x)
    return CONSTS.index(x)
def word_len(eng, w):
    f = eng.uf("name_length", I, I)
    eng.axiom(("name_length", w.get_id()), lambda: f(w) >= 0)
    return f(w)
def allowed(eng, w, i):
    c = eng.uf("name_char", I, I, I)(w, i)
    return z3.Or(eng.uf("isalpha", I, B)(c), eng.uf("isdigit", I, B)(c), c == ord("_"))
def first(eng, w):
    """position of the first character that needs quoting (the length if there is none)"""
    f = eng.uf("first_odd", I, I)(w); n = word_len(eng, w)
    eng.axiom(("first_odd", w.get_id()), lambda: z3.And(f >= 0, f <= n, z3.Implies(f < n, z3.Not(allowed(eng, w, f))), is_plain(eng, w) == (f == n)))
    return f
def before_first(eng, w, i):
    f = first(eng, w)
    eng.axiom(("before_odd", w.get_id(), z3.simplify(i).get_id()), lambda: z3.Implies(z3.And(i >= 0, i < f), allowed(eng, w, i)))
def is_plain(eng, t): return eng.uf("plain_name", I, B)(t)
class Word(M.LazyInstance):
    """a name, by its identity"""
    def __init__(self, t): self.t = z3.simplify(t)
    def eq(self, eng, o):
        if isinstance(o, Prefix): return o.eq(eng, self)
        return M.mkbool(self.t == text_id(eng, o))
    def isinstance(self, eng, cls): return str in cls
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args): return Word(replaced(eng, self.t, *args))
        raise Unsupported("str.%s of a name" % name)
    def len(self, eng): return SInt(word_len(eng, self.t))
    def binop(self, eng, op, o, right): return Built([Prefix(self.t, word_len(eng, self.t))]).binop(eng, op, o, right)
    def concretize(self, eng, m): return None
def replaced(eng, t, a, b): return eng.uf("replaced", I, I, I, I)(t, z3.IntVal(hash_of(a)), z3.IntVal(hash_of(b)))
class Prefix(M.LazyInstance):
    """the first k characters of a name"""
    def __init__(self, w, k): self.w, self.k = w, k
    def eq(self, eng, o):
        if isinstance(o, Word) and z3.eq(o.t, self.w): return M.mkbool(self.k == word_len(eng, self.w))
        raise Unsupported("comparison of a part of a name")
    def binop(self, eng, op, o, right): return Built([self]).binop(eng, op, o, right)
class Digits(M.LazyInstance):
    """the digits of a new unique number"""
    def __init__(self, t): self.t = t
    def binop(self, eng, op, o, right): return Built([self]).binop(eng, op, o, right)
class Built(M.LazyInstance):
    """a concatenation"""
    def __init__(self, parts): self.parts, self.t = parts, None
    def binop(self, eng, op, o, right):
        if op != "Add": raise Unsupported("operation on a text")
        o = o.parts if isinstance(o, Built) else [o]
        return Built(o + self.parts if right else self.parts + o)
    def id(self, eng):
        if self.t is not None: return self.t
        self.t = eng.fresh("built", I)
        def plain(p):
            if isinstance(p, Prefix): return p.k <= first(eng, p.w)
            if isinstance(p, Digits): return z3.BoolVal(True)
            if isinstance(p, str): return z3.BoolVal(all(c.isalnum() or c == "_" for c in p))
            if isinstance(p, Word): return is_plain(eng, p.t)
            raise Unsupported("part of a text")
        eng.assume(is_plain(eng, self.t) == z3.And([plain(p) for p in self.parts]))
        if any(isinstance(p, Digits) for p in self.parts):     # unique: no text that was there before
            for m in eng.ghost["maps"]: eng.assume(z3.Not(z3.Select(m.has, self.t)))
            for x in eng.ghost["skolem"]: eng.assume(self.t != x)
        return self.t
    def eq(self, eng, o): return M.mkbool(self.id(eng) == text_id(eng, o))
class Unique(M.LazyInstance):
    def __init__(self, t): self.t = t
    def getattr(self, eng, name):
        if name == "int": return UniqueInt(self.t)
        if name == "hex": return Digits(self.t)
        raise Unsupported("uuid.%s" % name)
class UniqueInt(M.LazyInstance):
    def __init__(self, t): self.t = t
    def strof(self, eng): return Digits(self.t)
class NameMap(M.LazyInstance):
    """a dictionary from texts to texts"""
    def __init__(self, has, val): self.has, self.val = has, val
    def contains(self, eng, k): return SBool(z3.Select(self.has, text_id(eng, k)))
    def getitem(self, eng, k):
        k = text_id(eng, k)
        if not eng.branch(z3.Select(self.has, k)): eng.raise_(KeyError, "missing")
        return Word(z3.Select(self.val, k))
    def setitem(self, eng, k, v):
        v, k = text_id(eng, v), text_id(eng, k)
        M.log_write(eng, self, None)
        self.has, self.val = z3.Store(self.has, k, z3.BoolVal(True)), z3.Store(self.val, k, v)
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "get":
            if eng.branch(z3.Select(self.has, text_id(eng, args[0]))): return self.getitem(eng, args[0])
            return args[1] if len(args) > 1 else None
        if name == "setdefault" and len(args) == 2:
            if not eng.branch(z3.Select(self.has, text_id(eng, args[0]))): self.setitem(eng, args[0], args[1])
            return self.getitem(eng, args[0])
        raise Unsupported("dict.%s" % name)
    def concretize(self, eng, m): return None
BA, IA = z3.ArraySort(I, B), z3.ArraySort(I, I)
def compiler(eng, name):
    c = object.__new__(Compiler)
    c.mapping, c.placeholders = [NameMap(eng.fresh(n + "_has", BA), eng.fresh(n + "_val", IA)) for n in ("mapping", "placeholders")]
    eng.ghost["maps"], eng.ghost["skolem"], eng.ghost["asked"] = [c.mapping, c.placeholders], [], []
    return c
class Joined(M.LazyInstance):
    """a text put together, by the identity of its parts in order"""
    def __init__(self, t): self.t = t
    def add(self, eng, x):
        if isinstance(x, str) and x == "": return
        self.t = eng.uf("followed_by", I, I, I)(self.t, text_id(eng, x))
    def binop(self, eng, op, o, right):
        if op != "Add" or right: raise Unsupported("operation on a text")
        r = Joined(self.t); r.add(eng, o); return r
    def eq(self, eng, o):
        if isinstance(o, Joined): return M.mkbool(self.t == o.t)
        raise Unsupported("comparison of a text")
class Pieces(M.LazyInstance):
    """a list of texts to be joined"""
    def __init__(self, t): self.text, self.last = Joined(t), None
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        M.log_write(eng, self, name)
        if name == "append" and len(args) == 1: xs = [args[0]]
        elif name == "extend" and isinstance(args[0], (list, tuple)): xs = list(args[0])
        else: raise Unsupported("list.%s" % name)
        for x in xs: self.text.add(eng, x); self.last = x
    def joined(self, eng, sep):
        if sep != "": raise Unsupported("join with a separator")
        return Joined(self.text.t)
    def truth(self, eng): raise Unsupported("truth of the parts")
def parts(l):
    if isinstance(l, Pieces): return l.text.t
    if l == []: return NONE
    raise Unsupported("list of texts")
def s_read_segment(eng, a, k):
    """contract reading: one name after the other"""
    t, n = eng.ghost["named"], eng.ghost["k"]
    if eng.getattr(a[0], "sql") is not t or len(a) > 1 or k: raise Unsupported("another text is read")
    t.fact(n); t.fact(n + 1)
    if not eng.branch(n < t.n): eng.raise_(EOFError, "no further name")
    eng.ghost["k"] = z3.simplify(n + 1)
    eng.setattr(a[0], "index", SInt(t.e(n) + 1)); eng.setattr(a[0], "lineno", SInt(eng.fresh("lineno", I)))
    return (SInt(t.s(n)), SInt(t.e(n)), Word(t.raw(n)))
def stands_for(eng, x):
    """the compiler's data invariant at name x: its placeholder is a plain identifier that stands for it"""
    m, p = eng.ghost["maps"]
    v = z3.Select(p.val, x)
    return z3.Implies(z3.Select(p.has, x), z3.And(z3.Select(m.has, v), z3.Select(m.val, v) == x, is_plain(eng, v)))
def the_name(eng, k): return replaced(eng, eng.ghost["named"].raw(k), "``", "`")
def s_name(eng, a, k):
    j = int_of(a[1]); x = z3.simplify(the_name(eng, j))
    if not any(z3.eq(x, y) for y in eng.ghost["skolem"]):
        if eng.ghost.get("done"): raise Unsupported("a name is asked for afterwards")
        if not eng.ghost["skolem"]: eng.ghost["skolem"].append(eng.fresh("any_name", I))
        eng.ghost["skolem"].append(x); eng.ghost["asked"].append((j, x))
        for y in eng.ghost["skolem"]: eng.assume(stands_for(eng, y)); first(eng, y)
    return Word(x)
def placed(eng, k): return eng.uf("placed", I, I)(k)
def replaced_fold(eng):
    t = eng.ghost["named"]
    cat = lambda x, y: eng.uf("followed_by", I, I, I)(x, y)
    return Fold(eng, "replaced_text", [NONE], lambda k, s: [cat(cat(s[0], text_id(eng, Piece(z3.simplify(t.prev(k)), t.s(k)))), placed(eng, k))], t.n)
def restored_fold(eng):
    t, m = eng.ghost["named"], eng.ghost["maps"][0]
    cat = lambda x, y: eng.uf("followed_by", I, I, I)(x, y)
    def again(w): return z3.If(z3.Select(m.has, w), replaced(eng, z3.Select(m.val, w), "`", "``"), w)
    return Fold(eng, "restored_text", [NONE], lambda k, s: [cat(cat(s[0], text_id(eng, Piece(z3.simplify(t.prev(k)), t.s(k)))), again(t.raw(k)))], t.n)
def whole_text(eng, f):
    t = eng.ghost["named"]
    t.fact(t.n)
    return Joined(eng.uf("followed_by", I, I, I)(f.state(t.n)[0], text_id(eng, Piece(z3.simplify(t.prev(t.n)), t.size))))
def names_spec(fold_of, changing, name):
    def inv(eng, fr, s_, _):
        t, k, f = eng.ghost["named"], eng.ghost["k"], fold_of(eng)
        l = fr.locals
        if "k" in s_ and changing and not s_.get("defined") and isinstance(l["segments"], Pieces) and isinstance(l["segments"].last, M.LazyInstance):
            s_["defined"] = True
            eng.assume(placed(eng, s_["k"]) == text_id(eng, l["segments"].last))      # definition: what is put in the place of the name just read
        if "k" in s_: f.at(s_["k"])
        t.fact(k)
        r = [("names are read one by one", z3.And(k >= 0, k <= t.n)), ("up to the last name", int_of(l["last_end_index"]) == t.prev(k)), ("the text so far", parts(l["segments"]) == f.state(k)[0])]
        if changing:
            m, p = eng.ghost["maps"]
            for x in eng.ghost["skolem"]: r.append(("a placeholder stands for its name", stands_for(eng, x)))
            for j, x in eng.ghost["asked"]:
                r += [("the name itself is no placeholder", z3.Not(z3.Select(m.has, x))), ("what is put in its place", z3.Implies(j < k, z3.If(is_plain(eng, x), placed(eng, j) == x, z3.And(z3.Select(p.has, x), placed(eng, j) == z3.Select(p.val, x)))))]
        return r
    def havoc(eng, fr, s_, _):
        t, k = eng.ghost["named"], eng.fresh("k", I)
        eng.assume(z3.And(k >= 0, k <= t.n))
        eng.ghost["k"] = s_["k"] = k
        t.fact(k)
        l = fr.locals
        eng.setattr(l["parser"], "index", SInt(eng.fresh("index", I))); eng.setattr(l["parser"], "lineno", SInt(eng.fresh("lineno", I)))
        l["last_end_index"], l["segments"] = SInt(t.prev(k)), Pieces(fold_of(eng).state(k)[0])
        if changing:
            for m in eng.ghost["maps"]: m.has, m.val = eng.fresh("has", BA), eng.fresh("val", IA)
            if "last_start_index" in l: l["last_start_index"] = SInt(eng.fresh("last_start", I))
    return LoopSpec(inv, havoc, modifies=lambda eng, fr, s_: [fr.locals["parser"], fr.locals["segments"]] + (eng.ghost["maps"] if changing else []), variant=lambda eng, fr, s_: eng.ghost["named"].n - eng.ghost["k"], name=name)
class Letters(M.LazyInstance):
    """the first k characters of a name, as a list"""
    def __init__(self, w, k): self.w, self.k = w, k
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append" or not isinstance(args[0], Letter) or not z3.eq(args[0].w, self.w) or not eng.entailed(args[0].i == self.k): raise Unsupported("list.%s" % name)
        M.log_write(eng, self, name); self.k = z3.simplify(self.k + 1)
    def joined(self, eng, sep):
        if sep != "": raise Unsupported("join with a separator")
        return Prefix(self.w, self.k)
class Letter(Char):
    def __init__(self, eng, w, i): self.w, self.i, self.t = w, i, eng.uf("name_char", I, I, I)(w, i)
def letters_seq(eng, it):
    if not isinstance(it, Word): raise Unsupported("iteration over a text")
    return word_len(eng, it.t), lambda i: Letter(eng, it.t, i)
def letters_inv(eng, fr, s_, i):
    w = fr.locals["segment"].t; l = fr.locals["allow_segment"]
    before_first(eng, w, i)
    if l == []: return [("nothing taken", i == 0)]
    if not isinstance(l, Letters): raise Unsupported("list of letters")
    return [("the letters so far", l.k == i), ("all of them plain", i <= first(eng, w))]
def letters_havoc(eng, fr, s_, i):
    w = fr.locals["segment"].t; before_first(eng, w, i)
    fr.locals["allow_segment"] = Letters(w, i)
LETTERS = LoopSpec(letters_inv, letters_havoc, modifies=lambda eng, fr, s_: [fr.locals["allow_segment"]], seq=letters_seq, name=" (letters)")
def s_same_around(eng, a, k):
    eng.ghost["done"] = True
    for x in eng.ghost["skolem"]: eng.prove("every placeholder stands for its name (kept for the next text)", stands_for(eng, x))
    return M.mkbool(a[1].t == whole_text(eng, replaced_fold(eng)).t) if isinstance(a[1], Joined) else False
def in_mapping(c, eng, w): return z3.Select(c.mapping.has, w)
NAMES_SUMMARIES = {C.name_count: lambda eng, a, k: SInt(a[0].n), C.name: s_name, C.same_around: s_same_around, C.placed: lambda eng, a, k: Word(placed(eng, int_of(a[1]))),
    C.plain: lambda eng, a, k: M.mkbool(is_plain(eng, text_id(eng, a[0]))), C.known: lambda eng, a, k: M.mkbool(in_mapping(a[0], eng, text_id(eng, a[1]))),
    C.meaning: lambda eng, a, k: Word(z3.If(in_mapping(a[0], eng, text_id(eng, a[1])), z3.Select(a[0].mapping.val, text_id(eng, a[1])), text_id(eng, a[1]))),
    SqlParser.read_segment: s_read_segment, C.uuid1: lambda eng, a, k: Unique(eng.fresh("uuid", I))}
RESTORE_SUMMARIES = {SqlParser.read_segment: s_read_segment, C.restored: lambda eng, a, k: whole_text(eng, restored_fold(eng))}
CONTRACT_SUMMARIES.update(quoting=NAMES_SUMMARIES, same_name_same_placeholder=NAMES_SUMMARIES, restoring=RESTORE_SUMMARIES)
LOOPS.update({("syncanysql.compiler:Compiler.parse_mapping", 0): names_spec(replaced_fold, True, ""), ("syncanysql.compiler:Compiler.to_sql", 0): names_spec(restored_fold, False, ""),
    ("syncanysql.compiler:Compiler.parse_mapping.<locals>.get_allow_segment", 0): LETTERS})
def quoted(eng, name): return (compiler(eng, name), Named(eng, name))
SYMS.update(compiler=compiler, named=lambda eng, name: Named(eng, name), quoted=quoted)
ASSUMPTIONS += ["uuid1 gives a number that occurs in no name or placeholder so far", "a compiler's placeholders stand for their names when a text comes in (data invariant: proved to be kept by every text, and the tables are empty at first)",
    "str.replace is a function of its arguments"]

# ---- literal texts
class Str(M.LazyInstance):
    """a text read so far, by the identity of its parts in order: a base and the characters (codes) or texts added to it"""
    def __init__(self, base, atoms=(), size=None): self.base, self.atoms, self.size = base, list(atoms), size
    def id(self, eng):
        t = self.base
        for a in self.atoms: t = joined_ids(eng, t, a)
        return t
    def binop(self, eng, op, o, right):
        if op != "Add": raise Unsupported("operation on a text")
        o = str_parts(eng, o)
        a, b = (o, self) if right else (self, o)
        if not b.atoms and z3.eq(b.base, NONE): return a
        if not z3.eq(b.base, NONE): raise Unsupported("order of texts")
        return Str(a.base, a.atoms + b.atoms, None if a.size is None else a.size + len(b.atoms) if all(z3.is_int(x) for x in b.atoms) else None)
    def eq(self, eng, o): return M.mkbool(self.id(eng) == str_parts(eng, o).id(eng))
    def isinstance(self, eng, cls): return str in cls
    def truth(self, eng):
        if self.size is None: raise Unsupported("truth of a text")
        return M.mkbool(self.size > 0)
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name == "encode" and (not args or args[0] in ("utf-8", "utf8", "ascii", "latin-1")): return Encoded(self)
        raise Unsupported("str.%s of a text" % name)
    def concretize(self, eng, m): return None
class Decoded:
    """a part of a text: a run with its escapes decoded"""
    def __init__(self, t): self.t = t
def joined_ids(eng, t, a):
    if isinstance(a, Decoded): return eng.uf("then_text", I, I, I)(t, a.t)
    return eng.uf("then_char", I, I, I)(t, a)
def str_parts(eng, x):
    if isinstance(x, Str): return x
    if isinstance(x, Char): return Str(NONE, [x.t], 1)
    if isinstance(x, str): return Str(NONE, [z3.IntVal(ord(c)) for c in x], len(x))
    raise Unsupported("text %r" % (x,))
class Encoded(M.LazyInstance):
    def __init__(self, s): self.s = s
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "decode" or args != ["unicode_escape"] and args != ("unicode_escape",): raise Unsupported("bytes.%s" % name)
        return unescaped(eng, self.s)
def unescaped(eng, s):
    """a run of ASCII characters with its escapes decoded; it may be malformed"""
    r = s.id(eng)
    if eng.branch(eng.uf("malformed", I, B)(r)): eng.raise_(ValueError, "malformed escape")
    return Str(NONE, [Decoded(eng.uf("unescaped", I, I)(r))])
def s_unescape(eng, a, k):
    s = str_parts(eng, a[0])
    if s.size is not None and not eng.branch(s.size > 0 if z3.is_expr(s.size) else z3.BoolVal(s.size > 0)): return ""
    return unescaped(eng, s)
class TextList(M.LazyInstance):
    """a list of texts"""
    def __init__(self, s): self.s = s
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "append" or len(args) != 1: raise Unsupported("list.%s" % name)
        M.log_write(eng, self, name); self.s = self.s.binop(eng, "Add", args[0], False)
    def truth(self, eng): return self.s.truth(eng)
    def joined(self, eng, sep):
        if sep != "": raise Unsupported("join with a separator")
        return self.s
def join_texts(eng, sep, xs):
    if sep != "": raise Unsupported("join with a separator")
    r = Str(NONE, [], 0)
    for x in xs: r = r.binop(eng, "Add", x, False)
    return r
def list_text(eng, l): return (l.s if isinstance(l, TextList) else join_texts(eng, "", l) if isinstance(l, list) else str_parts(eng, l)).id(eng)

# the token of a literal
def lit_fold(eng):
    if "lit_fold" in eng.ghost: return eng.ghost["lit_fold"]
    t, at, q = eng.inputs[0][1], int_of(eng.inputs[1][1]), lit(eng.inputs[2][1])
    def step(i, s):
        text, pend, end = s
        c, bs = t.ch(i), lit("\\")
        add = lambda x, y: joined_ids(eng, x, y)
        new = [z3.If(pend == bs, z3.If(z3.Or(c == lit("'"), c == lit('"')), add(text, c), add(add(text, bs), c)), z3.If(pend == q, z3.If(c == q, add(text, c), text), z3.If(z3.Or(c == bs, c == q), text, add(text, c)))),
            z3.If(pend == bs, -1, z3.If(pend == q, z3.If(c == q, -1, pend), z3.If(z3.Or(c == bs, c == q), c, -1))), z3.If(z3.And(pend == q, c != q), i - 1, end)]
        stay = z3.Or(i < at, end >= 0)
        return [z3.If(stay, x, y) for x, y in zip(s, new)]
    f = Fold(eng, "literal", [NONE, z3.IntVal(-1), z3.IntVal(-1)], step, t.n, stopped=lambda s: s[2] >= 0)
    eng.ghost["lit_fold"] = f
    def fact(i, s): return z3.And(z3.Or(s[1] == -1, s[1] == q, s[1] == lit("\\")), z3.Implies(i <= at, z3.And(s[0] == NONE, s[1] == -1)), z3.Implies(i <= at + 1, s[2] == -1), z3.Or(s[2] == -1, s[2] >= at), z3.Implies(s[1] != -1, i > at))
    k = eng.fresh("k", I); s0 = [eng.fresh("s", x.sort()) for x in f.state(z3.IntVal(0))]
    eng.assume(at >= 0)
    eng.prove("lemma: the state of the literal is well formed (initially)", fact(z3.IntVal(0), f.state(z3.IntVal(0))))
    eng.prove("lemma: the state of the literal is well formed (induction step)", z3.Implies(z3.And(k >= 0, k < t.n, fact(k, s0)), fact(k + 1, step(k, s0))))
    f.fact = lambda i: eng.axiom(("lit_wf", z3.simplify(i).get_id()), lambda: z3.Implies(z3.And(i >= 0, i <= t.n), fact(i, f.state(i))))
    return f
def lit_ref_inv(eng, fr, s_, i):
    f = lit_fold(eng); touch(eng, f, i); v = f.state(z3.simplify(i)); l = fr.locals
    return [("text", str_parts(eng, l["text"]).id(eng) == v[0]), ("pending", code(l["pending"]) == v[1]), ("end", opt(l["end"]) == v[2])]
def lit_ref_havoc(eng, fr, s_, i):
    f = lit_fold(eng); touch(eng, f, i, f.n); v = f.state(z3.simplify(i)); l = fr.locals
    l["text"], l["pending"], l["end"] = Str(v[0]), Char(v[1]), maybe(eng, v[2])
def s_tokenizer(eng, a, k):
    from syncanysql.compiler import CompilerDialect
    t = object.__new__(CompilerDialect.Tokenizer)
    t.sql, t.size, t._line, t._start, t._col = a[0], SInt(a[0].n), SInt(eng.fresh("line", I)), SInt(eng.fresh("start", I)), SInt(eng.fresh("col", I))
    set_position(eng, t, int_of(a[1]) + 1)
    return t
def set_position(eng, t, current):
    """the library's Tokenizer._advance: the current character and the next one"""
    x = eng.inputs[0][1]; current = z3.simplify(current)
    eng.setattr(t, "_current", SInt(current))
    if not eng.entailed(z3.And(current >= 1, current <= x.n)):
        eng.raise_(IndexError, "string index out of range")
    end = eng.branch(current >= x.n)
    eng.setattr(t, "_end", end); eng.setattr(t, "_char", Char(x.ch(current - 1))); eng.setattr(t, "_peek", "" if end else Char(x.ch(current)))
def s_advance(eng, a, k):
    t, i = a[0], a[1] if len(a) > 1 else k.get("i", 1)
    eng.setattr(t, "_line", SInt(eng.fresh("line", I))); eng.setattr(t, "_col", SInt(eng.fresh("col", I)))
    set_position(eng, t, int_of(eng.getattr(t, "_current")) + int_of(i))
def tok_at(eng, fr): return z3.simplify(int_of(eng.getattr(fr.locals["self"], "_current")) - 1)
def tok_inv(eng, fr, s_, _):
    f, i = lit_fold(eng), tok_at(eng, fr); touch(eng, f, i, i + 1, f.n); v = f.state(i)
    return [("position", z3.And(i >= int_of(eng.inputs[1][1]), i < f.n)), ("text", str_parts(eng, fr.locals["text"]).id(eng) == v[0]), ("no escape is open, the literal is not closed", z3.And(v[1] == -1, v[2] == -1))]
def tok_havoc(eng, fr, s_, _):
    f, t = lit_fold(eng), fr.locals["self"]
    i = eng.fresh("index", I)
    eng.assume(z3.And(i >= int_of(eng.inputs[1][1]), i < f.n))
    touch(eng, f, i, i + 1, i + 2, f.n)
    eng.setattr(t, "_line", SInt(eng.fresh("line", I))); eng.setattr(t, "_col", SInt(eng.fresh("col", I)))
    set_position(eng, t, i + 1)
    fr.locals["text"] = Str(f.state(i)[0])
LOOPS.update({("contracts.C21:literal", 0): LoopSpec(lit_ref_inv, lit_ref_havoc, modifies=lambda eng, fr, s_: [], name=" of the reference"),
    ("syncanysql.compiler:CompilerDialect.Tokenizer._extract_string", 0): LoopSpec(tok_inv, tok_havoc, modifies=mod, variant=lambda eng, fr, s_: lit_fold(eng).n - tok_at(eng, fr))})
from sqlglot import tokens as TK
CONTRACT_SUMMARIES["texts"] = {C.tokenizer: s_tokenizer, TK.Tokenizer._advance: s_advance}

# constants
class Source(M.LazyInstance):
    """the text of a literal: any characters"""
    def __init__(self, eng, name):
        self.n = eng.fresh("length", I); eng.assume(self.n >= 0)
        eng.ghost["source"], eng.ghost["join"] = self, join_texts
        self.ch = eng.uf("source_char", I, I)
    def isinstance(self, eng, cls): return str in cls
    def eq(self, eng, o): return o is self
    def concretize(self, eng, m):
        n = min(12, m.eval(self.n, model_completion=True).as_long())
        return "".join(chr(max(1, min(0xffff, m.eval(self.ch(z3.IntVal(i)), model_completion=True).as_long()))) for i in range(n))
def source_seq(eng, it):
    if not isinstance(it, Source): raise Unsupported("iteration over a text")
    return it.n, lambda i: Char(it.ch(i))
def decoded_fold(eng):
    t = eng.ghost["source"]
    if "decoded" in eng.ghost: return eng.ghost["decoded"]
    def step(i, s):
        out, run, size, bad = s
        c = t.ch(i)
        un, mal = eng.uf("unescaped", I, I), eng.uf("malformed", I, B)
        now = z3.And(c >= 128, size > 0, mal(run))
        return [z3.If(bad, out, z3.If(c < 128, out, joined_ids(eng, z3.If(size > 0, joined_ids(eng, out, Decoded(un(run))), out), c))), z3.If(bad, run, z3.If(c < 128, joined_ids(eng, run, c), NONE)), z3.If(bad, size, z3.If(c < 128, size + 1, 0)), z3.Or(bad, now)]
    f = Fold(eng, "decoded", [NONE, NONE, z3.IntVal(0), z3.BoolVal(False)], step, t.n, stopped=lambda s: s[3])
    eng.ghost["decoded"] = f
    def fact(i, s): return z3.And(s[2] >= 0, z3.Implies(s[2] == 0, s[1] == NONE))
    k = eng.fresh("k", I); s0 = [eng.fresh("s", x.sort()) for x in f.state(z3.IntVal(0))]
    eng.prove("lemma: the length of a run (initially)", fact(z3.IntVal(0), f.state(z3.IntVal(0))))
    eng.prove("lemma: the length of a run (induction step)", z3.Implies(z3.And(k >= 0, k < t.n, fact(k, s0)), fact(k + 1, step(k, s0))))
    f.fact = lambda i: eng.axiom(("run", z3.simplify(i).get_id()), lambda: z3.Implies(z3.And(i >= 0, i <= t.n), fact(i, f.state(i))))
    return f
def decoded_spec(out, run, name):
    def inv(eng, fr, s_, i):
        f = decoded_fold(eng); touch(eng, f, i, z3.simplify(i + 1), f.n); v = f.state(z3.simplify(i)); l = fr.locals
        r = [("no run was malformed", z3.Not(v[3])), ("decoded so far", list_text(eng, l[out]) == v[0]), ("the run so far", list_text(eng, l[run]) == v[1])]
        s = l[run].s if isinstance(l[run], TextList) else join_texts(eng, "", l[run]) if isinstance(l[run], list) else str_parts(eng, l[run])
        return r + [("its length", (s.size if s.size is not None else z3.IntVal(-1)) == v[2])]
    def havoc(eng, fr, s_, i):
        f = decoded_fold(eng); touch(eng, f, i, z3.simplify(i + 1), f.n); v = f.state(z3.simplify(i)); l = fr.locals
        wrap = TextList if name == "" else lambda s: s
        l[out], l[run] = wrap(Str(v[0])), wrap(Str(v[1], [], v[2]))
    return LoopSpec(inv, havoc, modifies=lambda eng, fr, s_: [x for x in (fr.locals[out], fr.locals[run]) if isinstance(x, (TextList, list))], seq=source_seq, name=name)
LOOPS.update({("contracts.C21:decoded", 0): decoded_spec("out", "run", " of the reference"), ("syncanysql.compiler:Compiler.parse_const", 0): decoded_spec("escape_values", "escape_chars", "")})
from sqlglot import expressions as XG
class Number(XG.Literal):
    """a number literal of unknown text"""
    is_int = property(lambda self: self.args["is_whole"])
def int_ok(eng, t): return eng.uf("int_ok", S, B)(str_of(t))
def s_expression(eng, a, k):
    kind, text = a
    if isinstance(text, str): return NotImplemented
    if kind == "text": return XG.Literal(this=text, is_string=True)
    if kind in ("int", "float"): return Number(this=text, is_string=False, is_whole=M.mkbool(int_ok(eng, text)))
    if kind == "hex": return XG.HexString(this=text)
    if kind == "bit": return XG.BitString(this=text)
    return XG.Null() if kind == "null" else XG.Boolean(this=kind == "true")
def s_negated(eng, a, k): return XG.Neg(this=a[0])
def numeral(eng, name):
    t = SStr(eng.fresh("number", S))
    eng.assume(eng.uf("float_ok", S, B)(t.t))
    return t
def digits(eng, name):
    t = SStr(eng.fresh("digits", S)); eng.assume(int_ok(eng, t)); return t
CONST_SUMMARIES = {C.expression: s_expression, C.negated: s_negated, C.unescape: s_unescape, C.whole: lambda eng, a, k: M.mkbool(int_ok(eng, a[0]))}
CONTRACT_SUMMARIES.update(constants=CONST_SUMMARIES, numbers=CONST_SUMMARIES, negation=CONST_SUMMARIES)
SYMS.update(literal=lambda eng, name: Source(eng, name), number=numeral, digits=digits)
ASSUMPTIONS += ["sqlglot's Tokenizer._advance gives the current and the next character; Literal.is_int says whether int() reads the text",
    "the unicode_escape codec decodes a run of ASCII characters as a function of the run, or fails (compared with the contract's own decoder in the bounded check); an empty run is decoded to an empty text"]
