"""Prover side of C14: matching itself is a dependency (re); a pattern built from a text is kept as what each character becomes."""
from proofs.common import *
from proofs import C11 as T
from contracts import C14 as C
from pyvc.engine import SymMethod
from syncanysql.calculaters.mysql_funcs import regexp_funcs as RF
import re
BV = z3.BitVecSort(32)
ASSUMPTIONS = ["re: fullmatch of a pattern made of escaped characters and .* under DOTALL is the LIKE match (compared with a reference matcher, bounded)",
               "re: finditer(text, start) gives the matches from start on, left to right, inside the text; search finds one exactly when there is one; compile rejects what is no pattern"]
class Flags(M.LazyInstance):
    def __init__(self, t): self.t = z3.simplify(t)
    def truth(self, eng): return eng.truth(SBool(self.t != 0))
    def eq(self, eng, o): return M.mkbool(self.t == bits(o))
    def binop(self, eng, op, o, reflected):
        if op not in ("BitAnd", "BitOr"): raise Unsupported("flags")
        return Flags(self.t & bits(o) if op == "BitAnd" else self.t | bits(o))
def bits(o):
    if isinstance(o, Flags): return o.t
    if isinstance(o, (int, re.RegexFlag)): return z3.BitVecVal(int(o) & 0xffffffff, 32)
    if isinstance(o, SInt): return z3.Function("bits_of", I, BV)(o.t)
    raise Unsupported("flags")
def flags(eng, a, k):
    """contract of parse_flags / meaning of flags_of"""
    if a[0] is None: return Flags(z3.BitVecVal(int(re.IGNORECASE), 32))
    v = to_val(a[0])
    if not eng.branch(eng.uf("flags_ok", Val, B)(v)): eng.raise_(ValueError, "match type")
    return Flags(eng.uf("flags_of", Val, BV)(v))
# ---- patterns built from a text
CACHE = {}
def rules(ops):
    """what each character becomes: '%' -> .*, any other -> something that matches it alone"""
    if ops not in CACHE:
        def h(c):
            for f, x in ops: c = re.escape(c) if f == "escape" else c.replace(*x)
            return c
        CACHE[ops] = all(h(chr(i)) == re.escape(chr(i)) for i in range(0x110000) if i != 37) and h("%") in (".*", "(?:.*)")
    return CACHE[ops]
class Built(M.LazyInstance):
    """the text of `src` with every character replaced (in stages), and a fixed ending"""
    def __init__(self, src, ops, end=""): self.src, self.ops, self.end = src, ops, end
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if name != "replace" or len(args) != 2 or not all(isinstance(x, str) for x in args) or len(args[0]) != 1 or self.end: raise Unsupported("pattern.%s" % name)
        return Built(self.src, self.ops + (("replace", tuple(args)),))
    def binop(self, eng, op, o, reflected):
        if op != "Add" or reflected or not isinstance(o, str): raise Unsupported("pattern + ...")
        return Built(self.src, self.ops, self.end + o)
def escape(eng, a, k):
    if isinstance(a[0], str): return re.escape(a[0])
    if not isinstance(a[0], SStr): raise Unsupported("re.escape")
    return Built(a[0].t, (("escape", None),))
class Match(M.LazyInstance):
    def __init__(self, of, i): self.of, self.i = of, i
    def truth(self, eng): return True
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if args and name != "expand" and args != [0] and args != (0,): raise Unsupported("a group of a match")
        a, b = self.of.span(eng, self.i)
        if name == "start": return SInt(a)
        if name == "end": return SInt(b)
        if name == "span": return (SInt(a), SInt(b))
        if name == "group": return SStr(z3.SubString(self.of.s, a, b - a))
        if name == "expand": return SStr(eng.uf("expand", S, S, BV, I, I, S, S)(self.of.s, self.of.r, self.of.f, self.of.start, z3.simplify(self.i), str_of(args[0])))
        raise Unsupported("match.%s" % name)
class Matches(M.LazyInstance):
    def __init__(self, eng, s, r, f, start):
        self.s, self.r, self.f, self.start = s, r, f, z3.simplify(start)
        self.eng = eng
        self.n = eng.uf("matches", S, S, BV, I, I)(s, r, f, self.start)
        eng.axiom(("count", self.n.get_id()), lambda: self.n >= 0)
    def span(self, eng, i):
        i = z3.simplify(i)
        a, b = [eng.uf("match_" + x, S, S, BV, I, I, I)(self.s, self.r, self.f, self.start, i) for x in ("start", "end")]
        eng.axiom(("span", a.get_id()), lambda: z3.Implies(z3.And(i >= 0, i < self.n), z3.And(a >= self.start, a >= 0, b >= a, b <= z3.Length(self.s))))
        if i.get_id() != z3.simplify(i - 1).get_id():
            p = eng.uf("match_end", S, S, BV, I, I, I)(self.s, self.r, self.f, self.start, z3.simplify(i - 1))
            eng.axiom(("order", a.get_id()), lambda: z3.Implies(z3.And(i >= 1, i < self.n), p <= a))
        return a, b
    def get(self, i): return Match(self, i)
    def len(self, eng): return SInt(self.n)
    def getitem(self, eng, k):
        i = int_of(k)
        if not eng.branch(z3.And(i >= 0, i < self.n)): raise Unsupported("match outside the list")
        return Match(self, z3.simplify(i))
def regex(eng, r, f):
    if not eng.branch(eng.uf("pattern_ok", S, BV, B)(r, f)): eng.raise_(re.error, "not a pattern")
class Compiled(M.LazyInstance):
    def __init__(self, r, f): self.r, self.f = r, f
    def getattr(self, eng, name): return SymMethod(self, name)
    def method(self, eng, name, args, kw):
        if kw or len(args) > 2: raise Unsupported("pattern.%s" % name)
        s = str_of(args[0]); start = z3.simplify(int_of(args[1])) if len(args) > 1 else z3.IntVal(0)
        if not eng.entailed(z3.And(start >= 0, start <= z3.Length(s))): raise Unsupported("search outside the text")
        m = Matches(eng, s, self.r, self.f, start)
        if name == "finditer": return m
        if name == "search": return Match(m, z3.IntVal(0)) if eng.branch(m.n > 0) else None
        raise Unsupported("pattern.%s" % name)
def arg_flags(a, k, i): return bits(a[i] if len(a) > i else k.get("flags", 0))
def compile_(eng, a, k):
    if isinstance(a[0], Built): raise Unsupported("compiled LIKE pattern")
    f = arg_flags(a, k, 1); r = str_of(a[0])
    regex(eng, r, f)
    return Compiled(r, f)
def search(eng, a, k): return compile_(eng, [a[0]], {"flags": Flags(arg_flags(a, k, 2))}).method(eng, "search", [a[1]], {})
def whole(anchored):
    def run(eng, a, k):
        p, f = a[0], arg_flags(a, k, 2)
        if not isinstance(p, Built): raise Unsupported("re.match")
        if not (p.end == "" and anchored or p.end == r"\Z") or not rules(p.ops): raise Unsupported("another pattern for LIKE")
        if not eng.entailed(f & int(re.DOTALL) != 0): raise Unsupported("LIKE without DOTALL")
        return SBool(matching(eng, str_of(a[1]), p.src, f))
    return run
def matching(eng, s, p, f): return eng.uf("like", S, S, B, B)(s, p, f & int(re.IGNORECASE) != 0)
SYMS = {"pattern": lambda eng, name: eng.sym("str", name), "int": lambda eng, name: eng.sym("int", name),
        "match_type": lambda eng, name: None if eng.branch(eng.fresh(name + "_null", B)) else eng.sym("str", name)}
SUMMARIES = dict(T.TEXT)
SUMMARIES.update({C.flags_of: flags, RF.parse_flags: flags, re.escape: escape, re.compile: compile_, re.search: search, re.fullmatch: whole(True), re.match: whole(False),
    C.like: lambda eng, a, k: M.mkbool(matching(eng, str_of(a[0]), str_of(a[1]), bits(a[2]))),
    C.matches: lambda eng, a, k: Matches(eng, str_of(a[0]), str_of(a[1]), bits(a[3]), int_of(a[2])),
    C.usable: lambda eng, a, k: M.mkbool(eng.uf("pattern_ok", S, BV, B)(str_of(a[1]), bits(a[2])))})
CONTRACT_SUMMARIES = {"flags": {C.flags_of: None, RF.parse_flags: None}}
def view(eng, it): return it.n, it.get
# the k-th match: every earlier one has been counted down
def count_entry(eng, fr, st): st["k"] = int_of(fr.locals["occurrence"])
def count_inv(eng, fr, st, i): return [("counted down", z3.And(int_of(fr.locals["occurrence"]) == st["k"] - i, z3.Or(i == 0, st["k"] > i)))]
def count_havoc(eng, fr, st, i): fr.locals["occurrence"] = SInt(eng.fresh("left", I))
COUNT = LoopSpec(count_inv, count_havoc, seq=view, entry=count_entry, modifies=lambda eng, fr, st: [], name=" (matches)")
# all matches replaced
def replacing(eng, found, rs):
    def step(i, s):
        a, b = found.span(eng, i)
        return [z3.Concat(s[0], z3.SubString(found.s, s[1], a - s[1]), str_of(Match(found, i).method(eng, "expand", [SStr(rs)], {}))), b]
    return Fold(eng, "replacing", [z3.StringVal(""), z3.IntVal(0)], step, found.n)
def rep(out, upto, rs_name):
    def entry(eng, fr, st): pass
    def f(eng, fr, st):
        if "fold" not in st: st["fold"] = replacing(eng, eng.ghost["found"], str_of(fr.locals[rs_name]))
        return st["fold"]
    def inv(eng, fr, st, i):
        g = f(eng, fr, st); g.at(i); eng.ghost["found"].span(eng, i); eng.ghost["found"].span(eng, z3.simplify(i - 1)); s = g.state(z3.simplify(i))
        prev = eng.ghost["found"].span(eng, z3.simplify(i - 1))[1]
        return [("replaced so far", z3.And(str_of(fr.locals[out]) == s[0], int_of(fr.locals[upto]) == s[1])), ("up to the last match", s[1] == z3.If(i > 0, prev, 0))]
    def havoc(eng, fr, st, i):
        s = f(eng, fr, st).state(i); fr.locals[out], fr.locals[upto] = SStr(s[0]), SInt(s[1])
    def seq(eng, it): eng.ghost["found"] = it; return it.n, it.get
    return LoopSpec(inv, havoc, seq=seq, modifies=lambda eng, fr, st: [], name=" (replacing)")
# options
class Opt: pass
def opts(eng, fr, st):
    if "fold" not in st:
        t = st["it"].t
        def step(i, s):
            c = z3.SubString(t, i, 1); is_ = lambda x: c == z3.StringVal(x)
            return [z3.If(is_("c"), z3.BoolVal(False), z3.If(is_("i"), z3.BoolVal(True), s[0])), z3.Or(s[1], is_("m")), z3.Or(s[2], is_("n")), z3.Or(s[3], is_("u"))]
        st["fold"] = Fold(eng, "options", [z3.BoolVal(True)] + [z3.BoolVal(False)] * 3, step, z3.Length(t))
    return st["fold"]
def bits_of(s):
    r = z3.BitVecVal(0, 32)
    for b, f in zip(s, (re.IGNORECASE, re.MULTILINE, re.DOTALL, re.UNICODE)): r = r | z3.If(b, z3.BitVecVal(int(f), 32), z3.BitVecVal(0, 32))
    return r
def opt_seq(eng, it):
    eng.ghost["options"] = it
    return z3.Length(it.t), (lambda i: SStr(z3.SubString(it.t, i, 1)))
def opt_spec(names):
    def inv(eng, fr, st, i):
        st["it"] = eng.ghost["options"]; g = opts(eng, fr, st); g.at(i); s = g.state(z3.simplify(i))
        if len(names) == 1: return [("options so far", bits(fr.locals[names[0]]) == bits_of(s))]
        return [("options so far", z3.And([bool_of(fr.locals[n]) == x for n, x in zip(names, s)]))]
    def havoc(eng, fr, st, i):
        st["it"] = eng.ghost["options"]; s = opts(eng, fr, st).state(i)
        if len(names) == 1: fr.locals[names[0]] = Flags(bits_of(s))
        else:
            for n, x in zip(names, s): fr.locals[n] = SBool(x)
    return LoopSpec(inv, havoc, seq=opt_seq, modifies=lambda eng, fr, st: [], name=" (options)")
R_ = "syncanysql.calculaters.mysql_funcs.regexp_funcs:"
LOOPS = {(R_ + "find_match", 0): COUNT, (R_ + "mysql_regexp_replace", 0): rep("result", "index", "rs"), ("contracts.C14:replaced", 0): rep("out", "upto", "rs"),
         (R_ + "parse_flags", 0): opt_spec(["flags"]), ("contracts.C14:flags_of", 0): opt_spec(["case", "many", "newline", "uni"])}
def flag_bits(eng, a, k): return Flags(bits_of([bool_of(x) for x in a]))
SUMMARIES[C.flag_bits] = flag_bits
