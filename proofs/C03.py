from proofs.scopes import *
from contracts import C03 as C
from syncanysql import utils, executor as EX
from syncany.filters import StringFilter
from syncany.calculaters import find_calculater
ASSUMPTIONS = ASSUMPTIONS + ["re.Pattern.finditer gives the non-overlapping matches in order; group 2 of a placeholder match is None or starts with a colon (Python re)",
    "find_calculater, Calculater.instance/calculate and StringFilter.filter are functions of their arguments (uninterpreted; may raise)", "the elements of a nested list value are rendered by the same function (structural induction over the value)"]
FORMS = {"placeholder": C.PLACEHOLDER, "call": C.CALL}
class Match(M.LazyInstance):
    def __init__(self, rx, i): self.rx, self.i = rx, i
    def getattr(self, eng, name):
        if name in ("start", "end", "group", "span", "groups"): return types.MethodType(MATCH_METHODS[name], self)
        return M.LazyInstance.getattr(self, eng, name)
def m_start(self, *g): raise NotImplementedError
def m_end(self, *g): raise NotImplementedError
def m_group(self, *g): raise NotImplementedError
def m_span(self, *g): raise NotImplementedError
def m_groups(self, *g): raise NotImplementedError
MATCH_METHODS = {"start": m_start, "end": m_end, "group": m_group, "span": m_span, "groups": m_groups}
import types, re
class Matches:
    """the matches of the placeholder pattern in an arbitrary text"""
    def __init__(self, eng, sql):
        self.eng, self.t = eng, sql
        self.n = eng.fresh("matches", I); eng.assume(self.n >= 0)
        self.s, self.e = eng.uf("match_start", I, I), eng.uf("match_end", I, I)
        self.g1, self.dflt, self.has = eng.uf("placeholder", I, S), eng.uf("default_part", I, S), eng.uf("has_default", I, B)
    def facts(self, i):
        e = self.eng
        e.axiom(("match", i.get_id()), lambda: z3.And(self.s(i) >= 0, self.s(i) <= self.e(i), self.e(i) <= z3.Length(self.t), z3.Implies(i > 0, self.e(i - 1) <= self.s(i))))
    def default(self, i):
        """group 2: None or ':' + text"""
        if not self.eng.branch(self.has(i)): return None
        return SStr(z3.Concat(z3.StringVal(":"), self.dflt(i)))
    def default_text(self, i): return SStr(z3.Concat(z3.StringVal(":"), self.dflt(i))) if self.eng.branch(self.has(i)) else ""
def regex(eng, rx, name, args, kw):
    text = eng.resolve(args[0])
    if (rx.pattern, rx.flags) == (C.PLACEHOLDER.pattern, C.PLACEHOLDER.flags):
        m = eng.ghost.get("matches")
        if m is None or not z3.eq(m.t, str_of(text)): raise Unsupported("placeholder pattern on another text")
        if name == "finditer": return M.SSeq(m.n, lambda i: Match("placeholder", z3.simplify(i)))
    if (rx.pattern, rx.flags) == (C.CALL.pattern, C.CALL.flags) and name == "match":
        t = str_of(text)
        if not eng.branch(eng.uf("is_call", S, B)(t)): return None
        return Match("call", t)
    raise Unsupported("regular expression %r.%s" % (rx.pattern, name))
def g_start(eng, a, k): m = eng.ghost["matches"]; m.facts(a[0].i); return SInt(m.s(a[0].i))
def g_end(eng, a, k): m = eng.ghost["matches"]; m.facts(a[0].i); return SInt(m.e(a[0].i))
def g_span(eng, a, k): return (g_start(eng, a, k), g_end(eng, a, k))
def g_group(eng, a, k):
    x, no = a[0], (a[1] if len(a) > 1 else 0)
    if x.rx == "placeholder":
        m = eng.ghost["matches"]
        if no in (0, 1): return SStr(m.g1(x.i))
        if no == 2: return m.default(x.i)
    if x.rx == "call":
        if no == 1: return SStr(eng.uf("call_name", S, S)(x.i))
        if no == 2: return SStr(eng.uf("call_arguments", S, S)(x.i)) if eng.branch(eng.uf("call_has_arguments", S, B)(x.i)) else None
    raise Unsupported("match group %r" % no)
def g_groups(eng, a, k):
    if a[0].rx == "placeholder":
        g = g_group(eng, [a[0], 2], {})
        return (g_group(eng, [a[0], 1], {}), (a[1] if len(a) > 1 else k.get("default")) if g is None else g)
    return (g_group(eng, [a[0], 1], {}), g_group(eng, [a[0], 2], {}), Opaque())
class Opaque(M.LazyInstance): pass

# the default read as a function call
def parsed(eng, t, n):
    f = eng.uf("parsed", S, I, M.ValSeq)
    return f(t, n)
class Parts:
    """argument texts of a call"""
    def __init__(self, eng, t): self.eng, self.t, self.n, self.part = eng, t, eng.uf("argument_count", S, I)(t), eng.uf("argument_text", S, I, S)
def s_split(eng, a, k):
    t = str_of(eng.resolve(a[0]))
    n = eng.uf("argument_count", S, I)(t)
    eng.axiom(("argn", t.get_id()), lambda: z3.And(n >= 1, parsed(eng, t, z3.IntVal(0)) == z3.Empty(M.ValSeq)))
    part = eng.uf("argument_text", S, I, S)
    eng.ghost["call_arguments"] = (t, n, part)
    return M.SSeq(n, lambda i: SStr(part(t, i)))
def s_values(eng, a, k):
    t = str_of(eng.resolve(a[0]))
    return M.SList(parsed(eng, t, eng.uf("argument_count", S, I)(t)))
def s_parse_value(eng, a, k): return SVal(eng.uf("literal_value", S, Val)(str_of(eng.resolve(a[0]))))
class Calc(M.LazyInstance):
    def __init__(self, t): self.t = t
    def getattr(self, eng, name):
        if name == "instance": return types.MethodType(calc_instance, self)
        if name == "calculate": return types.MethodType(calc_calculate, self)
        return M.LazyInstance.getattr(self, eng, name)
def calc_instance(self, n): raise NotImplementedError
def calc_calculate(self, *a): raise NotImplementedError
def s_find(eng, a, k):
    t = str_of(eng.resolve(a[0]))
    if not eng.branch(eng.uf("calculater_known", S, B)(t)): raise E.PyRaise(E.OpaqueError())
    return Calc(eng.uf("calculater", S, I)(t))
def s_instance(eng, a, k):
    t = eng.uf("instance", I, S, I)(a[0].t, str_of(eng.resolve(a[1])))
    if not eng.branch(eng.uf("instance_ok", I, B)(t)): raise E.PyRaise(E.OpaqueError())
    return Calc(t)
def s_calculate(eng, a, k):
    if isinstance(a, M.SymArgs): me, seq = a.fixed[0], M.seq_term(a.seq)
    else: me, seq = a[0], M.seq_term(list(a[1:]))
    if not eng.branch(eng.uf("calculates", I, M.ValSeq, B)(me.t, seq)): raise E.PyRaise(E.OpaqueError())
    return SVal(eng.uf("calculated", I, M.ValSeq, Val)(me.t, seq))
def s_filter(eng, a, k):
    v = to_val(a[1])
    if not eng.branch(eng.uf("filter_ok", Val, B)(v)): raise E.PyRaise(E.OpaqueError())
    return SStr(eng.uf("filter_text", Val, S)(v))

# values of arbitrary nesting
RENDER = EX.__name__ + ":Executor.compile_variable.<locals>.format_variable_value"
def s_render(eng, a, k):
    """at depth 1 the body is executed; on the elements of a list the contract is used"""
    if not eng.ghost.get("nested"): return NotImplemented
    return SStr(eng.uf("rendered", Val, S)(to_val(a[0])))
def comprehension(eng, e, fr):
    """[f(x) for x in v] for an opaque list v: f's contract applied to an arbitrary element"""
    if len(e.generators) != 1 or e.generators[0].ifs: return None
    v = eng.resolve(eng.eval(e.generators[0].iter, fr))
    if not (isinstance(v, SObj) and v.kind in ("list", "tuple")): return None
    x = z3.Const("element", Val)
    inner = E.Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
    inner.localnames = set(); inner.node = fr.node
    eng.assign(e.generators[0].target, SVal(x), inner)
    old = eng.ghost.get("nested"); eng.ghost["nested"] = True
    before = len(eng.trace)
    try: r = to_val(eng.eval(e.elt, inner))
    finally: eng.ghost["nested"] = old
    if len(eng.trace) != before: raise Unsupported("comprehension element needs a case distinction")
    return M.SList(eng.uf("listed<%s>" % z3.simplify(r).sexpr(), Val, M.ValSeq)(to_val(v)))

SUMMARIES = dict(SUMMARIES)
SUMMARIES.update({m_start: g_start, m_end: g_end, m_group: g_group, m_span: g_span, m_groups: g_groups, utils.parse_value: s_parse_value,
    C.values: s_values, find_calculater: s_find, calc_instance: s_instance, calc_calculate: s_calculate, StringFilter.filter: s_filter, RENDER: s_render, C.render: s_render})
def interpolation_setup(eng):
    eng.abstract_contains = eng.abstract_strings = True
    eng.ghost["regex"], eng.ghost["comprehension"] = regex, comprehension
def s_interpolated(eng, a, k):
    """the fold the text of C.interpolated computes"""
    scope, formats, sql = a
    t = str_of(sql)
    m = eng.ghost["matches"] = Matches(eng, t)
    ptext = eng.uf("placeholder_result", I, S)
    def step(i, s): return [z3.Concat(s[0], M.str_slice(eng, t, s[1], m.s(i)), ptext(i)), m.e(i)]
    fold = Fold(eng, "interpolated", [z3.StringVal(""), z3.IntVal(0)], step, m.n)
    def touch(i):
        """definition of the spec at position i"""
        m.facts(i); fold.at(i)
        r = eng.call(C.placeholder_text, [scope, formats, SStr(m.g1(i)), m.default_text(i)])
        eng.assume(ptext(i) == str_of(eng.resolve(r)))
    eng.ghost["fold"], eng.ghost["touch"] = fold, touch
    s = fold.state(m.n)
    return SStr(z3.Concat(s[0], M.str_slice(eng, t, s[1])))
SUMMARIES[C.interpolated] = s_interpolated
def inv(eng, fr, st, i):
    s = eng.ghost["fold"].state(i)
    return [("text so far", str_of(fr.locals["compiled_sql"]) == s[0]), ("position in the statement", zi(fr.locals["index"]) == s[1]), ("position is inside the statement", z3.And(zi(fr.locals["index"]) >= 0, zi(fr.locals["index"]) <= z3.Length(eng.ghost["matches"].t), z3.Implies(i > 0, zi(fr.locals["index"]) == eng.ghost["matches"].e(i - 1))))]
def havoc(eng, fr, st, i):
    fr.locals["compiled_sql"], fr.locals["index"] = eng.sym("str", "compiled"), eng.sym("int", "index")
    if eng.branch(i < eng.ghost["matches"].n): eng.ghost["touch"](i)
def args_inv(eng, fr, st, i):
    t, n, part = eng.ghost["call_arguments"]
    return [("values of the arguments so far", M.seq_term(fr.locals["calculater_args"]) == parsed(eng, t, i))]
def args_havoc(eng, fr, st, i):
    t, n, part = eng.ghost["call_arguments"]
    fr.locals["calculater_args"] = M.SList(eng.fresh("args", M.ValSeq))
    eng.axiom(("parsed", t.get_id(), i.get_id()), lambda: z3.Implies(z3.And(i >= 0, i < n), parsed(eng, t, i + 1) == z3.Concat(parsed(eng, t, i), z3.Unit(eng.uf("literal_value", S, Val)(part(t, i))))))
CV = EX.__name__ + ":Executor.compile_variable"
CONTRACT_LOOPS = {"interpolation": {(CV, 0): LoopSpec(inv, havoc, name=" over the placeholders"), (CV, 1): LoopSpec(args_inv, args_havoc, name=" over the arguments", modifies=lambda eng, fr, st: [fr.locals["calculater_args"]])}}
CONTRACT_SUMMARIES = {"interpolation": {utils.split_arguments: s_split}}
def modular(eng):
    interpolation_setup(eng)
    eng.ghost["nested"] = True        # rendering a value: by its contract (proved in `rendering`)
def strip_empty(eng, t): return z3.Length(eng.uf("str_strip", S, S)(t)) == 0
def s_arguments(eng, a, k):
    """the fold the text of C.arguments computes: (argument texts, current piece, open quote)"""
    t = str_of(a[0])
    def step(i, s):
        out, piece, q = s
        c, none = z3.SubString(t, i, 1), z3.StringVal("")
        opens = z3.And(q == none, z3.Or(c == z3.StringVal("'"), c == z3.StringVal('"')), strip_empty(eng, piece))
        cuts = z3.And(q == none, z3.Not(opens), c == z3.StringVal(","))
        return [z3.If(cuts, z3.Concat(out, z3.Unit(Val.str(piece))), out), z3.If(cuts, none, z3.Concat(piece, c)), z3.If(q != none, z3.If(c == q, none, q), z3.If(opens, c, none))]
    f = eng.ghost["fold"] = Fold(eng, "arguments", [z3.Empty(M.ValSeq), z3.StringVal(""), z3.StringVal("")], step, z3.Length(t))
    s = f.state(z3.Length(t))
    return M.SList(z3.Concat(s[0], z3.Unit(Val.str(s[1]))))
def split_inv(eng, fr, st, i):
    out, piece, q = eng.ghost["fold"].state(i)
    t, ix = str_of(fr.locals["value"]), zi(fr.locals["index"])
    return [("argument texts so far", M.seq_term(fr.locals["arguments"]) == out), ("open quote", str_of(fr.locals["quote"]) == q),
            ("current piece starts inside the text", z3.And(ix >= 0, ix <= i)), ("current piece", z3.SubString(t, ix, i - ix) == piece)]
def split_havoc(eng, fr, st, i):
    fr.locals["arguments"], fr.locals["quote"], fr.locals["index"] = M.SList(eng.fresh("arguments", M.ValSeq)), eng.sym("str", "quote"), eng.sym("int", "index")
    eng.ghost["fold"].at(i)
    t, ix = str_of(fr.locals["value"]), zi(fr.locals["index"])
    eng.assume(z3.Implies(z3.And(ix >= 0, ix <= i, i < z3.Length(t)), z3.SubString(t, ix, i + 1 - ix) == z3.Concat(z3.SubString(t, ix, i - ix), z3.SubString(t, i, 1))))     # slices: t[a:b] + t[b] == t[a:b+1]
CONTRACT_LOOPS["argument_texts"] = {("syncanysql.utils:split_arguments", 0): LoopSpec(split_inv, split_havoc, modifies=lambda eng, fr, st: [fr.locals["arguments"]])}
CONTRACT_SUMMARIES["argument_texts"] = {C.arguments: s_arguments}
SETUP = {"interpolation": modular, "rendering": interpolation_setup}
def formats(eng, name):
    return {k: eng.sym("str", k) for k in ("datetime_format", "date_format", "time_format") if eng.branch(eng.fresh("has_" + k, B))}
SYMS = {**SYMS, "formats": formats, "no_formats": lambda eng, n: {}, "sql": lambda eng, n: eng.sym("str", n), "value": lambda eng, n: eng.sym("any", n)}
