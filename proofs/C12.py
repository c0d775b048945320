"""Prover side of C12: a document is a tree of nodes (a container's members know their container and step); a path is an
arbitrary sequence of steps; writes are recorded, and reading after them is a fold over the steps that respects the record."""
from proofs.common import *
from contracts import C12 as C
from pyvc.engine import SymMethod
from syncanysql.calculaters.mysql_funcs import json_funcs as JF
ASSUMPTIONS = ["a document is a tree: no object or array occurs in it at two places (json)", "parse_json_path reads a path text as the steps it names (bounded check path_text)"]
DICT, LIST, TEXT, OTHER = range(4)
def UF(eng):
    u = eng.ghost.get("uf")
    if u is None:
        u = eng.ghost["uf"] = type("U", (), {})()
        for n, s in dict(kind=[I, I], size=[I, I], elem=[I, I, I], member=[I, S, I], has=[I, S, B], parent=[I, I], index=[I, I], name=[I, S], depth=[I, I], count=[S, I], isint=[S, I, B], idx=[S, I, I], step=[S, I, S]).items(): setattr(u, n, eng.uf("doc_" + n, *s))
    return u
def elem(eng, x, i):
    u = UF(eng); c = u.elem(x, z3.simplify(i))
    eng.axiom(("elem", c.get_id()), lambda: z3.And(u.parent(c) == x, u.index(c) == i, u.depth(c) == u.depth(x) + 1, u.kind(c) >= 0, u.kind(c) <= 3, u.size(c) >= 0, z3.Implies(u.kind(x) == TEXT, u.kind(c) == TEXT)))
    return c
def member(eng, x, s):
    u = UF(eng); c = u.member(x, s)
    eng.axiom(("member", c.get_id()), lambda: z3.And(u.parent(c) == x, u.name(c) == s, u.depth(c) == u.depth(x) + 1, u.kind(c) >= 0, u.kind(c) <= 3, u.size(c) >= 0))
    return c
def log(eng): return eng.ghost.setdefault("log", [])
def size(eng, x, ver):
    t = UF(eng).size(x)
    for w in log(eng)[:ver]:
        if w[0] in ("append", "del_at"): t = z3.If(x == w[1], t + (1 if w[0] == "append" else -1), t)
    return t
def child(eng, x, isint, idx, name, ver):
    """(found, node) one step down, after the first `ver` writes"""
    u = UF(eng)
    k = u.kind(x)
    e, m = elem(eng, x, idx), member(eng, x, name)
    ok = z3.If(isint, z3.And(z3.Or(k == LIST, k == TEXT), idx < u.size(x)), z3.And(k == DICT, u.has(x, name)))
    node = z3.If(isint, e, m)
    if ver > 1: raise Unsupported("more than one write")
    for w in log(eng)[:ver]:
        here = x == w[1]
        if w[0] == "set_at": hit, o, v = z3.And(here, isint, idx == w[2]), z3.BoolVal(True), w[3]
        elif w[0] == "append": hit, o, v = z3.And(here, isint, idx == w[2]), z3.BoolVal(True), w[3]
        elif w[0] == "set_name": hit, o, v = z3.And(here, z3.Not(isint), name == w[2]), z3.BoolVal(True), w[3]
        elif w[0] == "del_name": hit, o, v = z3.And(here, z3.Not(isint), name == w[2]), z3.BoolVal(False), node
        elif w[0] == "del_at": hit, o, v = z3.And(here, isint, idx >= w[2]), idx + 1 < u.size(x), elem(eng, x, idx + 1)
        ok, node = z3.If(hit, o, ok), z3.If(hit, v, node)
    return ok, node
class Doc(M.LazyInstance):
    def __init__(self, t): self.t = z3.simplify(t)
    def eq(self, eng, o): return M.mkbool(self.t == o.t) if isinstance(o, Doc) else False
    def truth(self, eng): raise Unsupported("truth of a document")
    def isinstance(self, eng, cls):
        k = UF(eng).kind(self.t)
        ks = [c for t, c in ((dict, DICT), (list, LIST), (str, TEXT)) if t in cls]
        if any(c not in (dict, list, str) for c in cls): raise Unsupported("isinstance of a document")
        return eng.branch(z3.Or([k == c for c in ks]))
    def kind(self, eng, *ks): return eng.entailed(z3.Or([UF(eng).kind(self.t) == k for k in ks]))
    def len(self, eng): return SInt(size(eng, self.t, len(log(eng))))
    def getattr(self, eng, name): return SymMethod(self, name)
    def contains(self, eng, x):
        if not self.kind(eng, DICT) or not isinstance(x, (SStr, str)): raise Unsupported("in a document")
        return M.mkbool(child(eng, self.t, z3.BoolVal(False), z3.IntVal(0), str_of(x), len(log(eng)))[0])
    def getitem(self, eng, k):
        if isinstance(k, slice): return Opaque()
        if isinstance(k, (SStr, str)):
            if not self.kind(eng, DICT): raise Unsupported("member of something else")
            ok, n = child(eng, self.t, z3.BoolVal(False), z3.IntVal(0), str_of(k), len(log(eng)))
            if not eng.branch(ok): eng.raise_(KeyError, "key")
            return Doc(n)
        if not self.kind(eng, LIST, TEXT): raise Unsupported("element of something else")
        i = int_of(k)
        if not eng.entailed(i >= 0): raise Unsupported("negative index")
        ok, n = child(eng, self.t, z3.BoolVal(True), i, z3.StringVal(""), len(log(eng)))
        if not eng.branch(ok): eng.raise_(IndexError, "index")
        return Doc(n)
    def write(self, eng, *w):
        M.log_write(eng, self, w[0]); log(eng).append((w[0], self.t) + w[1:])
    def setitem(self, eng, k, v):
        if not isinstance(v, Doc): raise Unsupported("another value written")
        if isinstance(k, (SStr, str)):
            if not self.kind(eng, DICT): raise Unsupported("member of something else")
            return self.write(eng, "set_name", str_of(k), v.t)
        if not self.kind(eng, LIST): eng.raise_(TypeError, "item assignment")
        i = int_of(k)
        if not eng.branch(z3.And(i >= 0, i < size(eng, self.t, len(log(eng))))): eng.raise_(IndexError, "index")
        self.write(eng, "set_at", i, v.t)
    def delitem(self, eng, k):
        if isinstance(k, (SStr, str)):
            if not self.kind(eng, DICT): raise Unsupported("member of something else")
            if not eng.branch(bool_of(self.contains(eng, k))): eng.raise_(KeyError, "key")
            return self.write(eng, "del_name", str_of(k))
        if not self.kind(eng, LIST): eng.raise_(TypeError, "item deletion")
        i = int_of(k)
        if not eng.branch(z3.And(i >= 0, i < size(eng, self.t, len(log(eng))))): eng.raise_(IndexError, "index")
        self.write(eng, "del_at", i)
    def method(self, eng, name, args, kw):
        if name == "append" and self.kind(eng, LIST) and isinstance(args[0], Doc): return self.write(eng, "append", size(eng, self.t, len(log(eng))), args[0].t)
        if name == "pop" and len(args) >= 1:
            if len(args) > 1 and isinstance(args[0], (SStr, str)) and not eng.branch(bool_of(self.contains(eng, args[0]))): return args[1]
            r = self.getitem(eng, args[0]); self.delitem(eng, args[0]); return r
        raise Unsupported("document.%s" % name)
    def strof(self, eng): return Opaque()
class Opaque(M.LazyInstance):
    def binop(self, eng, op, o, reflected): return Opaque()
    def getattr(self, eng, name): raise Unsupported("opaque text")
class Keys(M.LazyInstance):
    """the steps of a path text (with one index changed by a constant)"""
    def __init__(self, t, at=None, by=0): self.t, self.at, self.by = t, at, by
    def n(self, eng):
        c = UF(eng).count(self.t); eng.axiom(("count", c.get_id()), lambda: c >= 0); return c
    def step(self, eng, i):
        """(isint, idx, name) of step i"""
        u = UF(eng); i = z3.simplify(i)
        a, b, c = u.isint(self.t, i), u.idx(self.t, i), u.step(self.t, i)
        eng.axiom(("step", b.get_id()), lambda: z3.And(b >= 0, z3.Implies(z3.Not(a), c != z3.StringVal("*")) if self.t.get_id() in eng.ghost.get("plain", ()) else z3.BoolVal(True)))
        if self.at is not None: b = z3.If(i == self.at, b + self.by, b)
        return a, b, c
    def len(self, eng): return SInt(self.n(eng))
    def getattr(self, eng, name): raise Unsupported("steps." + name)
    def getitem(self, eng, k):
        if isinstance(k, slice): raise Unsupported("slice of the steps")
        i = int_of(k)
        if not eng.entailed(z3.And(i >= 0, i < self.n(eng))): raise Unsupported("step outside the path")
        a, b, c = self.step(eng, i)
        return SInt(b) if eng.branch(a) else SStr(c)
def parse(eng, a, k):
    if not isinstance(a[0], SStr): raise Unsupported("path")
    return Keys(z3.simplify(a[0].t))
def plain(eng, a, k):
    eng.ghost.setdefault("plain", set()).add(a[0].t.get_id())
    return True
def same_step(x, y): return z3.And(x[0] == y[0], z3.If(x[0], x[1] == y[1], x[2] == y[2]))
def walk(eng, keys, ver):
    """fold of the steps over the document after `ver` writes: [still there, node]"""
    name = "walk_%s_%d_%s" % (keys.t.get_id(), ver, "" if keys.at is None else keys.at.get_id())
    if name not in eng.ghost:
        def step(i, s):
            ok, n = child(eng, s[1], *keys.step(eng, i), ver)
            return [z3.And(s[0], ok), z3.If(z3.And(s[0], ok), n, s[1])]
        root = eng.ghost["root"]
        eng.ghost[name] = Fold(eng, name, [z3.BoolVal(True), root], step, keys.n(eng), stopped=lambda s: z3.Not(s[0]))
        if ver: relate(eng, keys)
    return eng.ghost[name]
def lemma(eng, what, h, upto):
    i = eng.fresh("i", I)
    eng.prove("lemma: %s (initially)" % what, z3.Implies(upto >= 0, h(z3.IntVal(0))))
    now, nxt = h(i), h(z3.simplify(i + 1))
    eng.prove("lemma: %s (induction step)" % what, z3.Implies(z3.And(i >= 0, i < upto, now), nxt))
def relate(eng, keys):
    """reading a path after the one write: until it passes the written location it meets what it met before"""
    p, n = eng.ghost["p"], eng.ghost["n"]
    wp = walk(eng, p, 0)
    if keys.t.get_id() == p.t.get_id(): d, q0 = z3.simplify(n - 1), keys
    else:
        d, q0 = eng.ghost["d"], keys
        w = log(eng)[0]
        if w[0] == "del_at" and eng.entailed(z3.And(d == n - 1, keys.step(eng, d)[0], keys.step(eng, d)[1] >= w[2])): q0 = Keys(keys.t, d, 1)
    new, old, u = walk(eng, keys, 1), walk(eng, q0, 0), UF(eng)
    upto = keys.n(eng) if q0 is not keys or not same_location(eng, keys, d) else d
    def h(i):
        for f in (new, old, wp): f.at(i)
        a, b, c = new.state(i), old.state(i), wp.state(i)
        eng.ghost["facts"](i) if "facts" in eng.ghost else None
        below = z3.If(i <= d, z3.And(b[0] == c[0], b[1] == c[1]), z3.Implies(z3.And(i <= n - 1, b[0]), b[1] != c[1]))
        return z3.And(a[0] == b[0], a[1] == b[1], z3.Implies(b[0], u.depth(b[1]) == i), below)
    for x in (d, z3.simplify(n - 1)): wp.at(x)
    # the location that was written lies at the end of p, and all of p before it is there
    c = wp.state(z3.simplify(n - 1))
    eng.prove("the write happened at the last step of the path", log(eng)[0][1] == c[1])
    eng.prove("the path led there", c[0])
    def back(i): return z3.Implies(z3.And(i >= 0, i < n - 1, wp.state(z3.simplify(i + 1))[0]), wp.state(i)[0])
    i = eng.fresh("i", I)
    for f in (new, old, wp): f.at(i)
    eng.prove("lemma: a path that exists exists all along (step)", back(i))
    def deep(i): wp.at(i); return z3.Implies(wp.state(z3.simplify(i + 1))[0], u.depth(wp.state(z3.simplify(i + 1))[1]) == u.depth(wp.state(i)[1]) + 1)
    eng.prove("lemma: a step leads one level down", z3.Implies(z3.And(i >= 0, i < n - 1), deep(i)))
    # existence and depth all along p follows from existence at its end (downward induction by the lemma above)
    def along(i):
        eng.assume(z3.Implies(z3.And(i >= 0, i <= n - 1), wp.state(i)[0]))
        eng.assume(z3.Implies(z3.And(i >= 0, i <= n - 1), u.depth(wp.state(i)[1]) == i))
        if keys.t.get_id() != p.t.get_id(): eng.assume(z3.Implies(z3.And(i >= 0, i < d), same_step(p.step(eng, i), keys.step(eng, i))))   # what parting means
    eng.ghost["facts"] = along
    along(z3.simplify(n - 1))
    lemma(eng, "reading after the write", h, upto)
    del eng.ghost["facts"]
    eng.assume(z3.Implies(upto >= 0, h(upto)))
    def known(i):
        eng.ghost["facts"] = along; eng.assume(z3.Implies(z3.And(i >= 0, i <= upto), h(z3.simplify(i)))); del eng.ghost["facts"]
    eng.ghost["known"] = known
    for f in (new, old): f.at(upto); f.stable(upto)
    new.stable(z3.simplify(upto + 1))
def same_location(eng, keys, d):
    """does the path take the written step itself"""
    return keys.t.get_id() == eng.ghost["p"].t.get_id() or eng.entailed(z3.And(d == eng.ghost["n"] - 1, same_step(keys.step(eng, d), eng.ghost["p"].step(eng, d))))
def located(eng, a, k):
    doc, keys, n = a
    eng.ghost["root"] = doc.t
    w = walk(eng, keys, len(log(eng)))
    n = z3.simplify(int_of(n))
    w.at(n); w.at(z3.simplify(n - 1)); w.stable(n)
    s = w.state(n)
    if not eng.branch(s[0]): return (False, None)
    return (True, Doc(s[1]))
def parting(eng, a, k):
    p, q, n = a[0], a[1], int_of(a[2])
    d = eng.fresh("parting", I)
    eng.ghost["p"], eng.ghost["n"], eng.ghost["d"] = p, z3.simplify(n), d
    eng.assume(z3.And(d >= -1, d < n, d < q.n(eng), z3.Implies(z3.And(d >= 0, d < n - 1), z3.Not(same_step(p.step(eng, d), q.step(eng, d))))))
    return SInt(d)
def moved(eng, a, k):
    return Keys(a[0].t, int_of(a[1]), int(a[2]))
def doc(eng, name):
    n = eng.fresh(name, I); u = UF(eng)
    eng.assume(z3.And(u.depth(n) == 0, z3.Or(u.kind(n) == DICT, u.kind(n) == LIST), u.size(n) >= 0))
    eng.ghost["root"] = n
    return Doc(n)
def value(eng, name):
    n = eng.fresh(name, I); u = UF(eng); eng.assume(z3.And(u.kind(n) >= 0, u.kind(n) <= 3, u.size(n) >= 0)); return Doc(n)
SYMS = {"document": doc, "value": value, "docpaths": lambda eng, name: (doc(eng, name), eng.sym("str", name + "_path"), eng.sym("str", name + "_other"))}
SUMMARIES = {JF.parse_json_path: parse, C.plain: plain, C.located: located, C.parting: parting, C.moved: moved, C.identical: lambda eng, a, k: M.mkbool(a[0].t == a[1].t) if isinstance(a[0], Doc) and isinstance(a[1], Doc) else False, C.snapshot: lambda eng, a, k: a[0], C.alike: lambda eng, a, k: alike(eng, a[0], a[1])}
def alike(eng, x, y):
    if x[0] != y[0]: return False
    return True if not x[0] else M.mkbool(x[1].t == y[1].t)
def below_text(eng, w, i):
    """below a text there are only characters (lemma, by induction): nothing is written there"""
    u, k, j = UF(eng), eng.fresh("k", I), z3.simplify(w.n - 1)
    w.at(k); a, b = w.state(k), w.state(z3.simplify(k + 1))
    eng.prove("lemma: a step from a text leads to a text", z3.Implies(z3.And(k >= 0, k < w.n, u.kind(a[1]) == TEXT, b[0]), z3.And(a[0], u.kind(b[1]) == TEXT)))
    eng.prove("lemma: a path that exists exists all along", z3.Implies(z3.And(k >= 0, k < w.n, b[0]), a[0]))
    s, e = w.state(i), w.state(j)
    w.at(j)
    eng.assume(z3.Implies(z3.And(i >= 0, i + 1 <= j, e[0]), w.state(z3.simplify(i + 1))[0]))
    eng.assume(z3.Implies(z3.And(i >= 0, i <= j, u.kind(s[1]) == TEXT, e[0]), u.kind(e[1]) == TEXT))
# the loops over the steps
def get_inv(eng, fr, st, i):
    w = walk(eng, fr.locals["json_path_keys"], len(log(eng))); w.at(i); w.stable(i); s = w.state(z3.simplify(i))
    return [("at the location", z3.And(s[0], node(fr.locals["json_data"]) == s[1]))]
def node(d):
    if not isinstance(d, Doc): raise Unsupported("another document")
    return d.t
def get_havoc(eng, fr, st, i):
    w = walk(eng, fr.locals["json_path_keys"], len(log(eng))); fr.locals["json_data"] = Doc(w.state(i)[1]); w.at(i)
    if log(eng): eng.ghost["known"](i)
    w.stable(i); w.stable(z3.simplify(i + 1))
def write_inv(eng, fr, st, i):
    return get_inv(eng, fr, st, i) + [("the last step ends it", z3.Or(i == 0, i < fr.locals["json_path_keys"].n(eng)))]
def write_havoc(eng, fr, st, i):
    get_havoc(eng, fr, st, i); below_text(eng, walk(eng, fr.locals["json_path_keys"], 0), i)
def spec(n): return LoopSpec(get_inv if n == "get" else write_inv, get_havoc if n == "get" else write_havoc, modifies=lambda eng, fr, st: [fr.locals["json_data"]], name=" (steps)")
R_ = "syncanysql.calculaters.mysql_funcs.json_funcs:"
LOOPS = {(R_ + "%s_json_path_value.<locals>.%s_value" % (n, n), 0): spec(n) for n in ("get", "set", "remove")}
