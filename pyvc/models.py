"""Python semantics of the operations and builtins used by the verified code,
over symbolic values.  Everything not listed here is Unsupported (never ignored)."""
import ast, types, math, operator, datetime, decimal, functools, fractions, itertools, random, json
import z3
from .values import *
from . import values as V

I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
NUM = ("bool", "int", "float", "dec")
TEMP = ("datetime", "date", "time")
OPAQUE = ("bytes", "list", "dict", "set", "tuple", "other")
NATIVE_KINDS = tuple(k for k in KINDS if k != "other")

# ---------------------------------------------------------------- containers
class SSeq(Sym):
    """immutable symbolic sequence: length term and element function"""
    __slots__ = ("n", "get", "arr", "off", "spec")     # spec: loop invariant that goes with the data (LoopSpec)
    def __init__(self, n, get, arr=None, off=None, spec=None): self.n, self.get, self.arr, self.off, self.t, self.spec = n, get, arr, off, n, spec
    def __repr__(self): return "<SSeq len=%s>" % self.n
class SList(Sym):
    """mutable symbolic list over Seq(Val)"""
    __slots__ = ()
class SSet(Sym):
    """mutable symbolic set: Array(Val, Bool)"""
    __slots__ = ()
class SMap(Sym):
    """mutable symbolic dict: presence and value arrays"""
    __slots__ = ("has", "val", "ks", "vs", "order")
    def __init__(self, has, val, ks, vs): self.has, self.val, self.ks, self.vs, self.t = has, val, ks, vs, has; self.order = None
    def __repr__(self): return "<SMap>"
class SymArgs:
    def __init__(self, fixed, seq): self.fixed, self.seq = fixed, seq
class Gen:
    """eagerly evaluated generator expression"""
    def __init__(self, items): self.items, self.i = items, 0
class SuperBuiltin:
    def __init__(self, f, obj, name): self.f, self.obj, self.name = f, obj, name
class LazyInstance:
    """base for symbolic structured objects supplied by a contract"""
    def getattr(self, eng, name): raise Unsupported("attribute %s" % name)
    def iterate(self, eng): raise Unsupported("iteration over %s" % type(self).__name__)
    def setattr(self, eng, name, v): raise Unsupported("attribute store %s" % name)

ValSeq = z3.SeqSort(Val)
MAP_METHODS = {"get", "pop", "items", "keys", "values", "update", "copy", "clear", "setdefault"}

def is_symseq(v): return isinstance(v, (SSeq, SList))

def has_sym(x, depth=0, seen=None):
    if isinstance(x, (Sym, LazyInstance)): return True
    if x is None or isinstance(x, (bool, int, float, str, bytes, types.FunctionType, types.ModuleType, type)): return False
    if depth > 12: raise Unsupported("deep structure")
    if isinstance(x, (list, tuple, set, frozenset)): return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.keys()) or any(has_sym(e, depth + 1) for e in x.values()) or (type(x) is not dict and any(has_sym(v, depth + 1) for v in vars(x).values() if v is not x))
    if isinstance(x, Gen): return has_sym(x.items, depth + 1)
    from .engine import IFunc, SymMethod
    if isinstance(x, (IFunc, SymMethod)): return True
    if isinstance(x, BaseException): return has_sym(x.args, depth + 1)
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and type(x).__module__.startswith(("syncany", "contracts")):
        return any(has_sym(e, depth + 1) for e in d.values() if e is not x)
    return False

# ---------------------------------------------------------------- equality / structural sameness
def same_term(eng, a, b):
    """identity of type and value (used by specifications), as bool or SBool"""
    if isinstance(a, (SVal, SInt, SBool, SFloat, SDec, SStr, SObj)) or isinstance(b, (SVal, SInt, SBool, SFloat, SDec, SStr, SObj)):
        try: return SBool(to_val(a) == to_val(b))
        except Unsupported:
            ka, kb = (None if isinstance(a, SVal) else seq_kind(a)), (None if isinstance(b, SVal) else seq_kind(b))
            if isinstance(a, SVal) or isinstance(b, SVal):
                v, o = (a, b) if isinstance(a, SVal) else (b, a)
                k = pykind(o)
                if k in ("list", "dict", "set", "tuple"): 
                    if isinstance(o, Sym) or k in OBJ_KINDS:
                        # an opaque term can only equal a structured value if it has the same kind; undecided
                        if eng.branch(z3.Not(is_kind(k, v.t))): return False
                        raise Unsupported("sameness of opaque and structured %s" % k)
                return False
            return False
    if isinstance(a, (SList, SSeq)) or isinstance(b, (SList, SSeq)):
        return seq_eq(eng, a, b, same_term)
    if isinstance(a, SSet) or isinstance(b, SSet):
        if isinstance(a, (SSet, set)) and isinstance(b, (SSet, set)):
            return SBool(set_term(a) == set_term(b))
        return False
    if isinstance(a, SMap) or isinstance(b, SMap):
        return map_eq(eng, a, b)
    if isinstance(a, LazyInstance) and type(a) is type(b) and hasattr(a, "eq"): return a.eq(eng, b)
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return False
        return conj([same_term(eng, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if set(a.keys()) != set(b.keys()): return False
        return conj([same_term(eng, a[k], b[k]) for k in a])
    if has_sym(a) or has_sym(b):
        if a is b: return True
        raise Unsupported("sameness of %r" % type(a))
    if a is b: return True
    if isinstance(a, (set, frozenset, str, int, float, bool, decimal.Decimal, bytes, datetime.date, datetime.time, datetime.timedelta, type(None))):
        return bool(a == b)
    return a is b

def seq_kind(x):
    return None

def pykind(x):
    """kind of any value"""
    k = kind_of(x)
    if k: return k
    if isinstance(x, (SList, list)): return "list"
    if isinstance(x, (SSeq, tuple)): return "tuple"
    if isinstance(x, (SSet, set)): return "set"
    if isinstance(x, (SMap, dict)): return "dict"
    return "obj"

def conj(xs):
    ts = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ts.append(bool_of(x))
    if not ts: return True
    return SBool(z3.And(ts))
def disj(xs):
    ts = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ts.append(bool_of(x))
    if not ts: return False
    return SBool(z3.Or(ts))
def neg(x):
    return (not x) if isinstance(x, bool) else SBool(z3.Not(x.t))
def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)

def seq_term(x):
    if isinstance(x, SList): return x.t
    if isinstance(x, (list, tuple)):
        if not x: return z3.Empty(ValSeq)
        us = [z3.Unit(to_val(e)) for e in x]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    raise Unsupported("seq_term %r" % type(x))
def set_term(x):
    if isinstance(x, SSet): return x.t
    t = z3.K(Val, z3.BoolVal(False))
    for e in x: t = z3.Store(t, canon(e), z3.BoolVal(True))
    return t

def seq_eq(eng, a, b, eq):
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        return SBool(seq_term(a) == seq_term(b))
    if isinstance(a, SSeq) and isinstance(b, SSeq) and a.arr is not None and b.arr is not None and a.arr is b.arr:
        return SBool(z3.And(a.n == b.n, a.off == b.off))
    if isinstance(a, SSeq) and isinstance(b, (tuple,)) or isinstance(b, SSeq) and isinstance(a, tuple):
        s, c = (a, b) if isinstance(a, SSeq) else (b, a)
        if not eng.branch(s.n == len(c)): return False
        return conj([eq(eng, s.get(z3.IntVal(i)), e) for i, e in enumerate(c)])
    if pykind(a) != pykind(b): return False
    raise Unsupported("equality of symbolic sequences")

def map_eq(eng, a, b):
    if not (isinstance(a, SMap) and isinstance(b, SMap)): raise Unsupported("map equality")
    k = eng.fresh("k", a.ks)
    return SBool(z3.ForAll([k], z3.And(z3.Select(a.has, k) == z3.Select(b.has, k),
                           z3.Implies(z3.Select(a.has, k), z3.Select(a.val, k) == z3.Select(b.val, k)))))

def py_eq(eng, a, b):
    """Python == as bool or SBool"""
    a, b = eng.resolve(a), eng.resolve(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym) and not has_sym(a) and not has_sym(b):
        if isinstance(a, LazyInstance) or isinstance(b, LazyInstance): return a is b
        try: return bool(a == b)
        except Exception as e: raise _pyraise(e)
    if isinstance(a, LazyInstance) or isinstance(b, LazyInstance):
        x, y = (a, b) if isinstance(a, LazyInstance) else (b, a)
        if hasattr(x, "eq"): return x.eq(eng, y)
        return a is b
    ka, kb = pykind(a), pykind(b)
    if isinstance(a, SClass) or isinstance(b, SClass):
        if isinstance(a, SClass) and isinstance(b, SClass): return SBool(a.t == b.t)
        return False
    if ka in NUM and kb in NUM:
        if ka in ("bool", "int") and kb in ("bool", "int"): return mkbool(int_of(a) == int_of(b))
        return mkbool(real_of(a) == real_of(b))
    if ka == "str" and kb == "str": return mkbool(str_of(a) == str_of(b))
    if ka == "none" or kb == "none":
        if ka == kb: return True
        if "other" in (ka, kb):
            k = a if ka == "other" else b
            return SBool(eng.uf("eq_none", I, B)(k.t)) if isinstance(k, SObj) else False
        return False
    if ka == kb and ka in TEMP:
        ta, tb = key_of(a), key_of(b)
        return mkbool(ta == tb)
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b): return False
            return conj([py_eq(eng, x, y) for x, y in zip(a, b)])
        # element by element for values without an equality of their own (numbers of different kinds compare
        # equal in Python: an equal sequence of values is sufficient, so only the positive answer is used)
        ta, tb = seq_term(a), seq_term(b)
        if eng.branch(ta == tb): return True
        return SBool(z3.And(z3.Length(ta) == z3.Length(tb), eng.uf("list_eq", ValSeq, ValSeq, B)(ta, tb)))
    if isinstance(a, (SSet, set)) and isinstance(b, (SSet, set)): return mkbool(set_term(a) == set_term(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return conj([py_eq(eng, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict) and not isinstance(a, Sym) and not isinstance(b, Sym):
        if set(a) != set(b): return False
        return conj([py_eq(eng, a[k], b[k]) for k in a])
    if "obj" in (ka, kb):
        x = a if ka == "obj" else b
        for k in type(x).__mro__:
            if "__eq__" in k.__dict__ and k is not object and isinstance(k.__dict__["__eq__"], types.FunctionType):
                raise Unsupported("__eq__ of %r" % type(x))
        return a is b
    if ka == kb or "other" in (ka, kb):
        if isinstance(a, SObj) or isinstance(b, SObj):
            va, vb = to_val(a), to_val(b)
            f = eng.uf("U_eq", Val, Val, B)
            return SBool(z3.Or(va == vb, f(va, vb)))
        raise Unsupported("== on %s" % ka)
    # different builtin kinds never compare equal (numbers handled above); dict/list/... vs others
    return False

def key_of(x):
    return x.t if isinstance(x, SObj) else const_key_ordered(x)
def const_key_ordered(x):
    raise Unsupported("concrete temporal mixed with symbolic")

def str_lt(eng, a, b):
    ta, tb = str_of(a), str_of(b)
    k = eng.uf("str_order", S, R)
    eng.axiom(("strord", min(ta.get_id(), tb.get_id()), max(ta.get_id(), tb.get_id())), lambda: z3.Implies(k(ta) == k(tb), ta == tb))
    return k(ta), k(tb)

def py_ord(eng, op, a, b):
    """Python < <= > >="""
    a, b = eng.resolve(a), eng.resolve(b)
    if isinstance(a, LazyInstance) and hasattr(a, "order"): return a.order(eng, op, b)
    f = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op]
    if not has_sym(a) and not has_sym(b):
        try: return bool(f(a, b))
        except Exception as e: raise _pyraise(e)
    ka, kb = pykind(a), pykind(b)
    if ka in NUM and kb in NUM:
        if ka in ("bool", "int") and kb in ("bool", "int"): return mkbool(f(int_of(a), int_of(b)))
        return mkbool(f(real_of(a), real_of(b)))
    if ka == "str" and kb == "str":
        if not isinstance(a, Sym) and not isinstance(b, Sym): return f(a, b)
        x, y = str_lt(eng, a, b)
        return mkbool(f(x, y))
    if ka == kb and ka in TEMP:
        aware = eng.uf("aware_" + ka, I, B)
        if ka != "date" and eng.branch(aware(key_of(a)) != aware(key_of(b))): eng.raise_(TypeError, "can't compare offset-naive and offset-aware")
        return mkbool(f(key_of(a), key_of(b)))
    if isinstance(a, SObj) and isinstance(b, SObj) and ka == kb and ka in OPAQUE and ka != "dict" or ("other" in (ka, kb) and kind_of(a) and kind_of(b)):
        va, vb = to_val(a), to_val(b)
        # normalise so that a>b and b<a share one function
        if op in ("Gt", "GtE"): va, vb = vb, va
        nm = "lt" if op in ("Lt", "Gt") else "le"
        if eng.branch(eng.uf("R_" + nm, Val, Val, B)(va, vb)): eng.raise_(TypeError, "unorderable")
        return SBool(eng.uf("U_" + nm, Val, Val, B)(va, vb))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        for x, y in zip(a, b):
            if not eng.branch(bool_of(py_eq(eng, x, y))): return py_ord(eng, op, x, y)
        return f(len(a), len(b))
    if isinstance(a, (SSet, SMap, SList)) or isinstance(b, (SSet, SMap, SList)): raise Unsupported("ordering of containers")
    eng.raise_(TypeError, "'%s' not supported between instances of %s and %s" % (op, ka, kb))

def compare(eng, op, a, b):
    if op == "Is" or op == "IsNot":
        r = is_(eng, a, b)
        return r if op == "Is" else neg(r)
    if op == "Eq": return py_eq(eng, a, b)
    if op == "NotEq": return neg(py_eq(eng, a, b))
    if op in ("Lt", "LtE", "Gt", "GtE"): return py_ord(eng, op, a, b)
    if op == "In": return contains(eng, b, a)
    if op == "NotIn": return neg(contains(eng, b, a))
    raise Unsupported("compare " + op)

def is_(eng, a, b):
    if a is b: return True
    for x, y in ((a, b), (b, a)):
        if y is None:
            if isinstance(x, SVal): return mkbool(Val.is_none(x.t))
            return x is None
        if y is True or y is False:
            if isinstance(x, SVal): return mkbool(x.t == Val.bool(z3.BoolVal(y)))
            if isinstance(x, SBool): return mkbool(x.t == y)
            return x is y
    if isinstance(a, SVal) or isinstance(b, SVal):
        a, b = eng.resolve(a), eng.resolve(b)
        if a is None or b is None: return a is b
    if isinstance(a, Sym) and isinstance(b, Sym) or isinstance(a, Sym) and kind_of(b) or isinstance(b, Sym) and kind_of(a):
        ka, kb = pykind(a), pykind(b)
        if ka != kb: return False
        if ka == "bool": return mkbool(bool_of(a) == bool_of(b))
        if isinstance(a, SClass) and isinstance(b, SClass): return mkbool(a.t == b.t)
        if ka in KINDS:
            # object identity of equal immutable values is unspecified; identity implies sameness
            va, vb = to_val(a), to_val(b)
            f = eng.uf("same_object", Val, Val, B)
            return mkbool(z3.And(va == vb, f(va, vb)))
        return False
    if isinstance(a, Sym) or isinstance(b, Sym): return False
    return a is b

def contains(eng, c, x):
    c = eng.resolve(c) if isinstance(c, SVal) else c
    if id(c) in eng.maps and not isinstance(c, Sym): c = eng.maps[id(c)]
    if isinstance(c, SMap): return mkbool(z3.Select(c.has, map_key(eng, c, x)))
    if isinstance(c, SSet): return mkbool(z3.Select(c.t, canon(x)))
    if isinstance(c, str) and isinstance(x, LazyInstance) and hasattr(x, "is_one"): return any_true(eng, (py_eq(eng, x, e) for e in c))
    if isinstance(c, SStr) or isinstance(c, str) and isinstance(x, Sym):
        x = eng.resolve(x)
        if pykind(x) != "str": eng.raise_(TypeError, "'in <string>' requires string as left operand")
        return mkbool(str_contains(c, x) if is_char(str_of(x)) else has(eng, str_of(c), str_of(x)))
    if isinstance(c, (list, tuple)):
        return any_true(eng, (py_eq(eng, e, x) for e in c))
    if isinstance(c, (set, frozenset)):
        if not has_sym(list(c)) and not has_sym(x):
            try: return x in c
            except Exception as e: raise _pyraise(e)
        return any_true(eng, (py_eq(eng, e, x) for e in sorted(c, key=repr)))
    if isinstance(c, dict):
        if not isinstance(x, Sym) and not has_sym(x):
            try: return x in c
            except Exception as e: raise _pyraise(e)
        return any_true(eng, (py_eq(eng, e, x) for e in list(c.keys())))
    if isinstance(c, (SList,)):
        return mkbool(z3.Contains(c.t, z3.Unit(to_val(x))))
    if isinstance(c, SObj):
        # membership in an opaque container / object
        va, vb = to_val(c), to_val(x)
        if c.kind in TEMP: eng.raise_(TypeError, "not iterable")
        if eng.branch(eng.uf("R_in", Val, Val, B)(va, vb)): eng.raise_(TypeError, "not a container")
        return SBool(eng.uf("U_in", Val, Val, B)(va, vb))
    if c is None or isinstance(c, (SInt, SBool, SFloat, SDec, int, float)): eng.raise_(TypeError, "argument is not iterable")
    if isinstance(c, LazyInstance): return c.contains(eng, x)
    if isinstance(c, type({}.keys())): return contains(eng, list(c), x)
    for k in type(c).__mro__:
        f = k.__dict__.get("__contains__")
        if isinstance(f, types.FunctionType): return eng.truth_term(eng.call(f, [c, x]))
    if not has_sym(c) and not has_sym(x): return x in c
    raise Unsupported("in %r" % type(c))

def str_contains(c, x):
    """x in c for texts; a needle that is one character of a text against a constant is a case distinction"""
    if isinstance(c, str) and isinstance(x, SStr) and is_char(x.t) and len(c) <= 64:
        return char_in(x.t, c)
    return z3.Contains(str_of(c), str_of(x))
def is_char(t):
    if not z3.is_app(t): return False
    k = t.decl().kind()
    return k == z3.Z3_OP_SEQ_AT or k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(2)) and t.arg(2).as_long() == 1
def char_in(t, chars):
    """t (at most one character) is empty or one of chars"""
    code = z3.StrToCode(t)
    rs = []
    for o in sorted({ord(ch) for ch in chars}):
        if rs and rs[-1][1] == o - 1: rs[-1][1] = o
        else: rs.append([o, o])
    return z3.Or([code == -1] + [z3.And(code >= a, code <= b) for a, b in rs])

def any_true(eng, gen):
    acc = []
    for r in gen:
        if r is True: return True if not acc else True
        if r is False: continue
        acc.append(r)
    return disj(acc)

def _pyraise(e):
    from .engine import PyRaise
    return PyRaise(e)

# ---------------------------------------------------------------- arithmetic
def floor_div_int(a, b):  # python floor division, b != 0
    q = a / b   # z3 Int div: euclidean-like (remainder >= 0)
    return z3.If(b > 0, a / b, -((-(a)) / (-(b))) ) if False else z3.If(b > 0, a / b, (-a) / (-b))
def mod_int(a, b): return a - b * floor_div_int(a, b)

BINOPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "Mod": operator.mod,
          "FloorDiv": operator.floordiv, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
          "LShift": operator.lshift, "RShift": operator.rshift, "Pow": operator.pow}

def num_binop(eng, op, a, b, ka, kb):
    isint = ka in ("bool", "int") and kb in ("bool", "int")
    if op in ("BitAnd", "BitOr", "BitXor") :
        if not isint: eng.raise_(TypeError, "unsupported operand type(s) for bit operation")
        if ka == "bool" and kb == "bool":
            x, y = bool_of(a), bool_of(b)
            return mkb({"BitAnd": z3.And(x, y), "BitOr": z3.Or(x, y), "BitXor": z3.Xor(x, y)}[op])
        return mki(eng.uf("int_" + op, I, I, I)(int_of(a), int_of(b)))
    if op in ("LShift", "RShift"):
        if not isint: eng.raise_(TypeError, "unsupported operand type(s) for shift")
        if eng.branch(int_of(b) < 0): eng.raise_(ValueError, "negative shift count")
        return mki(eng.uf("int_" + op, I, I, I)(int_of(a), int_of(b)))
    if "dec" in (ka, kb) and "float" in (ka, kb): eng.raise_(TypeError, "unsupported operand Decimal and float")
    out = "dec" if "dec" in (ka, kb) else ("float" if "float" in (ka, kb) else "int")
    if op in ("Add", "Sub", "Mult"):
        if out == "int": return mki(BINOPS[op](int_of(a), int_of(b)))
        return mkr(out, BINOPS[op](real_of(a), real_of(b)))
    if op in ("Div", "FloorDiv", "Mod"):
        z = (int_of(b) == 0) if kb in ("bool", "int") else (real_of(b) == 0)
        if eng.branch(z):
            if out == "dec" : eng.raise_(decimal.InvalidOperation if op == "Mod" else decimal.DivisionByZero, "division by zero")
            eng.raise_(ZeroDivisionError, "division by zero")
        if op == "Div":
            return mkr("dec" if out == "dec" else "float", real_of(a) / real_of(b))
        if out == "int":
            x, y = int_of(a), int_of(b)
            return mki(floor_div_int(x, y) if op == "FloorDiv" else mod_int(x, y))
        if out == "dec":  # Decimal truncates toward zero
            f = eng.uf("dec_" + op, R, R, R)
            return mkr("dec", f(real_of(a), real_of(b)))
        x, y = real_of(a), real_of(b)
        q = z3.ToReal(z3.ToInt(x / y))
        return mkr("float", q if op == "FloorDiv" else x - y * q)
    if op == "Pow":
        va, vb = to_val(a), to_val(b)
        if eng.branch(eng.uf("R_Pow", Val, Val, B)(va, vb)): eng.raise_(ZeroDivisionError, "pow")
        return SVal(eng.uf("U_Pow", Val, Val, Val)(va, vb))
    raise Unsupported("binop " + op)

def mki(t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)
def mkb(t): return mkbool(t)
def mkr(kind, t): return SFloat(z3.simplify(t)) if kind == "float" else SDec(z3.simplify(t))
def mks(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        s = zs_to_py(t)
        return s
    return SStr(t)
def zs_to_py(t):
    s = t.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)

def binop(eng, op, a, b, inplace=False):
    if not has_sym(a) and not has_sym(b):
        from .engine import IFunc
        try: return BINOPS[op](a, b) if not inplace else {"Add": operator.iadd, "BitOr": operator.ior, "Sub": operator.isub, "Mult": operator.imul}.get(op, BINOPS[op])(a, b)
        except Exception as e: raise _pyraise(e)
    a, b = eng.resolve(a), eng.resolve(b)
    if not has_sym(a) and not has_sym(b): return binop(eng, op, a, b, inplace)
    for x, y, r in ((a, b, False), (b, a, True)):
        if isinstance(x, LazyInstance) and hasattr(x, "binop"): return x.binop(eng, op, y, r)
    ka, kb = pykind(a), pykind(b)
    if ka in NUM and kb in NUM: return num_binop(eng, op, a, b, ka, kb)
    if op == "Add" and ka == "str" and kb == "str": return mks(z3.Concat(str_of(a), str_of(b)))
    if op == "Add" and isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        if isinstance(a, list) and isinstance(b, list): return a + b
        if inplace and isinstance(a, SList): a.t = z3.Concat(a.t, seq_term(b)); return a
        return SList(z3.simplify(z3.Concat(seq_term(a), seq_term(b))))
    if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
    if op in ("BitOr", "BitAnd", "Sub") and isinstance(a, (SSet, set)) and isinstance(b, (SSet, set)):
        x, y = set_term(a), set_term(b)
        if op == "BitOr": t = z3.SetUnion(x, y)
        elif op == "BitAnd": t = z3.SetIntersect(x, y)
        else: t = z3.SetDifference(x, y)
        if inplace and isinstance(a, SSet): a.t = t; return a
        return SSet(t)
    if op == "Mult" and ("str" in (ka, kb)):
        s, n, kn = (a, b, kb) if ka == "str" else (b, a, ka)
        if kn in ("bool", "int"):
            return SStr(eng.uf("str_repeat", S, I, S)(str_of(s), int_of(n)))
        eng.raise_(TypeError, "can't multiply sequence by non-int")
    if op == "Mod" and ka == "str":
        if isinstance(a, str) and kb == "int" and a.count("%d") == 1 and "%" not in a.replace("%d", ""): a = a.replace("%d", "%s")     # an int is written the same way
        if isinstance(a, str) and "%" not in a.replace("%s", "") and a.count("%s") == (len(b) if isinstance(b, tuple) else 1):
            out = ""
            for i, (p, x) in enumerate(zip(a.split("%s"), list(b if isinstance(b, tuple) else (b,)) + [""])):
                out = binop(eng, "Add", binop(eng, "Add", out, p), eng.call(str, [x]) if i < a.count("%s") else "")
            return out
        if isinstance(b, (tuple, list, dict)): return SStr(eng.fresh("fmt", S))
        vb = to_val(b)
        if eng.branch(eng.uf("R_fmt", S, Val, B)(str_of(a), vb)): eng.raise_(TypeError, "format")
        return SStr(eng.uf("U_fmt", S, Val, S)(str_of(a), vb))
    if ka in ("none", "str") and kb in NUM + ("none", "str") or kb in ("none", "str") and ka in NUM + ("none", "str"):
        eng.raise_(TypeError, "unsupported operand type(s) for %s: %s and %s" % (op, ka, kb))
    if kind_of(a) and kind_of(b) and ("none" not in (ka, kb) or "other" in (ka, kb)):
        va, vb = to_val(a), to_val(b)
        known = ("none", "bool", "int", "float", "dec", "str")
        if ka in known and kb in TEMP or kb in known and ka in TEMP: eng.raise_(TypeError, "unsupported operand")
        if ka in TEMP and kb in TEMP and op != "Sub": eng.raise_(TypeError, "unsupported operand")
        if eng.branch(eng.uf("R_" + op, Val, Val, B)(va, vb)): eng.raise_(TypeError, "unsupported operand")
        return SVal(eng.uf("U_" + op, Val, Val, Val)(va, vb))
    if isinstance(a, (SSet, SList, SMap, list, dict, set, tuple)) or isinstance(b, (SSet, SList, SMap, list, dict, set, tuple)) or "none" in (ka, kb):
        if ka in ("list", "set", "dict", "tuple") and ka == kb and not (isinstance(a, Sym) and isinstance(b, Sym) and ka == "dict"):
            raise Unsupported("binop %s on %s" % (op, ka))
        eng.raise_(TypeError, "unsupported operand type(s) for %s: %s and %s" % (op, ka, kb))
    raise Unsupported("binop %s %r %r" % (op, a, b))

def unop(eng, op, v):
    v = eng.resolve(v)
    if not isinstance(v, Sym):
        try: return {"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](v)
        except Exception as e: raise _pyraise(e)
    k = pykind(v)
    if k in ("bool", "int"):
        if op == "USub": return mki(-int_of(v))
        if op == "UAdd": return mki(int_of(v))
        return mki(-int_of(v) - 1)
    if k in ("float", "dec") and op in ("USub", "UAdd"):
        return mkr(k, -v.t if op == "USub" else v.t)
    if k == "other":
        va = to_val(v)
        if eng.branch(eng.uf("R_" + op, Val, B)(va)): eng.raise_(TypeError, "bad operand type for unary")
        return SVal(eng.uf("U_" + op, Val, Val)(va))
    eng.raise_(TypeError, "bad operand type for unary %s: %s" % (op, k))

# ---------------------------------------------------------------- subscripts
def norm_index(eng, i, n):
    """(index term, length term) python negative index normalisation, no bounds check"""
    if eng.entailed(i >= 0): return i
    if eng.entailed(i < 0): return z3.simplify(i + n)
    return z3.If(i < 0, i + n, i)

def slice_bounds(eng, sl, n):
    if sl.step is not None and sl.step not in (1,):
        raise Unsupported("slice step")
    def one(x, default):
        x = eng.resolve(x)
        if x is None: return default
        if pykind(x) not in ("int", "bool"): eng.raise_(TypeError, "slice indices must be integers")
        t = int_of(x)
        if z3.is_int_value(t) and t.as_long() == 0: return t
        if not eng.entailed(t >= 0):
            t = z3.simplify(t + n) if eng.entailed(t < 0) else z3.If(t < 0, t + n, t)
            if not eng.entailed(t >= 0): t = z3.If(t < 0, z3.IntVal(0), t)
        return t if eng.entailed(t <= n) else z3.If(t > n, n, t)
    return one(sl.start, z3.IntVal(0)), one(sl.stop, n)

def idx(x): return x if z3.is_expr(x) else int_of(x)
def str_slice(eng, t, a=None, b=None):
    """t[a:b] as an uninterpreted function of the text and the bounds (only sameness of slices is used)"""
    if (a is None or isinstance(a, int) and a == 0) and isinstance(b, int) and b == 1:
        first = eng.uf("str_first", S, S)(t)
        eng.axiom(("first", t.get_id()), lambda: z3.Implies(z3.Not(eng.uf("str_nonempty", S, B)(t)), first == z3.StringVal("")))
        return first
    x = z3.IntVal(0) if a is None else idx(a)
    if b is None: return eng.uf("str_tail", S, I, S)(t, x)
    return eng.uf("str_slice", S, I, I, S)(t, x, idx(b))
def sub_len(eng, a, b):
    if eng.entailed(b >= a): return z3.simplify(b - a)
    return z3.If(b > a, b - a, z3.IntVal(0))

def getitem(eng, o, k):
    o = eng.resolve(o)
    if id(o) in eng.maps and not isinstance(o, Sym): o = eng.maps[id(o)]
    if isinstance(k, SVal): k = eng.resolve(k)
    if isinstance(o, SMap):
        key = map_key(eng, o, k)
        if not eng.branch(z3.Select(o.has, key)): eng.raise_(KeyError, k)
        return map_value(eng, o, z3.Select(o.val, key))
    if isinstance(o, SStr) or isinstance(o, str) and (has_sym(k.start) or has_sym(k.stop) if isinstance(k, slice) else isinstance(k, Sym)):
        t = str_of(o); n = z3.Length(t)
        if isinstance(k, slice):
            if k.step == -1 and k.start is None and k.stop is None:
                r = eng.uf("str_reverse", S, S)(t)
                eng.axiom(("reverse", r.get_id()), lambda: z3.Length(r) == n)
                return SStr(r)
            if eng.abstract_strings and k.step is None:
                a, b = [eng.resolve(x) for x in (k.start, k.stop)]
                if isinstance(a, int) and b is None and z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.is_string_value(t.arg(0)) and len(zs_to_py(t.arg(0))) == a: return SStr(z3.Concat(*t.children()[1:]) if t.num_args() > 2 else t.arg(1))
                if all(x is None or isinstance(x, (int, SInt)) for x in (a, b)): return SStr(str_slice(eng, t, a, b))
            a, b = slice_bounds(eng, k, n)
            return mks(z3.SubString(t, a, sub_len(eng, a, b)))
        if pykind(k) not in ("int", "bool"): eng.raise_(TypeError, "string indices must be integers")
        if eng.abstract_strings and isinstance(k, int) and k == 0:
            if not eng.branch(eng.uf("str_nonempty", S, B)(t)): eng.raise_(IndexError, "string index out of range")
            return SStr(str_slice(eng, t, 0, 1))
        i = int_of(k)
        if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "string index out of range")
        if z3.is_app(t) and t.decl().name() == "str_reverse":
            base, p = t.arg(0), norm_index(eng, i, n)
            return mks(z3.SubString(base, z3.simplify(z3.Length(base) - 1 - p), 1))
        return mks(z3.SubString(t, norm_index(eng, i, n), 1))
    if isinstance(o, SplitList) and isinstance(k, int) and 0 <= k < len(o.head) and o.t is o.orig: return o.head[k]
    if isinstance(o, SList):
        n = z3.Length(o.t)
        if isinstance(k, slice):
            a, b = slice_bounds(eng, k, n)
            return SList(z3.simplify(z3.SubSeq(o.t, a, sub_len(eng, a, b))))
        if pykind(k) not in ("int", "bool"): eng.raise_(TypeError, "list indices must be integers")
        i = int_of(k)
        if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "list index out of range")
        return SVal(o.t[norm_index(eng, i, n)])
    if isinstance(o, SSeq):
        if isinstance(k, slice):
            a, b = slice_bounds(eng, k, o.n)
            g = o.get
            return SSeq(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda i, a=a: g(z3.simplify(i + a)), o.arr, None if o.off is None else z3.simplify(o.off + a))
        if pykind(k) not in ("int", "bool"): eng.raise_(TypeError, "indices must be integers")
        i = int_of(k)
        if not eng.branch(z3.And(i >= -o.n, i < o.n)): eng.raise_(IndexError, "index out of range")
        return o.get(z3.simplify(norm_index(eng, i, o.n)))
    if isinstance(o, (list, tuple, str)):
        if isinstance(k, slice):
            if not has_sym([k.start, k.stop, k.step]): return o[k]
            n = len(o)
            a, b = slice_bounds(eng, k, z3.IntVal(n))
            # enumerate the finitely many concrete bounds
            ia = eng.choose([a == j for j in range(n + 1)]); ib = eng.choose([b == j for j in range(n + 1)])
            return o[ia:ib]
        if isinstance(k, Sym):
            if pykind(k) not in ("int", "bool"): eng.raise_(TypeError, "indices must be integers")
            i = int_of(k); n = len(o)
            if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "index out of range")
            j = eng.choose([z3.Or(i == q, i == q - n) for q in range(n)])
            return o[j]
        try: return o[k]
        except Exception as e: raise _pyraise(e)
    if isinstance(o, dict):
        f = type(o).__getitem__
        if isinstance(f, types.FunctionType): return eng.call(f, [o, k])
        if isinstance(k, Sym) or has_sym(list(o.keys())) or has_sym(k):
            for kk in list(o.keys()):
                if eng.branch(bool_of(py_eq(eng, kk, k))): return o[kk]
            eng.raise_(KeyError, k)
        try: return o[k]
        except Exception as e: raise _pyraise(e)
    if isinstance(o, LazyInstance): return o.getitem(eng, k)
    if isinstance(o, SObj):
        if o.kind in TEMP or o.kind == "set": eng.raise_(TypeError, "not subscriptable")
        if isinstance(k, slice): raise Unsupported("slice of opaque")
        vo, vk = to_val(o), to_val(k)
        if eng.branch(eng.uf("R_getitem", Val, Val, B)(vo, vk)): eng.raise_(KeyError if o.kind == "dict" else IndexError, "opaque")
        return SVal(eng.uf("U_getitem", Val, Val, Val)(vo, vk))
    if o is None or isinstance(o, (Sym, int, float)): eng.raise_(TypeError, "object is not subscriptable")
    for c in type(o).__mro__:
        f = c.__dict__.get("__getitem__")
        if isinstance(f, types.FunctionType): return eng.call(f, [o, k])
    if not has_sym(k):
        try: return o[k]
        except Exception as e: raise _pyraise(e)
    raise Unsupported("getitem on %r" % type(o))

def log_write(eng, o, k=None):
    h = eng.ghost.get("writes")
    if h is not None: h.append((o, k))

def valuable(x):
    try: to_val(x); return True
    except Exception: return False
def setitem(eng, o, k, v):
    o = eng.resolve(o)
    log_write(eng, o, k)
    if id(o) in eng.maps and not isinstance(o, Sym): o = eng.maps[id(o)]
    if isinstance(o, SMap):
        key = map_key(eng, o, k)
        o.has = z3.Store(o.has, key, z3.BoolVal(True))
        o.val = z3.Store(o.val, key, map_val(eng, o, v)); return
    if isinstance(o, LazyInstance): o.setitem(eng, k, v); return
    if isinstance(o, dict):
        f = type(o).__setitem__
        if isinstance(f, types.FunctionType): eng.call(f, [o, k, v]); return
        if isinstance(k, Sym) or has_sym(k) or has_sym(list(o.keys())):
            for kk in list(o.keys()):
                if eng.branch(bool_of(py_eq(eng, kk, k))): o[kk] = v; return
            if isinstance(k, Sym):
                k = eng.resolve(k)
                if type(o).__contains__ is dict.__contains__ and pykind(k) == "str" and all(isinstance(x, str) for x in o) and all(valuable(x) for x in list(o.values()) + [v]):
                    m = empty_map(S)
                    for kk, vv in o.items(): setitem(eng, m, kk, vv)
                    setitem(eng, m, k, v)
                    eng.maps[id(o)] = m; eng.ghost.setdefault("keep", []).append(o); return
                raise Unsupported("new symbolic key in concrete dict")
            o[k] = v; return
        try: o[k] = v
        except Exception as e: raise _pyraise(e)
        return
    if isinstance(o, list):
        if isinstance(k, slice) and not has_sym([k.start, k.stop]): o[k] = v; return
        if isinstance(k, Sym):
            i = int_of(eng.resolve(k)); n = len(o)
            if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "list assignment index out of range")
            o[eng.choose([z3.Or(i == q, i == q - n) for q in range(n)])] = v; return
        try: o[k] = v
        except Exception as e: raise _pyraise(e)
        return
    if isinstance(o, SList):
        n = z3.Length(o.t); i = int_of(eng.resolve(k))
        if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "list assignment index out of range")
        i = norm_index(eng, i, n)
        o.t = z3.Concat(z3.SubSeq(o.t, 0, i), z3.Unit(to_val(v)), z3.SubSeq(o.t, i + 1, n - i - 1)); return
    if o is None or isinstance(o, (SInt, SBool, SFloat, SDec, SStr, int, float, str, tuple)): eng.raise_(TypeError, "object does not support item assignment")
    for c in type(o).__mro__:
        f = c.__dict__.get("__setitem__")
        if isinstance(f, types.FunctionType): eng.call(f, [o, k, v]); return
    raise Unsupported("setitem on %r" % (o,))

def delitem(eng, o, k):
    log_write(eng, o, k)
    if id(o) in eng.maps and not isinstance(o, Sym): o = eng.maps[id(o)]
    if isinstance(o, SMap):
        key = map_key(eng, o, k)
        if not eng.branch(z3.Select(o.has, key)): eng.raise_(KeyError, k)
        o.has = z3.Store(o.has, key, z3.BoolVal(False)); return
    if isinstance(o, LazyInstance): o.delitem(eng, k); return
    if isinstance(o, (dict, list)) and not has_sym(k):
        try: del o[k]
        except Exception as e: raise _pyraise(e)
        return
    if isinstance(o, list) and isinstance(k, Sym):
        i = int_of(eng.resolve(k)); n = len(o)
        if not eng.branch(z3.And(i >= -n, i < n)): eng.raise_(IndexError, "list assignment index out of range")
        del o[eng.choose([z3.Or(i == q, i == q - n) for q in range(n)])]; return
    raise Unsupported("del on %r" % (o,))

# maps
def map_key(eng, m, k):
    if m.ks == S:
        k = eng.resolve(k)
        if pykind(k) != "str": raise Unsupported("non-string key %r in string map" % (k,))
        return str_of(k)
    return to_val(k)
def map_val(eng, m, v):
    return to_val(v)
def map_value(eng, m, t): return SVal(t)
def new_map(eng, name, ks=None):
    ks = ks if ks is not None else S
    return SMap(eng.fresh(name + "_has", z3.ArraySort(ks, B)), eng.fresh(name + "_val", z3.ArraySort(ks, Val)), ks, Val)
def empty_map(ks=None):
    ks = ks if ks is not None else S
    return SMap(z3.K(ks, z3.BoolVal(False)), z3.K(ks, Val.none), ks, Val)

def dict_store(eng, d, k, v):
    """d[k] = v for a dict under construction (may turn symbolic)"""
    if isinstance(d, SMap): setitem(eng, d, k, v); return d
    if isinstance(k, SVal): k = eng.resolve(k)
    if isinstance(k, Sym):
        if d and not all(isinstance(x, str) for x in d): raise Unsupported("mixed symbolic dict")
        m = empty_map(S if pykind(k) == "str" else Val)
        for kk, vv in d.items(): setitem(eng, m, kk, vv)
        setitem(eng, m, k, v)
        if not d: m.order = (m.has, m.val, [(k, v)])      # the only entry, as long as the maps are these
        return m
    try: d[k] = v
    except Exception as e: raise _pyraise(e)
    return d

def dict_items(eng, d):
    if isinstance(d, SMap) and d.order is not None and d.order[0] is d.has and d.order[1] is d.val: return d.order[2]
    if id(d) in eng.maps or isinstance(d, SMap): raise Unsupported("iteration over symbolic dict")
    if isinstance(d, dict): return list(d.items())
    if isinstance(d, LazyInstance) and hasattr(d, "items"): return d.items(eng)
    raise Unsupported("dict_items %r" % type(d))

def make_set(eng, items):
    if not has_sym(items):
        try: return set(items)
        except Exception as e: raise _pyraise(e)
    s = SSet(z3.K(Val, z3.BoolVal(False)))
    for x in items: set_add(eng, s, x)
    return s

def check_hashable(eng, x):
    """Python hashability; raises TypeError for unhashable values"""
    x = eng.resolve(x)
    k = pykind(x)
    if k in ("list", "dict", "set"): eng.raise_(TypeError, "unhashable type")
    if isinstance(x, SObj) and k in ("tuple", "other"):
        if eng.branch(eng.uf("unhashable", Val, B)(to_val(x))): eng.raise_(TypeError, "unhashable type")
    return x

def canon(x):
    """equality class representative used as set element / dict key (1 == 1.0 == True)"""
    t = to_val(x)
    num = z3.If(Val.is_bool(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)), z3.If(Val.is_int(t), z3.ToReal(Val.i(t)), z3.If(Val.is_float(t), Val.f(t), Val.d(t))))
    isnum = z3.Or(Val.is_bool(t), Val.is_int(t), Val.is_float(t), Val.is_dec(t))
    return z3.simplify(z3.If(isnum, Val.float(num), t))

def set_add(eng, s, x):
    x = check_hashable(eng, x)
    if isinstance(x, tuple):
        x = SObj("tuple", eng.uf("tuple_key", ValSeq, I)(seq_term(list(x))))
    s.t = z3.Store(s.t, canon(x), z3.BoolVal(True))

# ---------------------------------------------------------------- iteration
def iterate(eng, it, key):
    it = eng.resolve(it) if isinstance(it, SVal) else it
    if isinstance(it, Gen): return iter(it.items)
    if isinstance(it, SSeq):
        n = z3.simplify(it.n)
        if z3.is_int_value(n): return iter([it.get(z3.IntVal(i)) for i in range(n.as_long())])
        raise Unsupported("loop over a symbolic sequence needs an invariant: %s" % (key,))
    if isinstance(it, (SList, SMap, SSet)): raise Unsupported("loop over a symbolic container needs an invariant: %s" % (key,))
    if id(it) in eng.maps: raise Unsupported("loop over a symbolic dict needs an invariant: %s" % (key,))
    if isinstance(it, SStr): raise Unsupported("loop over a symbolic string needs an invariant: %s" % (key,))
    if it is None or isinstance(it, (SInt, SBool, SFloat, SDec)) or isinstance(it, (int, float)) or isinstance(it, SObj) and it.kind in TEMP:
        eng.raise_(TypeError, "object is not iterable")
    if isinstance(it, SObj): raise Unsupported("loop over an opaque %s" % it.kind)
    if isinstance(it, LazyInstance):
        eng.ghost["iterated_by"] = key
        return it.iterate(eng)
    if isinstance(it, RangeSym): raise Unsupported("symbolic range needs an invariant: %s" % (key,))
    return iter(it)

class RangeSym:
    def __init__(self, a, b): self.a, self.b = a, b

class LazyGen(LazyInstance):
    """a generator call whose body has not run; run(eng) runs it to its end, on_yield being the consumer"""
    def __init__(self, node, fr): self.node, self.fr, self.started = node, fr, False
    def run(self, eng):
        from .engine import _Return
        if self.started: raise Unsupported("generator resumed")
        self.started = True
        try: eng.exec_block(self.node.body, self.fr)
        except _Return: pass
def run_generator(eng, node, fr):
    h = eng.ghost.get("generators")
    if h is None: raise Unsupported("generator function %s" % fr.qualname)
    return h(eng, node, fr)

def sym_comprehension(eng, e, fr):
    h = eng.ghost.get("comprehension")
    if h is None: return None
    return h(eng, e, fr)
def sym_dictcomp(eng, e, fr):
    h = eng.ghost.get("dictcomp")
    if h is None: return None
    return h(eng, e, fr)

# ---------------------------------------------------------------- attribute access on symbolic values
CLASS_OF = dict(KIND_CLASS)
def class_of(eng, v):
    v = eng.resolve(v)
    if isinstance(v, SObj) and v.kind == "other": return SClass(eng.uf("class_of", I, I)(v.t))
    k = pykind(v)
    if isinstance(v, Sym):
        if k in CLASS_OF: return CLASS_OF[k]
        raise Unsupported("class of %r" % v)
    return type(v)

def sym_getattr(eng, o, name):
    from .engine import SymMethod
    o = eng.resolve(o)
    if not isinstance(o, Sym): return eng.getattr(o, name)
    if name == "__class__": return class_of(eng, o)
    k = pykind(o)
    if k in KIND_CLASS and not isinstance(o, (SList, SMap, SSet, SSeq)):
        cls = KIND_CLASS[k]
        if not hasattr(cls, name): eng.raise_(AttributeError, name)
        if k in TEMP and name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return SInt(eng.uf("%s_%s" % (k, name), I, I)(o.t))
        return SymMethod(o, name)
    if isinstance(o, (SList, SMap, SSet, SSeq)):
        cls = {SList: list, SplitList: list, SMap: dict, SSet: set, SSeq: tuple}[type(o)]
        if not hasattr(cls, name): eng.raise_(AttributeError, name)
        return SymMethod(o, name)
    if isinstance(o, SObj):   # other
        if eng.branch(eng.uf("noattr_" + name, I, B)(o.t)): eng.raise_(AttributeError, name)
        return SymMethod(o, name)
    if isinstance(o, SClass) and name == "__name__": return SStr(eng.uf("class_name", I, S)(o.t))
    raise Unsupported("attribute %s of %r" % (name, o))

def call_sym(eng, f, args, kwargs):
    if isinstance(f, SClass):
        va = [to_val(a) for a in args]
        nm = "%d" % len(va)
        if eng.branch(eng.uf("R_construct" + nm, *([I] + [Val] * len(va) + [B]))(f.t, *va)): eng.raise_(ValueError, "opaque constructor")
        return SVal(eng.uf("U_construct" + nm, *([I] + [Val] * len(va) + [Val]))(f.t, *va))
    eng.raise_(TypeError, "object is not callable")

def int_arg(eng, x):
    x = eng.resolve(x)
    if pykind(x) not in ("int", "bool"): eng.raise_(TypeError, "integer required")
    return int_of(x)
def str_arg(eng, x):
    x = eng.resolve(x)
    if pykind(x) != "str": eng.raise_(TypeError, "str required, got %s" % pykind(x))
    return str_of(x)

def call_sym_method(eng, o, name, args, kwargs):
    if id(o) in eng.maps and not isinstance(o, Sym):
        log_write(eng, o, name); return map_method(eng, eng.maps[id(o)], name, args, kwargs, o)
    if isinstance(o, LazyInstance): return o.method(eng, name, args, kwargs)
    if isinstance(o, SMap):
        if name in ("pop", "update", "clear", "setdefault"): log_write(eng, o, name)
        return map_method(eng, o, name, args, kwargs, o)
    if isinstance(o, SStr): return str_method(eng, o, name, args, kwargs)
    if isinstance(o, SList):
        if name == "append": log_write(eng, o); o.t = z3.simplify(z3.Concat(o.t, z3.Unit(to_val(args[0])))); return None
        if name == "extend": log_write(eng, o); o.t = z3.simplify(z3.Concat(o.t, seq_term(args[0]))); return None
        if name == "copy": return SList(o.t)
        if name == "clear": log_write(eng, o); o.t = z3.Empty(ValSeq); return None
        if name == "index" and len(args) == 1:
            i = first_equal(eng, o, args[0])
            if eng.branch(i < 0): eng.raise_(ValueError, "not in list")
            return SInt(i)
        raise Unsupported("list.%s" % name)
    if isinstance(o, SSet):
        if name == "add": log_write(eng, o); set_add(eng, o, args[0]); return None
        if name == "discard": log_write(eng, o); o.t = z3.Store(o.t, canon(args[0]), z3.BoolVal(False)); return None
        if name == "union": return SSet(z3.SetUnion(o.t, set_term(args[0])))
        if name == "update": log_write(eng, o); o.t = z3.SetUnion(o.t, set_term(args[0])); return None
        if name == "copy": return SSet(o.t)
        raise Unsupported("set.%s" % name)
    if isinstance(o, SSeq):
        h = eng.ghost.get("seq_method")
        if h is not None: return h(eng, o, name, args, kwargs)
        if name == "index" and len(args) == 1:
            i = first_equal(eng, o, args[0])
            if eng.branch(i < 0): eng.raise_(ValueError, "not in tuple")
            return SInt(i)
        raise Unsupported("tuple.%s" % name)
    if isinstance(o, SObj) or isinstance(o, (SInt, SFloat, SDec, SBool)):
        va = [to_val(o)] + [to_val(a) for a in args]
        if kwargs: raise Unsupported("kwargs on opaque method")
        if isinstance(o, SObj) and o.kind in TEMP and name == "strftime":
            str_arg(eng, args[0])
            return SStr(eng.uf("M_strftime", Val, Val, S)(*va))
        if isinstance(o, SObj) and o.kind in ("list", "dict", "set") and name in ("append", "add", "update", "pop", "extend", "insert", "remove", "clear", "setdefault", "sort", "reverse"):
            raise Unsupported("mutation of an opaque %s" % o.kind)
        sorts = [Val] * len(va)
        if eng.branch(eng.uf("R_m_" + name + str(len(va)), *(sorts + [B]))(*va)): eng.raise_(ValueError, "opaque method")
        return SVal(eng.uf("U_m_" + name + str(len(va)), *(sorts + [Val]))(*va))
    raise Unsupported("method %s of %r" % (name, o))

def map_method(eng, m, name, args, kwargs, orig):
    if name == "get":
        key = map_key(eng, m, args[0])
        if eng.branch(z3.Select(m.has, key)): return map_value(eng, m, z3.Select(m.val, key))
        return args[1] if len(args) > 1 else None
    if name == "pop":
        key = map_key(eng, m, args[0])
        if eng.branch(z3.Select(m.has, key)):
            v = map_value(eng, m, z3.Select(m.val, key))
            m.has = z3.Store(m.has, key, z3.BoolVal(False)); return v
        if len(args) > 1: return args[1]
        eng.raise_(KeyError, args[0])
    if name == "update":
        if args:
            src = args[0]
            src = eng.maps.get(id(src), src) if not isinstance(src, Sym) else src
            if isinstance(src, SMap):
                h = z3.Map(z3.Or(z3.Bool("a"), z3.Bool("b")).decl(), m.has, src.has)
                k = eng.fresh("uk", m.ks)
                nv = z3.Lambda([k], z3.If(z3.Select(src.has, k), z3.Select(src.val, k), z3.Select(m.val, k)))
                m.has, m.val = h, nv
            else:
                for k, v in dict_items(eng, src): setitem(eng, m, k, v)
        for k, v in kwargs.items(): setitem(eng, m, k, v)
        return None
    if name == "items" and m.order is not None: return dict_items(eng, m)
    if name == "copy":
        return SMap(m.has, m.val, m.ks, m.vs)
    if name == "setdefault":
        key = map_key(eng, m, args[0])
        if eng.branch(z3.Select(m.has, key)): return map_value(eng, m, z3.Select(m.val, key))
        d = args[1] if len(args) > 1 else None
        setitem(eng, m, args[0], d); return d
    raise Unsupported("dict.%s on symbolic dict" % name)

def py_strip_const(s): return s.strip()

def str_method(eng, o, name, args, kwargs):
    t = str_of(o)
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        a0 = eng.resolve(args[0]) if len(args) == 1 else None
        if len(args) == 1 and isinstance(a0, tuple): return disj([mkbool(f(str_arg(eng, x), t)) for x in a0])
        if len(args) == 1: return mkbool(f(str_arg(eng, a0), t))
    if name in ("upper", "lower", "strip", "lstrip", "rstrip", "title", "casefold", "capitalize"):
        if not args:
            u = eng.uf("str_" + name, S, S)(t)
            if name in ("lower", "upper") and not eng.abstract_strings:
                # digits, quotes and ASCII punctuation are their own lower/upper case and nothing else maps to them
                a, b = z3.StrToCode(z3.SubString(t, 0, 1)), z3.StrToCode(z3.SubString(u, 0, 1))
                eng.axiom(("case", name, t.get_id()), lambda: z3.And((z3.Length(t) == 0) == (z3.Length(u) == 0), z3.Implies(z3.Or(z3.And(a >= 33, a <= 64), z3.And(b >= 33, b <= 64)), a == b)))
            return SStr(u)
        return SStr(eng.uf("str_" + name + "1", S, S, S)(t, str_arg(eng, args[0])))
    if name in ("isdigit", "isalpha", "isspace", "isdecimal", "isnumeric", "isalnum", "isidentifier"):
        p = eng.uf("str_" + name, S, B)(t)
        eng.axiom(("nonempty", name, t.get_id()), lambda: z3.Implies(p, z3.Length(t) > 0))
        if name in ("isdigit", "isdecimal", "isnumeric"):
            d, q, c = eng.uf("str_isdigit", S, B), eng.uf("str_isdecimal", S, B), z3.StrToCode(z3.SubString(t, 0, 1))
            # no ASCII character but 0-9 is a digit; digits have no case; int() accepts every run of decimal digits
            eng.axiom(("digits", name, t.get_id()), lambda: z3.Implies(p, z3.And(z3.Or(z3.And(c >= 48, c <= 57), c >= 128), z3.Not(has(eng, t, z3.StringVal("."))))))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 1:
                base, dot = t.arg(0), z3.StringVal(".")
                eng.axiom(("tail", name, t.get_id()), lambda: z3.Implies(p, z3.Or(z3.SubString(base, 0, 1) == dot, z3.Not(has(eng, base, dot)))))
            eng.axiom(("caseless", name, t.get_id()), lambda: z3.Implies(p, z3.And(eng.uf("str_lower", S, S)(t) == t, eng.uf("str_upper", S, S)(t) == t)))
            eng.axiom(("decimal", t.get_id()), lambda: z3.And(z3.Implies(q(t), z3.And(d(t), eng.uf("int_ok", S, B)(t)))))
        return SBool(p)
    if name == "replace" and len(args) == 2:
        return SStr(eng.uf("str_replace", S, S, S, S)(t, str_arg(eng, args[0]), str_arg(eng, args[1])))
    if name == "encode":
        e = args[0] if args else "utf-8"
        if e not in ("utf-8", "utf8"): raise Unsupported("encode")
        if eng.branch(eng.uf("R_encode", S, B)(t)): eng.raise_(ValueError, "surrogates not allowed")
        return SObj("bytes", eng.uf("str_encode", S, I)(t))
    if name == "find" and len(args) == 1:
        return mki(z3.IndexOf(t, str_arg(eng, args[0]), 0))
    if name == "index" and len(args) == 1:
        i = z3.IndexOf(t, str_arg(eng, args[0]), 0)
        if eng.branch(i < 0): eng.raise_(ValueError, "substring not found")
        return mki(i)
    if name == "split":
        if len(args) == 1:
            sep = str_arg(eng, args[0])
            if eng.branch(z3.Length(sep) == 0): eng.raise_(ValueError, "empty separator")
            c = cut(eng, t, sep)
            if c is None: return [o]
            if eng.abstract_strings and not z3.is_string_value(c[0]): return SplitList(eng.uf("str_split", S, S, ValSeq)(t, sep), (mks(c[0]),))
            d = cut(eng, c[1], sep)
            if d is None: return [mks(c[0]), mks(c[1])]
            seq = eng.uf("str_split", S, S, ValSeq)(t, sep); rest = eng.uf("str_split", S, S, ValSeq)(d[1], sep)
            eng.axiom(("splitlen", seq.get_id()), lambda: z3.And(z3.Length(rest) >= 1, seq == z3.Concat(z3.Unit(Val.str(c[0])), z3.Unit(Val.str(d[0])), rest)))
            return SplitList(seq, (mks(c[0]), mks(d[0])))
        raise Unsupported("str.split()")
    if name == "join":
        x = args[0]
        if isinstance(x, Gen): x = x.items
        if isinstance(x, (list, tuple)):
            res = None
            for e in x:
                e = str_arg(eng, e)
                res = e if res is None else z3.Concat(res, t, e)
            return mks(res) if res is not None else ""
        if isinstance(x, SList):
            j = eng.uf("str_join", S, ValSeq, S)
            eng.axiom(("join0", t.get_id()), lambda: j(t, z3.Empty(ValSeq)) == z3.StringVal(""))
            return SStr(j(t, x.t))
        raise Unsupported("join")
    if name == "count" and len(args) == 1:
        return SInt(eng.uf("str_count", S, S, I)(t, str_arg(eng, args[0])))
    if name == "partition" and len(args) == 1:
        sep = str_arg(eng, args[0])
        if eng.branch(z3.Length(sep) == 0): eng.raise_(ValueError, "empty separator")
        c = cut(eng, t, sep)
        return (o, "", "") if c is None else (mks(c[0]), mks(sep), mks(c[1]))
    if name == "__len__": return mki(z3.Length(t))
    raise Unsupported("str.%s" % name)

def first_equal(eng, o, x):
    """index of the first element equal to x, or -1 (contract of tuple.index and list.index)"""
    v = to_val(x)
    if isinstance(o, SSeq):
        if o.arr is None or o.off is None: raise Unsupported("index in a computed sequence")
        i = eng.uf("first_equal", o.arr.sort(), I, I, Val, I)(o.arr, o.off, o.n, v); n = o.n
    else: i = eng.uf("first_equal_seq", ValSeq, Val, I)(o.t, v); n = z3.Length(o.t)
    eng.axiom(("first_equal", i.get_id()), lambda: z3.And(i >= -1, i < n))
    if eng.branch(i >= 0): eng.assume(bool_of(py_eq(eng, getitem(eng, o, SInt(i)), x)))
    return i
def has(eng, t, x):
    """x occurs in t; kept uninterpreted when the proof asks for it (only sameness of such facts is used then)"""
    if eng.abstract_contains: return eng.uf("str_has", S, S, B)(t, x)
    return z3.Contains(t, x)
def cut(eng, t, sep):
    """t = a + sep + b with the first occurrence of sep, or None when sep does not occur (case distinction)"""
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.is_string_value(t.arg(0)) and z3.is_string_value(sep) and zs_to_py(sep) in zs_to_py(t.arg(0)):
        a, _, b = zs_to_py(t.arg(0)).partition(zs_to_py(sep))
        return z3.StringVal(a), z3.simplify(z3.Concat(z3.StringVal(b), *t.children()[1:]))
    memo = eng.ghost.setdefault("cuts", {})
    key = (t.get_id(), sep.get_id())
    if key not in memo:
        if not eng.branch(has(eng, t, sep)): memo[key] = (None, t)
        else:
            if eng.abstract_strings:
                memo[key] = ((eng.uf("str_before", S, S, S)(t, sep), eng.uf("str_after", S, S, S)(t, sep)), t)
                return memo[key][0]
            a, b = eng.fresh("before", S), eng.fresh("after", S)
            eng.assume(t == z3.Concat(a, sep, b))
            if z3.is_string_value(sep) and len(zs_to_py(sep)) == 1: eng.assume(z3.Not(has(eng, a, sep)))
            else: eng.assume(z3.IndexOf(t, sep, 0) == z3.Length(a))
            memo[key] = ((a, b), t)
    return memo[key][0]

class SplitList(SList):
    """result of str.split: at least three parts, the first two known"""
    __slots__ = ("head", "orig")
    def __init__(self, t, head): SList.__init__(self, t); self.head, self.orig = head, t

# ---------------------------------------------------------------- builtins
def m_isinstance(eng, args, kw):
    v, cl = args
    cls = flatten_classes(cl)
    if isinstance(v, LazyInstance): return v.isinstance(eng, cls)
    if isinstance(v, SVal):
        t = v.t
        ks = [k for k in KINDS if k != "other" and any(issubclass(KIND_CLASS[k], c) for c in cls if isinstance(c, type))]
        others = [c for c in cls if isinstance(c, type) and c not in KIND_CLASS.values() and c is not object]
        if any(c is object for c in cls): return True
        conds = [is_kind(k, t) for k in ks]
        if others:
            o = z3.And(is_kind("other", t), z3.Or([eng.uf("isinst_" + c.__name__, I, B)(Val.kother(t)) for c in others]))
            conds.append(o)
        return mkbool(z3.Or(conds)) if conds else False
    if isinstance(v, SObj) and v.kind == "other":
        others = [c for c in cls if isinstance(c, type) and c not in KIND_CLASS.values()]
        if object in cls: return True
        return SBool(z3.Or([eng.uf("isinst_" + c.__name__, I, B)(v.t) for c in others])) if others else False
    if isinstance(v, Sym):
        k = pykind(v)
        return any(issubclass(KIND_CLASS[k], c) for c in cls)
    from .engine import OpaqueError
    if isinstance(v, OpaqueError):
        if any(c in (Exception, BaseException, object) for c in cls): return True
        return SBool(opaque_exc_is(eng, v, cls))
    return isinstance(v, tuple(cls))
def flatten_classes(cl):
    if isinstance(cl, tuple):
        out = []
        for c in cl: out.extend(flatten_classes(c))
        return out
    if isinstance(cl, types.UnionType): return list(cl.__args__)
    return [cl]
def opaque_exc_is(eng, exc, cls):
    k = exc.args[0]
    return z3.Or([eng.uf("exc_is_" + c.__name__, I, B)(k) for c in cls])

def m_len(eng, args, kw):
    v = eng.resolve(args[0])
    if id(v) in eng.maps: raise Unsupported("len of symbolic dict")
    if isinstance(v, SStr): return mki(z3.Length(v.t))
    if isinstance(v, SList): return mki(z3.Length(v.t))
    if isinstance(v, SSeq): return mki(v.n)
    if isinstance(v, SSet):
        c = eng.uf("card", z3.ArraySort(Val, B), I)
        eng.axiom(("card", v.t.get_id()), lambda: z3.And(c(v.t) >= 0, (c(v.t) == 0) == (v.t == z3.K(Val, z3.BoolVal(False)))))
        return SInt(c(v.t))
    if isinstance(v, SObj):
        if v.kind in TEMP: eng.raise_(TypeError, "object has no len()")
        if v.kind == "other" and eng.branch(eng.uf("R_len", I, B)(v.t)): eng.raise_(TypeError, "no len")
        n = eng.uf("len_" + v.kind, I, I)(v.t)
        eng.axiom(("len", n.get_id()), lambda: n >= 0)
        return SInt(n)
    if isinstance(v, SMap): raise Unsupported("len of symbolic dict")
    if isinstance(v, LazyInstance): return v.len(eng)
    if v is None or isinstance(v, (SInt, SBool, SFloat, SDec, int, float)): eng.raise_(TypeError, "object has no len()")
    for k in type(v).__mro__:
        f = k.__dict__.get("__len__")
        if isinstance(f, types.FunctionType): return eng.call(f, [v])
    try: return len(v)
    except Exception as e: raise _pyraise(e)

def m_int(eng, args, kw):
    if not args: return 0
    if len(args) > 1: return eng.native(int, args, kw)
    v = eng.resolve(args[0])
    if not isinstance(v, Sym): return eng.native(int, [v], kw)
    k = pykind(v)
    if k in ("bool", "int"): return mki(int_of(v))
    if k in ("float", "dec"): return mki(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if k == "str":
        if not eng.branch(eng.uf("int_ok", S, B)(v.t)): eng.raise_(ValueError, "invalid literal for int()")
        return SInt(eng.uf("int_of", S, I)(v.t))
    if k in ("bytes", "other"):
        if eng.branch(eng.uf("R_int", Val, B)(to_val(v))): eng.raise_(TypeError, "int()")
        return SInt(eng.uf("U_int", Val, I)(to_val(v)))
    eng.raise_(TypeError, "int() argument must be a string or a number, not %s" % k)
def m_float(eng, args, kw):
    if not args: return 0.0
    v = eng.resolve(args[0])
    if not isinstance(v, Sym): return eng.native(float, [v], kw)
    k = pykind(v)
    if k in NUM: return mkr("float", real_of(v))
    if k == "str":
        if not eng.branch(eng.uf("float_ok", S, B)(v.t)): eng.raise_(ValueError, "could not convert string to float")
        return SFloat(eng.uf("float_of", S, R)(v.t))
    if k in ("bytes", "other"):
        if eng.branch(eng.uf("R_float", Val, B)(to_val(v))): eng.raise_(TypeError, "float()")
        return SFloat(eng.uf("U_float", Val, R)(to_val(v)))
    eng.raise_(TypeError, "float() argument")
def m_decimal(eng, args, kw):
    v = eng.resolve(args[0]) if args else 0
    if not isinstance(v, Sym): return eng.native(decimal.Decimal, [v], kw)
    k = pykind(v)
    if k in NUM: return mkr("dec", real_of(v))
    if k == "str":
        if not eng.branch(eng.uf("dec_ok", S, B)(v.t)): eng.raise_(decimal.InvalidOperation, "invalid decimal")
        return SDec(eng.uf("dec_of", S, R)(v.t))
    if k in ("tuple", "list", "other"):
        if eng.branch(eng.uf("R_dec", Val, B)(to_val(v))): eng.raise_(ValueError, "Decimal()")
        return SDec(eng.uf("U_dec", Val, R)(to_val(v)))
    eng.raise_(TypeError, "Decimal()")
def m_bool(eng, args, kw):
    if not args: return False
    return eng.truth_term(args[0])
def m_str(eng, args, kw):
    if not args: return ""
    if len(args) > 1: return eng.native(str, args, kw)
    v = eng.resolve(args[0])
    if isinstance(v, SStr): return v
    if not has_sym(v): 
        if type(v).__str__ is not object.__str__ and isinstance(type(v).__str__, types.FunctionType) and eng.interpretable(type(v).__str__):
            return eng.call(type(v).__str__, [v])
        return eng.native(str, [v], kw)
    if isinstance(v, SBool): return "True" if eng.branch(v.t) else "False"
    if kind_of(v):
        r = eng.uf("py_str", Val, S)(to_val(v))
        if kind_of(v) == "int":
            eng.axiom(("strint", r.get_id()), lambda: z3.And(z3.Length(r) > 0, z3.Not(z3.Contains(r, z3.StringVal("."))), eng.uf("int_ok", S, B)(r), eng.uf("int_of", S, I)(r) == int_of(v)))
        return SStr(r)
    if isinstance(v, BaseException): return SStr(eng.fresh("excstr", S))
    f = type(v).__str__
    if isinstance(f, types.FunctionType): return eng.call(f, [v])
    if isinstance(v, (list, tuple, dict)) : return SStr(eng.fresh("reprstr", S))
    if isinstance(v, (SList,)): return SStr(eng.uf("str_of_list", ValSeq, S)(v.t))
    if isinstance(v, LazyInstance) and hasattr(v, "strof"): return v.strof(eng)
    raise Unsupported("str of %r" % type(v))
def m_list(eng, args, kw):
    if not args: return []
    v = eng.resolve(args[0])
    if isinstance(v, SList): return SList(v.t)
    if isinstance(v, SSet): return SList(eng.uf("list_of_set", z3.ArraySort(Val, B), ValSeq)(v.t))
    if isinstance(v, SSeq): return v
    if isinstance(v, SObj):
        if v.kind in TEMP: eng.raise_(TypeError, "not iterable")
        return SObj("list", eng.uf("list_of_" + v.kind, I, I)(v.t))
    if v is None or isinstance(v, (SInt, SFloat, SBool, SDec)): eng.raise_(TypeError, "not iterable")
    return list(iterate(eng, v, "list()"))
def m_tuple(eng, args, kw):
    if not args: return ()
    v = eng.resolve(args[0])
    if isinstance(v, SSeq): return v
    if isinstance(v, SObj):
        if v.kind in TEMP: eng.raise_(TypeError, "not iterable")
        return SObj("tuple", eng.uf("tuple_of_" + v.kind, I, I)(v.t))
    if isinstance(v, SList): return SObj("tuple", eng.uf("tuple_key", ValSeq, I)(v.t))
    if v is None or isinstance(v, (SInt, SFloat, SBool, SDec)): eng.raise_(TypeError, "not iterable")
    return tuple(iterate(eng, v, "tuple()"))
def m_set(eng, args, kw):
    if not args: return set()
    v = eng.resolve(args[0])
    if isinstance(v, SSet): return SSet(v.t)
    return make_set(eng, list(iterate(eng, v, "set()")))
def m_dict(eng, args, kw):
    d = {}
    if args:
        a = args[0]
        if id(a) in eng.maps or isinstance(a, SMap): return map_method(eng, eng.maps.get(id(a), a), "copy", [], {}, a)
        for k, v in (dict_items(eng, a) if isinstance(a, dict) else [tuple(eng.iterate_list(p)) for p in iterate(eng, a, "dict()")]): d = dict_store(eng, d, k, v)
    for k, v in kw.items(): d[k] = v
    return d
def m_type(eng, args, kw):
    if len(args) != 1: raise Unsupported("type()")
    return class_of(eng, args[0])
def m_minmax(which):
    def f(eng, args, kw):
        if kw: raise Unsupported("max/min kwargs")
        if isinstance(args, SymArgs): raise Unsupported("max(*symbolic)")
        if len(args) == 1:
            v = eng.resolve(args[0])
            if isinstance(v, Sym) and not isinstance(v, (SList, SSeq)):
                if isinstance(v, (SInt, SFloat, SBool, SDec)) or isinstance(v, SObj) and v.kind in TEMP: eng.raise_(TypeError, "not iterable")
                if isinstance(v, SStr): raise Unsupported("max of string")
                va = to_val(v)
                if eng.branch(eng.uf("R_" + which, Val, B)(va)): eng.raise_(TypeError, which)
                return SVal(eng.uf("U_" + which, Val, Val)(va))
            items = list(iterate(eng, v, which))
            if not items: eng.raise_(ValueError, "%s() arg is an empty sequence" % which)
        else: items = args
        best = items[0]
        for x in items[1:]:
            if eng.truth(py_ord(eng, "Gt" if which == "max" else "Lt", x, best)): best = x
        return best
    return f
def m_abs(eng, args, kw):
    v = eng.resolve(args[0])
    if not isinstance(v, Sym): return eng.native(abs, [v], kw)
    k = pykind(v)
    if k in ("int", "bool"): t = int_of(v); return mki(z3.If(t >= 0, t, -t))
    if k in ("float", "dec"): return mkr(k, z3.If(v.t >= 0, v.t, -v.t))
    if k == "other": return opaque_fn(eng, "abs", args)
    eng.raise_(TypeError, "bad operand type for abs()")
def opaque_fn(eng, name, args, exc=TypeError):
    va = [to_val(a) for a in args]
    if eng.branch(eng.uf("R_" + name + str(len(va)), *([Val] * len(va) + [B]))(*va)): eng.raise_(exc, name)
    return SVal(eng.uf("U_" + name + str(len(va)), *([Val] * len(va) + [Val]))(*va))
def m_round(eng, args, kw):
    v = eng.resolve(args[0]); rest = [eng.resolve(a) for a in args[1:]]
    if not has_sym([v] + rest): return eng.native(round, [v] + rest, kw)
    if rest and rest[0] is not None and pykind(rest[0]) not in ("int", "bool", "other"): eng.raise_(TypeError, "ndigits")
    k = pykind(v)
    if k in NUM:
        if k in ("int", "bool"):
            if not rest: return mki(int_of(v))
        if not rest or rest[0] is None or pykind(rest[0]) in ("int", "bool"):
            nd = [] if not rest or rest[0] is None else [int_of(rest[0])]
            t = eng.uf("round%d" % len(nd), *([R] + [I] * len(nd) + [R]))(real_of(v), *nd)
            if k in ("int", "bool") or not nd:
                ti = eng.uf("roundi%d" % len(nd), *([R] + [I] * len(nd) + [I]))(real_of(v), *nd)
                return SInt(ti)
            return mkr(k, t)
        return opaque_total(eng, "round", [v] + rest) if not rest or pykind(rest[0]) != "other" else opaque_fn(eng, "round", [v] + rest)
    if k == "other": return opaque_fn(eng, "round", [v] + rest)
    eng.raise_(TypeError, "type doesn't define __round__ method")
def opaque_total(eng, name, args):
    va = [to_val(a) for a in args]
    return SVal(eng.uf("T_" + name + str(len(va)), *([Val] * len(va) + [Val]))(*va))
def m_math(name):
    fn = getattr(math, name)
    def f(eng, args, kw):
        args = [eng.resolve(a) for a in args]
        if not has_sym(args): return eng.native(fn, args, kw)
        for a in args:
            k = pykind(a)
            if k not in NUM + ("other",): eng.raise_(TypeError, "must be real number, not %s" % k)
        if name in ("floor", "ceil") and pykind(args[0]) in NUM:
            v = args[0]
            if pykind(v) in ("int", "bool"): return mki(int_of(v))
            return mki(z3.ToInt(v.t) if name == "floor" else -z3.ToInt(-v.t))
        allnum = all(pykind(a) in NUM for a in args)
        if allnum:   # the result is a function of the numeric values, a float
            va = [real_of(a) for a in args]
            if name not in ("sin", "cos", "tan", "atan"):
                if eng.branch(eng.uf("R_math_" + name + str(len(va)), *([R] * len(va) + [B]))(*va)): eng.raise_(ValueError, "math domain error")
            return SFloat(eng.uf("math_" + name + str(len(va)), *([R] * (len(va) + 1)))(*va))
        return opaque_fn(eng, "math_" + name, args, ValueError)
    return f
def m_range(eng, args, kw):
    args = [eng.resolve(a) for a in args]
    if not has_sym(args): return eng.native(range, args, kw)
    if len(args) == 1: return RangeSym(z3.IntVal(0), int_arg(eng, args[0]))
    if len(args) == 2: return RangeSym(int_arg(eng, args[0]), int_arg(eng, args[1]))
    raise Unsupported("range step")
def m_enumerate(eng, args, kw):
    return Gen([(i + (args[1] if len(args) > 1 else 0), x) for i, x in enumerate(iterate(eng, args[0], "enumerate"))])
def m_zip(eng, args, kw):
    return Gen(list(zip(*[list(iterate(eng, a, "zip")) for a in args])))
def m_any(eng, args, kw):
    for x in iterate(eng, args[0], "any"):
        if eng.truth(x): return True
    return False
def m_all(eng, args, kw):
    for x in iterate(eng, args[0], "all"):
        if not eng.truth(x): return False
    return True
def m_sum(eng, args, kw):
    if isinstance(args[0], Gen) or isinstance(args[0], (list, tuple)):
        acc = args[1] if len(args) > 1 else 0
        for x in iterate(eng, args[0], "sum"): acc = binop(eng, "Add", acc, x)
        return acc
    raise Unsupported("sum")
def m_getattr(eng, args, kw):
    from .engine import PyRaise
    if len(args) == 3:
        try: return eng.getattr(args[0], args[1])
        except PyRaise as e:
            if isinstance(e.exc, AttributeError): return args[2]
            raise
    return eng.getattr(args[0], args[1])
def m_hasattr(eng, args, kw):
    from .engine import PyRaise
    try: eng.getattr(args[0], args[1]); return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError): return False
        raise
def m_setattr(eng, args, kw): eng.setattr(*args)
def m_issubclass(eng, args, kw): return issubclass(args[0], args[1])
def m_callable(eng, args, kw):
    from .engine import IFunc, SymMethod
    if isinstance(args[0], (IFunc, SymMethod)): return True
    if isinstance(args[0], Sym): raise Unsupported("callable")
    return callable(args[0])
def m_next(eng, args, kw):
    g = args[0]
    if isinstance(g, Gen):
        if g.i < len(g.items): g.i += 1; return g.items[g.i - 1]
        if len(args) > 1: return args[1]
        eng.raise_(StopIteration)
    raise Unsupported("next")
def m_iter(eng, args, kw): return Gen(list(iterate(eng, args[0], "iter")))
def m_sorted(eng, args, kw):
    items = list(iterate(eng, args[0], "sorted"))
    if has_sym(items) or kw: raise Unsupported("sorted")
    return sorted(items)
def m_reversed(eng, args, kw):
    a = args[0]
    if isinstance(a, SSeq): return SSeq(a.n, lambda i: a.get(z3.simplify(a.n - 1 - i)))
    return Gen(list(iterate(eng, args[0], "reversed"))[::-1])
def m_id(eng, args, kw): return id(args[0])
def m_map(eng, args, kw):
    return Gen([eng.call(args[0], [x]) for x in iterate(eng, args[1], "map")])
def m_filter(eng, args, kw):
    return Gen([x for x in iterate(eng, args[1], "filter") if eng.truth(x if args[0] is None else eng.call(args[0], [x]))])
def m_bin(name, fn):
    def f(eng, args, kw):
        v = eng.resolve(args[0])
        if not isinstance(v, Sym): return eng.native(fn, [v], kw)
        if pykind(v) in ("int", "bool"): return SStr(eng.uf("py_" + name, I, S)(int_of(v)))
        if pykind(v) == "other": return opaque_fn(eng, name, [v])
        eng.raise_(TypeError, "integer required")
    return f
def m_ord(eng, args, kw):
    v = eng.resolve(args[0])
    if isinstance(v, LazyInstance) and hasattr(v, "ordof"): return v.ordof(eng)
    if not isinstance(v, Sym): return eng.native(ord, [v], kw)
    if isinstance(v, SStr):
        if not eng.branch(z3.Length(v.t) == 1): eng.raise_(TypeError, "ord() expected a character")
        return SInt(z3.StrToCode(v.t))
    if pykind(v) == "bytes": return opaque_fn(eng, "ord", [v])
    eng.raise_(TypeError, "ord()")
def m_chr(eng, args, kw):
    v = eng.resolve(args[0])
    if not isinstance(v, Sym): return eng.native(chr, [v], kw)
    if pykind(v) in ("int", "bool"):
        if not eng.branch(z3.And(int_of(v) >= 0, int_of(v) <= 0x10ffff)): eng.raise_(ValueError, "chr()")
        return SStr(eng.uf("py_chr", I, S)(int_of(v)))
    eng.raise_(TypeError, "chr()")
def m_print(eng, args, kw): return None
def m_repr(eng, args, kw):
    if not has_sym(args): return repr(args[0])
    return SStr(eng.fresh("repr", S))

def m_temporal(cls):
    def f(eng, args, kw):
        if not has_sym(args) and not has_sym(kw): return eng.native(cls, args, kw)
        if len(args) == 1 and not kw:
            v = eng.resolve(args[0])
            if v is None or pykind(v) in ("datetime", "date", "time", "float", "dec", "list", "dict", "set", "tuple"): eng.raise_(TypeError, "an integer is required")
        raise Unsupported("%s of symbolic arguments" % cls.__name__)
    return f
CLASSES = {datetime.datetime: m_temporal(datetime.datetime), datetime.date: m_temporal(datetime.date), datetime.time: m_temporal(datetime.time), int: m_int, float: m_float, decimal.Decimal: m_decimal, bool: m_bool, str: m_str, list: m_list, tuple: m_tuple,
           set: m_set, dict: m_dict, type: m_type, range: m_range, enumerate: m_enumerate, zip: m_zip, reversed: m_reversed,
           map: m_map, filter: m_filter}
BUILTINS = {isinstance: m_isinstance, len: m_len, max: m_minmax("max"), min: m_minmax("min"), abs: m_abs, round: m_round,
            any: m_any, all: m_all, sum: m_sum, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr, issubclass: m_issubclass,
            callable: m_callable, next: m_next, iter: m_iter, sorted: m_sorted, id: m_id, bin: m_bin("bin", bin), hex: m_bin("hex", hex),
            oct: m_bin("oct", oct), ord: m_ord, chr: m_chr, print: m_print, repr: m_repr}
for _n in ("sqrt", "exp", "log", "ceil", "floor", "pow", "sin", "asin", "cos", "acos", "tan", "atan"):
    BUILTINS[getattr(math, _n)] = m_math(_n)
FUNCS = {}
import logging
for _n in ("debug", "info", "warning", "error", "exception", "critical"):
    FUNCS[getattr(logging, _n)] = FUNCS[getattr(logging.Logger, _n)] = lambda eng, args, kw: None   # assumed: logging neither raises nor changes program state

def builtin_model(eng, f):
    if isinstance(f, SuperBuiltin):
        def h(eng, args, kw):
            if isinstance(f.obj, dict) or id(f.obj) in eng.maps:
                if f.name == "__init__":
                    if not args and not kw: return None
                    if id(f.obj) in eng.maps: raise Unsupported("dict init")
                    dict.__init__(f.obj, *args, **kw); return None
                if f.name == "__setitem__": return raw_setitem(eng, f.obj, *args)
                if f.name == "__getitem__": return getitem(eng, eng.maps.get(id(f.obj), f.obj), *args)
                if f.name == "get" and id(f.obj) in eng.maps: return map_method(eng, eng.maps[id(f.obj)], "get", args, kw, f.obj)
                return eng.native(getattr(super(type(f.obj), f.obj), f.name), args, kw)
            if f.name == "__init__": return None
            raise Unsupported("super().%s" % f.name)
        return h
    try: return BUILTINS.get(f)
    except TypeError: return None
def raw_setitem(eng, o, k, v):
    if id(o) in eng.maps: setitem(eng, eng.maps[id(o)], k, v)
    else: dict.__setitem__(o, k, v)

def call_builtin_method(eng, f, args, kwargs):
    """builtin (C) method bound to a concrete object, possibly with symbolic arguments"""
    o = getattr(f, "__self__", None)
    name = f.__name__
    if isinstance(o, list):
        if name == "append": log_write(eng, o); o.append(args[0]); return None
        if name == "extend":
            log_write(eng, o)
            if isinstance(args[0], SList): raise Unsupported("extend concrete list by symbolic list")
            o.extend(iterate(eng, args[0], "extend")); return None
        if name == "insert" and not isinstance(args[0], Sym): log_write(eng, o); o.insert(*args); return None
        if name in ("pop", "clear", "copy", "reverse") and not has_sym(args): log_write(eng, o); return native_plain(f, args, kwargs)
        if name == "index":
            for i, e in enumerate(o):
                if eng.branch(bool_of(py_eq(eng, e, args[0]))): return i
            eng.raise_(ValueError, "not in list")
        if name == "remove":
            log_write(eng, o)
            for i, e in enumerate(o):
                if eng.branch(bool_of(py_eq(eng, e, args[0]))): del o[i]; return None
            eng.raise_(ValueError, "not in list")
        if name == "__getitem__": return getitem(eng, o, args[0])
    if isinstance(o, tuple) and name == "index":
        for i, e in enumerate(o):
            if eng.branch(bool_of(py_eq(eng, e, args[0]))): return i
        eng.raise_(ValueError, "not in tuple")
    if isinstance(o, dict):
        if name == "get":
            k = args[0]
            if not has_sym(k) and not has_sym(list(o.keys())): 
                try: return o.get(*args)
                except Exception as e: raise _pyraise(e)
            for kk in list(o.keys()):
                if eng.branch(bool_of(py_eq(eng, kk, k))): return o[kk]
            return args[1] if len(args) > 1 else None
        if name in ("items", "keys", "values", "copy", "clear") and not args:
            if name == "clear": log_write(eng, o, name)
            return native_plain(f, args, kwargs)
        if name == "pop" and (has_sym(args[0]) or has_sym(list(o.keys()))):
            k = args[0]
            for kk in list(o.keys()):
                if eng.branch(bool_of(py_eq(eng, kk, k))): log_write(eng, o, kk); return o.pop(kk)
            if len(args) > 1: return args[1]
            eng.raise_(KeyError, k)
        if name in ("pop", "setdefault") and not has_sym(args[0]) and not has_sym(list(o.keys())): log_write(eng, o, args[0]); return native_plain(f, args, kwargs)
        if name == "update":
            log_write(eng, o, name)
            for a in args:
                if id(a) in eng.maps or isinstance(a, SMap):
                    if not (type(o).__contains__ is dict.__contains__ and all(isinstance(x, str) and valuable(o[x]) for x in o)): raise Unsupported("update from symbolic dict")
                    m = empty_map(S)
                    for kk, vv in o.items(): setitem(eng, m, kk, vv)
                    eng.maps[id(o)] = m; eng.ghost.setdefault("keep", []).append(o)
                    map_method(eng, m, "update", [a], {}, o); continue
                for k, v in (dict_items(eng, a) if isinstance(a, dict) else [tuple(eng.iterate_list(p)) for p in iterate(eng, a, "update")]): setitem(eng, o, k, v)
            for k, v in kwargs.items(): o[k] = v
            return None
        if name == "__setitem__": setitem(eng, o, *args); return None
        if name == "__getitem__": return getitem(eng, o, *args)
        if name == "__contains__": return contains(eng, o, args[0])
    if isinstance(o, set):
        if name in ("add", "discard", "remove") and not has_sym(args): log_write(eng, o); return native_plain(f, args, kwargs)
        if name == "add" :
            raise Unsupported("symbolic element added to a concrete set")
    if isinstance(o, str):
        if name == "join":
            x = args[0]
            if isinstance(x, Gen): x = x.items
            if isinstance(x, SVal): x = eng.resolve(x)
            if isinstance(x, LazyInstance) and hasattr(x, "joined"): return x.joined(eng, o)
            if "join" in eng.ghost and isinstance(x, (list, tuple)) and any(isinstance(e, LazyInstance) for e in x): return eng.ghost["join"](eng, o, x)
            if has_sym(x):
                return str_method(eng, SStr(zstr(o)), name, args, kwargs)
            return native_plain(f, [x], kwargs)
        if has_sym(args): 
            if name == "format": return SStr(eng.fresh("fmt", S))
            return str_method(eng, SStr(zstr(o)), name, args, kwargs)
    import collections, re
    if isinstance(o, re.Pattern) and has_sym(args):
        h = eng.ghost.get("regex")
        if h is None: raise Unsupported("regular expression on symbolic text")
        return h(eng, o, name, args, kwargs)
    if isinstance(o, collections.deque):
        log_write(eng, o)
        if name in ("append", "appendleft"): return native_plain(f, args, kwargs)
        if name == "extend": o.extend(iterate(eng, args[0], "extend")); return None
        if name in ("popleft", "pop"): return native_plain(f, args, kwargs)
    return eng.native(f, args, kwargs)

def native_plain(f, args, kwargs):
    try: return f(*args, **kwargs)
    except Unsupported: raise
    except Exception as e: raise _pyraise(e)

def call_symargs(eng, f, sa, kwargs):
    """f(*fixed, *symbolic sequence)"""
    from .engine import IFunc, fn_node
    h = None
    try: h = eng.summaries.get(f)
    except TypeError: pass
    if h is not None: return h(eng, sa, kwargs)
    g = f; fixed = list(sa.fixed)
    if isinstance(g, types.MethodType):
        fixed = [g.__self__] + fixed; g = g.__func__
        if g in eng.summaries: return eng.summaries[g](eng, SymArgs(fixed, sa.seq), kwargs)
    if isinstance(g, IFunc): node = g.node
    elif isinstance(g, types.FunctionType) and eng.interpretable(g): node = fn_node(g)
    else:
        m = BUILTINS.get(f) if f.__hash__ else None
        if f is None: eng.raise_(TypeError, "'NoneType' object is not callable")
        if isinstance(f, Sym) or m is None: raise Unsupported("call of %r with symbolic *args" % (f,))
        return m(eng, sa, kwargs)
    npos = len(node.args.posonlyargs) + len(node.args.args)
    seq = sa.seq
    n = seq.n if isinstance(seq, SSeq) else z3.Length(seq.t)
    elems = []
    while len(fixed) + len(elems) < npos:
        j = len(elems)
        if not eng.branch(n > j): return eng.call(g, fixed + elems, kwargs)
        elems.append(getitem(eng, seq, j))
    rest = getitem(eng, seq, slice(len(elems), None, None)) if elems else seq
    if not node.args.vararg:
        if eng.branch(n > len(elems)): eng.raise_(TypeError, "too many positional arguments")
        return eng.call(g, fixed + elems, kwargs)
    if len(fixed) > npos: raise Unsupported("prefix before symbolic *args")
    return call_with_vararg(eng, g, node, fixed + elems, rest, kwargs)
def call_with_vararg(eng, g, node, pos, seq, kwargs):
    from .engine import Frame, IFunc, _Return
    if isinstance(g, IFunc): globs, cells, parent, qn, fn = g.frame.globals, {}, g.frame, g.__qualname__, None
    else:
        globs, parent, qn, fn = g.__globals__, None, g.__module__ + ":" + g.__qualname__, g
        cells = dict(zip(g.__code__.co_freevars, g.__closure__)) if g.__closure__ else {}
        eng.stats["functions"].add(qn)
    fr = Frame(node, globs, parent, cells, qn, fn)
    names = [x.arg for x in node.args.posonlyargs + node.args.args]
    fr.locals = dict(zip(names, pos))
    fr.locals[node.args.vararg.arg] = seq
    if node.args.kwarg: fr.locals[node.args.kwarg.arg] = dict(kwargs)
    elif kwargs: raise Unsupported("kwargs with symbolic *args")
    if pos: fr.self_arg = pos[0]
    try: eng.exec_block(node.body, fr)
    except _Return as r: return r.v
    return None

def sym_truth(eng, v):
    if isinstance(v, SList): return mkbool(z3.Length(v.t) > 0)
    if isinstance(v, SSeq): return mkbool(v.n > 0)
    if isinstance(v, SSet): return mkbool(v.t != z3.K(Val, z3.BoolVal(False)))
    if isinstance(v, SMap):
        k = eng.fresh("k", v.ks)
        w = eng.fresh("w", v.ks)
        # nonempty iff some key is present
        eng.axiom(("mapne", v.has.get_id()), lambda: z3.BoolVal(True))
        ne = v.has != z3.K(v.ks, z3.BoolVal(False))
        return mkbool(ne)
    if isinstance(v, SClass): return True
    return None

# ---------------------------------------------------------------- counter-models
def concretize(eng, m, v):
    if isinstance(v, LazyInstance) and hasattr(v, "concretize"): return v.concretize(eng, m)
    if isinstance(v, SVal):
        return conc_val(eng, m, m.eval(v.t, model_completion=True))
    if isinstance(v, SInt): return m.eval(v.t, model_completion=True).as_long()
    if isinstance(v, SBool): return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SFloat): return float(frac(m.eval(v.t, model_completion=True)))
    if isinstance(v, SDec): fr = frac(m.eval(v.t, model_completion=True)); return decimal.Decimal(fr.numerator) / decimal.Decimal(fr.denominator)
    if isinstance(v, SStr): return zs_to_py(m.eval(v.t, model_completion=True))
    if isinstance(v, SObj): return conc_obj(v.kind, m.eval(v.t, model_completion=True).as_long())
    if isinstance(v, SSeq):
        n = m.eval(v.n, model_completion=True).as_long()
        return tuple(concretize(eng, m, v.get(z3.IntVal(i))) for i in range(max(0, min(n, 12))))
    if isinstance(v, SList):
        s = m.eval(v.t, model_completion=True)
        n = m.eval(z3.Length(v.t), model_completion=True).as_long()
        return [conc_val(eng, m, m.eval(v.t[i], model_completion=True)) for i in range(min(n, 12))]
    if isinstance(v, dict): return {k: concretize(eng, m, x) for k, x in v.items()}
    if isinstance(v, list): return [concretize(eng, m, x) for x in v]
    if isinstance(v, tuple): return tuple(concretize(eng, m, x) for x in v)
    if isinstance(v, Sym): return None
    return v
def frac(x):
    if z3.is_algebraic_value(x): x = x.approx(20)
    return fractions.Fraction(x.numerator_as_long(), x.denominator_as_long())
def conc_obj(kind, k):
    if kind == "datetime": return datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=k % 100000)
    if kind == "date": return datetime.date(2020, 1, 1) + datetime.timedelta(days=k % 100000)
    if kind == "time": return datetime.time(k % 24, (k // 24) % 60)
    if kind == "bytes": return b"b%d" % k
    if kind == "list": return ["l%d" % k]
    if kind == "dict": return {"d%d" % k: k}
    if kind == "set": return {"s%d" % k}
    if kind == "tuple": return ("t%d" % k,)
    import uuid
    return uuid.UUID(int=abs(k) % (1 << 100))
def conc_val(eng, m, t):
    n = t.decl().name()
    if n == "none": return None
    a = t.arg(0)
    if n == "bool": return z3.is_true(a)
    if n == "int": return a.as_long()
    if n == "float": return float(frac(a))
    if n == "dec": f = frac(a); return decimal.Decimal(f.numerator) / decimal.Decimal(f.denominator)
    if n == "str": return zs_to_py(a)
    return conc_obj(n[1:], a.as_long())
