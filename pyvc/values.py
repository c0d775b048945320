"""Symbolic values of the pyvc verifier (z3 terms with a Python kind)."""
import datetime, decimal, fractions
import z3

class Unsupported(Exception):
    """Construct outside the verified subset: never ignored, always reported."""

class Sym:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def _no(self, *a, **k): raise Unsupported("native operation on a symbolic value: %r" % (self,))
    __bool__ = __len__ = __iter__ = __int__ = __float__ = __index__ = __contains__ = __getitem__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __hash__ = _no
    def __repr__(self): return "<%s %s>" % (type(self).__name__, str(self.t)[:80])

class SInt(Sym): __slots__ = ()
class SBool(Sym): __slots__ = ()
class SFloat(Sym): __slots__ = ()      # float, as a mathematical real
class SDec(Sym): __slots__ = ()        # decimal.Decimal, as a mathematical real
class SStr(Sym): __slots__ = ()        # z3 String
class SVal(Sym): __slots__ = ()        # any SQL/Python value (datatype Val)

class SObj(Sym):
    """Value of a kind without arithmetic theory: datetime/date/time (with an order
    key) or an opaque bytes/list/dict/set/tuple/other object."""
    __slots__ = ("kind",)
    def __init__(self, kind, t): self.kind, self.t = kind, t
    def __repr__(self): return "<SObj %s %s>" % (self.kind, self.t)

class SClass(Sym):
    """Class object of an opaque value."""
    __slots__ = ()

Val = z3.Datatype("Val")
Val.declare("none")
Val.declare("bool", ("b", z3.BoolSort()))
Val.declare("int", ("i", z3.IntSort()))
Val.declare("float", ("f", z3.RealSort()))
Val.declare("dec", ("d", z3.RealSort()))
Val.declare("str", ("s", z3.StringSort()))
OBJ_KINDS = ["datetime", "date", "time", "bytes", "list", "dict", "set", "tuple", "other"]
for _k in OBJ_KINDS:
    Val.declare("v" + _k, ("k" + _k, z3.IntSort()))
Val = Val.create()
KINDS = ["none", "bool", "int", "float", "dec", "str"] + OBJ_KINDS

def is_kind(kind, t):
    if kind in OBJ_KINDS: return getattr(Val, "is_v" + kind)(t)
    return getattr(Val, "is_" + kind)(t)

KIND_CLASS = {"none": type(None), "bool": bool, "int": int, "float": float, "dec": decimal.Decimal, "str": str,
              "datetime": datetime.datetime, "date": datetime.date, "time": datetime.time, "bytes": bytes,
              "list": list, "dict": dict, "set": set, "tuple": tuple}

def unval(kind, t):
    """typed value from a Val term known to be of that kind"""
    if kind == "none": return None
    if kind == "bool": return SBool(z3.simplify(Val.b(t)))
    if kind == "int": return SInt(z3.simplify(Val.i(t)))
    if kind == "float": return SFloat(z3.simplify(Val.f(t)))
    if kind == "dec": return SDec(z3.simplify(Val.d(t)))
    if kind == "str": return SStr(z3.simplify(Val.s(t)))
    return SObj(kind, z3.simplify(getattr(Val, "k" + kind)(t)))

def real_of(x):
    if isinstance(x, bool): return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, float, decimal.Decimal)):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("nan/inf")
        fr = fractions.Fraction(x)
        return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))
    if isinstance(x, SBool): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SInt): return z3.ToReal(x.t)
    if isinstance(x, (SFloat, SDec)): return x.t
    raise Unsupported("real_of %r" % (x,))

def int_of(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(int(x))
    if isinstance(x, SBool): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SInt): return x.t
    raise Unsupported("int_of %r" % (x,))

def bool_of(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SBool): return x.t
    raise Unsupported("bool_of %r" % (x,))

def zstr(s):
    # z3 escapes: use \u{..} for anything non printable
    out = []
    for c in s:
        if 32 <= ord(c) < 127 and c != "\\": out.append(c)
        else: out.append("\\u{%x}" % ord(c))
    return z3.StringVal("".join(out))

def str_of(x):
    if isinstance(x, str): return zstr(x)
    if isinstance(x, SStr): return x.t
    raise Unsupported("str_of %r" % (x,))

_const_objs = {}
_const_keep = []
def const_key(x):
    """distinct negative keys for concrete opaque constants"""
    try:
        k = (type(x), x)
        hash(k)
    except TypeError:
        k = ("id", id(x)); _const_keep.append(x)
    if k not in _const_objs: _const_objs[k] = -1000 - len(_const_objs)
    return z3.IntVal(_const_objs[k])

def kind_of(x):
    """kind of a non-SVal value, or None when it has no Val kind"""
    if x is None: return "none"
    if isinstance(x, (bool, SBool)): return "bool"
    if isinstance(x, (int, SInt)): return "int"
    if isinstance(x, (float, SFloat)): return "float"
    if isinstance(x, (decimal.Decimal, SDec)): return "dec"
    if isinstance(x, (str, SStr)): return "str"
    if isinstance(x, SObj): return x.kind
    if isinstance(x, datetime.datetime): return "datetime"
    if isinstance(x, datetime.date): return "date"
    if isinstance(x, datetime.time): return "time"
    if isinstance(x, bytes): return "bytes"
    return None

def to_val(x):
    if isinstance(x, SVal): return x.t
    k = kind_of(x)
    if k == "none": return Val.none
    if k == "bool": return Val.bool(bool_of(x))
    if k == "int": return Val.int(int_of(x))
    if k == "float": return Val.float(real_of(x))
    if k == "dec": return Val.dec(real_of(x))
    if k == "str": return Val.str(str_of(x))
    if k in OBJ_KINDS:
        key = x.t if isinstance(x, SObj) else const_key(x)
        return getattr(Val, "v" + k)(key)
    raise Unsupported("to_val %r" % (type(x),))
