"""C07  Numeric functions propagate NULL and coerce operands leniently."""
import math
from pyvc.api import *
from contracts.common import *
from syncanysql.calculaters.mysql_funcs import number_funcs as N
from syncanysql import utils

P = "C07"
T = "syncanysql/calculaters/mysql_funcs/number_funcs.py:mysql_"
F = N.funcs

def pair(x, y):
    """operands of an arithmetic operator: exact decimals meet floats as floats"""
    x, y = number(x), number(y)
    if isinstance(x, decimal.Decimal) and isinstance(y, float): return float(x), y
    if isinstance(x, float) and isinstance(y, decimal.Decimal): return x, float(y)
    return x, y

def ref_arith(op, x, y):
    if x is None or y is None: return None
    x, y = pair(x, y)
    if op == "add": return x + y
    if op == "sub": return x - y
    if op == "mul": return x * y
    if op == "div": return x / y
    return x % y

@contract(P, {"op": Choice("add", "sub", "mul", "div", "mod"), "x": Scalar, "y": Scalar}, targets=[T + o for o in ("add", "sub", "mul", "div", "mod")], split="op", weight=2)
def arithmetic(op, x, y):
    r, e = outcome(F[op], x, y), outcome(ref_arith, op, x, y)
    assert r[0] == e[0], "fails exactly when an operand has no numeric value or the operation is undefined"
    if r[0] == "ok":
        assert (r[1] is None) == (x is None or y is None), "NULL exactly when an operand is NULL"
        assert r[1] is None or same_number(r[1], e[1]), "the operation applied to the numeric values"

def same_number(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return close(a, b)
    return a == b
def close(a, b):
    """SPEC: equality of reals (CPython side: up to rounding)"""
    if a == b: return True
    return abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)))

def ref_bits(op, x, y):
    if x is None or y is None: return None
    x, y = integer(x), integer(y)
    if op in ("bitwiseand", "bit_and"): return x & y
    if op in ("bitwiseor", "bit_or"): return x | y
    if op in ("bitwisexor", "bit_xor"): return x ^ y
    if op == "bitwiserightshift": return x >> y
    return x << y

@contract(P, {"op": Choice("bitwiseand", "bit_and", "bitwiseor", "bit_or", "bitwisexor", "bit_xor"), "x": Scalar, "y": Scalar},
          targets=[T + o for o in ("bitwiseand", "bit_and", "bitwiseor", "bit_or", "bitwisexor", "bit_xor")], split="op", weight=2)
def bit_operations(op, x, y):
    r, e = outcome(F[op], x, y), outcome(ref_bits, op, x, y)
    assert r[0] == e[0], "fails exactly when an operand has no integer value"
    assert r[1] == e[1], "NULL for NULL, else the operation on the integer values"

@contract(P, {"op": Choice("bitwiserightshift", "bitwiseleftshift"), "x": Scalar, "y": Scalar}, targets=[T + "bitwiserightshift", T + "bitwiseleftshift"], split="op", weight=2)
def shifts(op, x, y):
    if not (y is None):
        v = outcome(integer, y)
        assume(v[0] == "error" or v[1] < 200)
    r, e = outcome(F[op], x, y), outcome(ref_bits, op, x, y)
    assert r[0] == e[0], "fails exactly when an operand has no integer value or the shift is negative"
    assert r[1] == e[1], "NULL for NULL, else the shifted integer value"

@contract(P, {"x": Scalar}, targets=[T + "bitwisenot"])
def bit_complement(x):
    r = outcome(F["bitwisenot"], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(integer, x)
        assert r[0] == e[0], "fails exactly when there is no integer value"
        if r[0] == "ok": assert r[1] == -e[1] - 1, "complement of the integer value"

@contract(P, {"x": Scalar}, targets=[T + "neg"])
def negative(x):
    r = outcome(F["neg"], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(number, x)
        assert r[0] == e[0], "fails exactly when there is no numeric value"
        if r[0] == "ok": assert r[1] == -e[1], "the numeric value with the opposite sign"

MATH1 = {"sqrt": math.sqrt, "exp": math.exp, "sin": math.sin, "asin": math.asin, "cos": math.cos, "acos": math.acos, "tan": math.tan, "atan": math.atan}
@contract(P, {"op": Choice("sqrt", "exp", "sin", "asin", "cos", "acos", "tan", "atan"), "x": Scalar}, targets=[T + o for o in MATH1], split="op")
def real_functions(op, x):
    if op == "exp" and x is not None:
        v = outcome(number, x)
        assume(v[0] == "error" or v[1] < 500)
    r = outcome(F[op], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(ref_math, op, x)
        assert r[0] == e[0], "fails exactly on text without a number and outside the domain"
        assert same(r[1], e[1]), "the function of the numeric value"
def ref_math(op, x): return MATH1[op](number(x))

@contract(P, {"op": Choice("ln", "log", "log2"), "x": Scalar, "base": Int(2, 12)}, targets=[T + "ln", T + "log"], split="op")
def logarithms(op, x, base):
    if op == "ln": r = outcome(F["ln"], x)
    elif op == "log": r = outcome(F["log"], x)
    else: r = outcome(F["log"], x, base)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(ref_log, op, x, base)
        assert r[0] == e[0], "fails exactly on text without a number and outside the domain"
        assert same(r[1], e[1]), "logarithm of the numeric value (base e, 10 or the given base)"
def ref_log(op, x, base):
    if op == "ln": return math.log(number(x), math.e)
    return math.log(number(x), 10 if op == "log" else base)

@contract(P, {"op": Choice("ceil", "ceiling", "floor"), "x": Scalar}, targets=[T + "ceil", T + "ceiling", T + "floor"], split="op")
def rounding_to_integers(op, x):
    r = outcome(F[op], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(number, x)
        assert r[0] == e[0], "fails exactly on values without a number"
        if r[0] == "ok":
            n = r[1]
            assert isinstance(n, int), "an integer"
            if op == "floor": assert n <= e[1] and n + 1 > e[1], "largest integer not above the value"
            else: assert n >= e[1] and n - 1 < e[1], "smallest integer not below the value"

@contract(P, {"x": Scalar}, targets=[T + "abs"])
def absolute_value(x):
    r = outcome(F["abs"], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(number, x)
        assert r[0] == e[0], "fails exactly on values without a number"
        if r[0] == "ok": assert r[1] == (e[1] if e[1] >= 0 else -e[1]), "magnitude of the value"

@contract(P, {"x": Scalar}, targets=[T + "sign"])
def sign_value(x):
    r = outcome(F["sign"], x)
    if x is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(number, x)
        assert r[0] == e[0], "fails exactly on values without a number"
        if r[0] == "ok": assert r[1] == (0 if e[1] == 0 else (-1 if e[1] < 0 else 1)), "sign of the value"

@contract(P, {"x": Scalar, "y": SmallKind("none", "int", "str", "bool"), "given": Bool()}, targets=[T + "round"])
def rounding_to_digits(x, y, given):
    r = outcome(F["round"], x, y) if given else outcome(F["round"], x)
    if x is None or (given and y is None): assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(ref_round, x, y if given else 2)
        assert r[0] == e[0], "fails exactly on operands without a number"
        assert same(r[1], e[1]), "value rounded to the given digits (2 by default)"
def ref_round(x, y): return round(number(x), integer(y))

@contract(P, {"op": Choice("pow", "power"), "x": Scalar, "y": Scalar}, targets=[T + "pow", T + "power"], split="op")
def powers(op, x, y):
    r = outcome(F[op], x, y)
    if x is None or y is None: assert r[0] == "ok" and r[1] is None, "NULL for NULL"
    else:
        e = outcome(ref_pow, x, y)
        assert r[0] == e[0], "fails exactly on operands without a number and outside the domain"
        assert same(r[1], e[1]), "power of the numeric values"
def ref_pow(x, y): return math.pow(number(x), number(y))

def check_extreme(op, args, r):
    if None in args: assert r[0] == "error" or r[1] is None, "VC:no value when an operand is NULL"
    elif r[0] == "ok":
        alltext = all(isinstance(a, str) for a in args)
        hit = False
        for a in args:
            va, vr = (a, r[1]) if alltext else (number(a), number(r[1]))
            if va == vr: hit = True
            if op == "greatest": assert vr >= va, "VC:not below any operand (texts compare as texts, otherwise numeric values)"
            else: assert vr <= va, "VC:not above any operand (texts compare as texts, otherwise numeric values)"
        assert hit, "VC:one of the operands"
    else:
        bad = False
        for a in args:
            if outcome(number, a)[0] == "error": bad = True
        assert bad, "VC:fails only when an operand has no number"

NUMT = Kind("none", "bool", "int", "float", "dec", "str")
@contract(P, {"op": Choice("greatest", "least"), "x": NUMT, "y": NUMT}, targets=[T + "greatest", T + "least"], split="op", weight=2)
def extremes_of_two(op, x, y): check_extreme(op, (x, y), outcome(F[op], x, y))

NUM3 = Kind("int", "str")
@contract(P, {"op": Choice("greatest", "least"), "x": NUM3, "y": NUM3, "z": NUM3}, targets=[T + "greatest", T + "least"], split="op", weight=9, note="arity 3; larger arities are not covered")
def extremes_of_three(op, x, y, z): check_extreme(op, (x, y, z), outcome(F[op], x, y, z))

@contract(P, {"op": Choice("add", "sub", "mul", "bitwiseand", "bitwiseor", "bitwisexor", "bit_and", "bit_or", "bit_xor", "mod"), "n": Int(), "m": Int()}, targets=["syncanysql/utils.py:ensure_number", "syncanysql/utils.py:ensure_int"], split="op")
def numbers_given_as_text(op, n, m):
    r = outcome(F[op], n, m)
    assert outcome(F[op], str(n), m) == r, "left operand given as text"
    assert outcome(F[op], n, str(m)) == r, "right operand given as text"
    assert outcome(F[op], str(n), str(m)) == r, "both operands given as text"

@contract(P, {"op": Choice("abs", "sign", "ceil", "floor", "bitwisenot", "sqrt", "round"), "n": Int()}, targets=["syncanysql/utils.py:ensure_number"], split="op")
def number_given_as_text(op, n):
    assert outcome(F[op], str(n)) == outcome(F[op], n), "operand given as text"

@contract(P, {"x": Scalar}, targets=["syncanysql/utils.py:ensure_int"])
def ensure_int_value(x):
    r, e = outcome(utils.ensure_int, x), outcome(integer, x)
    assert r[0] == e[0], "fails exactly when there is no integer value"
    if r[0] == "ok": assert r[1] == e[1], "integer value of the operand"
