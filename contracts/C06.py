"""C06  Comparison operators follow three-valued SQL logic."""
import datetime
from pyvc.api import *
from contracts.common import *
from syncanysql.calculaters.mysql_funcs import logical_funcs as L
from syncanysql import utils

P = "C06"
T = "syncanysql/calculaters/mysql_funcs/logical_funcs.py:"
OPS = {"eq": L.funcs["eq"], "neq": L.funcs["neq"], "gt": L.funcs["gt"], "gte": L.funcs["gte"], "lt": L.funcs["lt"], "lte": L.funcs["lte"]}
NUMERIC = ("bool", "int", "float", "dec")

def rel(op, a, b):
    if op == "eq": return a == b
    if op == "neq": return a != b
    if op == "gt": return a > b
    if op == "gte": return a >= b
    if op == "lt": return a < b
    return a <= b

def ref_compare(op, a, b):
    """NULL if a side is NULL; same kind compares directly; a number on the left compares with the
    numeric value of the right, a text on the left with the text of the right"""
    if a is None or b is None: return None
    if isinstance(a, NUMS) and not isinstance(b, NUMS):
        try: v = number(b)
        except Exception: v = b
        return 1 if rel(op, a, v) else 0
    if isinstance(a, str): return 1 if rel(op, a, text(b)) else 0
    return 1 if rel(op, a, b) else 0

@contract(P, {"op": Choice("eq", "neq", "gt", "gte", "lt", "lte"), "a": Any, "b": Any}, targets=[T + "mysql_" + o for o in OPS], weight=3, cases=6000, split="op")
def compare_is_sql_comparison(op, a, b):
    r = outcome(OPS[op], a, b)
    e = outcome(ref_compare, op, a, b)
    assert r[0] == e[0], "fails exactly when the operands cannot be compared"
    assert same(r[1], e[1]), "result is NULL for a NULL side, else 1/0 of the comparison after coercion to the left side's kind"

@contract(P, {"a": Scalar, "b": Scalar}, targets=[T + "mysql_eq", T + "mysql_neq"], weight=2)
def eq_and_neq_are_opposite(a, b):
    r, s = outcome(OPS["eq"], a, b), outcome(OPS["neq"], a, b)
    assert r[0] == "ok" and s[0] == "ok", "equality never fails on scalars"
    assert (r[1] is None) == (a is None or b is None), "= is NULL exactly when a side is NULL"
    assert (s[1] is None) == (a is None or b is None), "!= is NULL exactly when a side is NULL"
    assert r[1] is None or r[1] + s[1] == 1, "= and != are opposite"

@contract(P, {"p": Choice(("gt", "lte"), ("lt", "gte")), "a": Scalar, "b": Scalar}, targets=[T + "mysql_gt", T + "mysql_lte", T + "mysql_lt", T + "mysql_gte"], weight=3, split="p")
def orderings_are_opposite(p, a, b):
    r, s = outcome(OPS[p[0]], a, b), outcome(OPS[p[1]], a, b)
    assert r[0] == s[0], "both comparisons fail together"
    if r[0] == "ok":
        assert (r[1] is None) == (a is None or b is None), "NULL exactly when a side is NULL"
        assert (s[1] is None) == (a is None or b is None), "NULL exactly when a side is NULL"
        assert r[1] is None or r[1] + s[1] == 1, "> and <= (< and >=) are opposite"

@contract(P, {"a": Kind("bool", "int", "float", "dec"), "b": Kind("bool", "int", "float", "dec")}, targets=[T + "mysql_gt", T + "mysql_gte", T + "mysql_lt", T + "mysql_lte"], weight=2)
def orderings_of_numbers(a, b):
    g, ge, l, le, e = OPS["gt"](a, b), OPS["gte"](a, b), OPS["lt"](a, b), OPS["lte"](a, b), OPS["eq"](a, b)
    assert g + e + l == 1, "exactly one of <, =, > holds"
    assert ge == (1 if (g == 1 or e == 1) else 0), ">= is > or ="
    assert le == (1 if (l == 1 or e == 1) else 0), "<= is < or ="

def ref_in(a, b):
    if a is None: return None
    none = False
    for v in b:
        if v is None: none = True
        elif L.mysql_eq(a, v) == 1: return 1
    return None if none else 0

@contract(P, {"a": Any, "b": Seq()}, targets=[T + "mysql_in"])
def in_is_any_equal_else_null(a, b):
    r = outcome(L.funcs["in"], a, b)
    e = outcome(ref_in, a, b)
    assert r[0] == e[0], "fails only when an equality fails"
    if r[0] == "ok":
        assert same(r[1], e[1]), "IN is 1 if some element equals the value, else NULL if the value or an element is NULL, else 0"

@contract(P, {"a": Any}, targets=[T + "mysql_not"])
def not_flips_truth(a):
    r = outcome(L.funcs["not"], a)
    assert r[0] == "ok", "NOT never fails"
    if a is None: assert r[1] is None, "NOT NULL is NULL"
    else: assert same(r[1], 0 if a else 1), "NOT flips truth"

@contract(P, {"a": Scalar, "b": Scalar}, targets=[T + "mysql_is", T + "mysql_is_not"], weight=2)
def is_and_is_not(a, b):
    r, s = outcome(L.funcs["is"], a, b), outcome(L.funcs["is_not"], a, b)
    assert r[0] == "ok" and s[0] == "ok", "IS never fails on scalars"
    assert same(r[1], 1) or same(r[1], 0), "IS is never NULL"
    assert r[1] + s[1] == 1, "IS and IS NOT are opposite"
    if a is None or b is None: assert r[1] == (1 if (a is None and b is None) else 0), "IS NULL tests for NULL"

@contract(P, {"a": Any}, targets=[T + "mysql_exists"])
def exists_is_never_null(a):
    r = outcome(L.funcs["exists"], a)
    assert r[0] == "ok" and (same(r[1], 0) or same(r[1], 1)), "EXISTS is 0 or 1"
    if a is None: assert r[1] == 0, "EXISTS of nothing is 0"
    if isinstance(a, dict): assert r[1] == 1, "EXISTS of a row is 1"
    if isinstance(a, list): assert r[1] == (1 if a else 0), "EXISTS of rows is 1 when there is a row"

# ---- the coercions the comparisons rely on
@contract(P, {"x": Any}, targets=["syncanysql/utils.py:ensure_number"])
def ensure_number_value(x):
    r, e = outcome(utils.ensure_number, x), outcome(number, x)
    assert r[0] == e[0], "fails exactly when there is no numeric value"
    if r[0] == "ok": assert r[1] == e[1], "numeric value of the operand"

@contract(P, {"x": Any}, targets=["syncanysql/utils.py:ensure_str"])
def ensure_str_value(x):
    r, e = outcome(utils.ensure_str, x), outcome(text, x)
    assert r[0] == e[0], "fails exactly when there is no text"
    if r[0] == "ok": assert same(r[1], e[1]), "text of the operand"

@contract(P, {"x": Str("0123456789.ax- ", 8, ["1.2.3", "12abc", "1.", ".5", "-1", "0012.50x"]), "is_float": Bool()}, targets=["syncanysql/utils.py:parse_number"])
def parse_number_reads_leading_digits(x, is_float):
    r, e = outcome(utils.parse_number, x, is_float), outcome(leading, x, is_float)
    assert r[0] == e[0], "fails exactly when the text does not start with a number"
    if r[0] == "ok": assert r[1] == e[1], "the number is the longest leading run of digits"
