"""C11  String functions slice, search and compare as documented for every text."""
from pyvc.api import *
from contracts import sqlrun
from contracts.common import text
from syncanysql.calculaters.mysql_funcs import string_funcs as SF

P = "C11"
F = "syncanysql/calculaters/mysql_funcs/string_funcs.py:mysql_"
CHARS = "aAbB, .é日%_'-10\n"
def fn(name): return getattr(SF, "mysql_" + name)
def upto(x, n): return x if x < n else n
def part(s, start, stop):
    """the characters at positions start..stop-1 counted from 0, as far as the text has them"""
    n = len(s)
    return s[upto(start, n):upto(stop, n)] if start < stop else ""
Text = lambda: Str(CHARS)
Position = lambda: Custom("int", lambda rng: rng.choice([0, 1, 2, 3, -1, -2, 5, 9, rng.randint(-15, 15), rng.randint(-2**40, 2**40)]), lambda: [-11, -4, -3, -2, -1, 0, 1, 2, 3, 4, 10])
def null_first(name, *args):
    r = outcome(fn(name), *args)
    return r[0] == "error" or r[1] is None

@contract(P, {"x": Any}, targets=["syncanysql/utils.py:ensure_str"])
def as_text(x):
    want, got = outcome(text, x), outcome(SF.ensure_str, x)
    assert got[0] == want[0] and (want[0] == "error" or got[1] == want[1]), "the text of an operand"
@contract(P, {"x": Scalar, "n": Position()}, targets=[F + "left"])
def left(x, n):
    assume(x is not None)
    s = text(x)
    assert fn("left")(x, n) == part(s, 0, n), "LEFT is the first n characters"
@contract(P, {"x": Scalar, "n": Position()}, targets=[F + "right"])
def right(x, n):
    assume(x is not None)
    s = text(x)
    assert fn("right")(x, n) == (part(s, len(s) - n if n < len(s) else 0, len(s)) if n > 0 else ""), "RIGHT is the last n characters"
@contract(P, {"x": Scalar, "n": Position(), "l": Position(), "name": Choice("substring", "substr"), "whole": Bool()}, split="name", targets=[F + "substring", F + "substr"])
def substring(x, n, l, name, whole):
    assume(x is not None)
    s = text(x)
    first = n - 1 if n > 0 else len(s) + n
    want = part(s, first, len(s) if whole else first + l) if n != 0 and first >= 0 else ""
    assert (fn(name)(x, n) if whole else fn(name)(x, n, l)) == want, "SUBSTRING is the l characters from position n, a negative one counted from the end"
@contract(P, {"x": Scalar, "n": Position(), "l": Position(), "y": Scalar}, targets=[F + "insert"])
def insert(x, n, l, y):
    assume(x is not None and y is not None)
    s, t = text(x), text(y)
    if n < 1 or n > len(s): want = s
    else: want = part(s, 0, n - 1) + t + (part(s, n - 1 + l, len(s)) if l >= 0 else "")
    assert fn("insert")(x, n, l, y) == want, "INSERT replaces the l characters from position n and nothing else"
@contract(P, {"x": Scalar, "n": SmallKind("int")}, targets=[F + "repeat"])
def repeat(x, n):
    assume(x is not None)
    assert fn("repeat")(x, n) == text(x) * n, "REPEAT is the text n times"
@contract(P, {"x": Scalar, "j": Int(0, 12)}, targets=[F + "reverse"])
def reverse(x, j):
    assume(x is not None)
    s = text(x)
    r = fn("reverse")(x)
    assert len(r) == len(s), "REVERSE keeps the length"
    if j < len(s): assert r[j] == s[len(s) - 1 - j], "REVERSE puts the characters in reverse order"
@contract(P, {"a": Scalar, "b": Scalar, "c": Scalar, "k": Choice(0, 1, 2, 3)}, split="k", targets=[F + "concat", F + "concat_ws"])
def concat(a, b, c, k):
    args = [a, b, c][:k]
    if None in args:
        assert null_first("concat", *args), "a NULL part gives NULL"
        return
    want = ""
    for x in args: want = want + text(x)
    assert fn("concat")(*args) == want, "CONCAT is the parts one after the other"
    want = "-".join([text(x) for x in args])
    assert fn("concat_ws")("-", *args) == want, "CONCAT_WS puts the separator between the parts"
@contract(P, {"n": Position(), "args": Seq()}, targets=[F + "elt"])
def elt(n, args):
    assert same(fn("elt")(n, *args), args[n - 1] if n >= 1 and n <= len(args) else None), "ELT is the n-th of its arguments, NULL outside"
def place(args, s):
    """SPEC: position of the first argument equal to s, counted from 1, or 0"""
    for i, a in enumerate(args):
        if a is s or a == s: return i + 1
    return 0
@contract(P, {"s": Scalar, "args": Seq("int", "str", "float", "none", "bool", "date")}, targets=[F + "field", F + "elt"])
def field(s, args):
    assume(s is not None)
    r = fn("field")(s, *args)
    assert r == place(args, s), "FIELD is the position of the first equal argument, 0 when none is"
    if r > 0: assert fn("elt")(r, *args) == s, "ELT of the position FIELD found gives the value searched for"
@contract(P, {"x": Scalar, "y": Scalar}, targets=[F + "find_in_set"])
def find_in_set(x, y):
    assume(x is not None and y is not None)
    s, t = text(x), text(y)
    r, parts = fn("find_in_set")(x, y), t.split(",")
    if t == "": assert r == 0, "nothing is in an empty set"
    else: assert r == place(parts, s), "FIND_IN_SET is the position among the comma separated parts, 0 when absent"
@contract(P, {"x": Scalar, "y": Scalar}, targets=[F + n for n in ("strcmp", "startswith", "endswith")])
def comparing(x, y):
    assume(x is not None and y is not None)
    s, t = text(x), text(y)
    assert fn("strcmp")(x, y) == (0 if s == t else -1 if s < t else 1), "STRCMP orders the texts"
    assert fn("startswith")(x, y) == (1 if s.startswith(t) else 0), "STARTSWITH"
    assert fn("endswith")(x, y) == (1 if s.endswith(t) else 0), "ENDSWITH"
@contract(P, {"s": Text(), "y": Scalar, "flip": Bool()}, targets=[F + "contains"])
def contains(s, y, flip):
    assume(y is not None)
    if flip: assume(not isinstance(y, str))
    t = text(y)
    if flip: assert fn("contains")(y, s) == (1 if s in t else 0), "CONTAINS finds one text in another"
    else: assert fn("contains")(s, y) == (1 if t in s else 0), "CONTAINS finds one text in another"
@contract(P, {"x": Scalar}, targets=[F + n for n in ("lower", "upper", "ucase", "trim", "char_length", "character_length")])
def simple(x):
    assume(x is not None)
    s = text(x)
    assert fn("lower")(x) == s.lower() and fn("upper")(x) == s.upper() and fn("ucase")(x) == s.upper(), "LOWER, UPPER"
    assert fn("trim")(x) == s.strip(), "TRIM takes the blanks off both ends"
    assert fn("char_length")(x) == len(s) and fn("character_length")(x) == len(s), "CHAR_LENGTH counts characters"
@contract(P, {"s": Text()}, targets=[F + "length", F + "bit_length"])
def bytes_length(s):
    got = outcome(fn("length"), s)
    if got[0] == "ok": assert got[1] == len(s.encode("utf-8")) and fn("bit_length")(s) == 8 * len(s.encode("utf-8")), "LENGTH counts UTF-8 bytes, BIT_LENGTH their bits"
    else: assert outcome(s.encode, "utf-8")[0] == "error", "LENGTH has a value for every text that has bytes"
@contract(P, {"x": Text(), "d": Text(), "n": Position()}, targets=[F + "substring_index"])
def substring_index(x, d, n):
    assume(d != "")
    parts = x.split(d)
    k = len(parts)
    want = d.join(parts[0:upto(n, k)] if n >= 0 else parts[k + n if k + n > 0 else 0:k])
    assert fn("substring_index")(x, d, n) == want, "SUBSTRING_INDEX keeps the first n parts, or the last ones for a negative n"
@contract(P, {"x": Text(), "a": Text(), "b": Text()}, targets=[F + "replace"])
def replace(x, a, b):
    assert fn("replace")(x, a, b) == x.replace(a, b), "REPLACE replaces every occurrence"
SUBJECT = {"left": 1, "right": 1, "substring": 2, "substr": 2, "insert": 3, "repeat": 1, "reverse": 0, "concat": 1, "field": 2, "find_in_set": 1, "strcmp": 1, "startswith": 1, "endswith": 1, "contains": 1, "trim": 0, "upper": 0, "lower": 0, "ucase": 0,
           "length": 0, "char_length": 0, "character_length": 0, "bit_length": 0, "substring_index": 2, "replace": 2}
@contract(P, {"name": Choice(*SUBJECT), "a": Scalar, "b": Scalar, "c": Scalar}, targets=[F + n for n in SUBJECT])
def null_subject(name, a, b, c):
    assert null_first(name, None, *[a, b, c][:SUBJECT[name]]), "a NULL subject gives NULL"

# ---- through SQL
def quoted(rng):
    return "".join(rng.choice("aAbB, .é日%_-10") for _ in range(rng.randint(0, 8)))
def sql_case(rng):
    s, t, n, l = quoted(rng), quoted(rng), rng.randint(-9, 9), rng.randint(-1, 9)
    if rng.random() < 0.4 and s: t = s[rng.randint(0, len(s) - 1):][:rng.randint(1, 3)]
    return (s, t, n, l)
@contract(P, {"c": Custom("sqlcase", sql_case)}, bounded_only=True, cases=150, bound="seeded texts in a table through SQL", targets=["syncanysql/calculaters/mysql_calculater.py:MysqlCalculater.calculate"])
def through_sql(c):
    s, t, n, l = c
    first = n - 1 if n > 0 else len(s) + n
    cases = {"left(s, n)": part(s, 0, n), "right(s, n)": (s[max(0, len(s) - n):] if n > 0 else ""), "substring(s, n)": part(s, first, len(s)) if n != 0 and first >= 0 else "",
             "substring(s, n, l)": part(s, first, first + l) if n != 0 and first >= 0 else "", "substr(s, n, l)": part(s, first, first + l) if n != 0 and first >= 0 else "",
             "repeat(s, l)": s * l, "reverse(s)": s[::-1], "concat(s, t, s)": s + t + s, "elt(l, 'x', s, t)": ["x", s, t][l - 1] if 1 <= l <= 3 else None,
             "elt(field(t, 'x', s, t), 'x', s, t)": t, "field(t, 'x', s)": 2 if s == t else 0, "find_in_set(t, s)": s.split(",").index(t) + 1 if s and t in s.split(",") else 0,
             "strcmp(s, t)": (s > t) - (s < t), "startswith(s, t)": int(s.startswith(t)), "endswith(s, t)": int(s.endswith(t)), "contains(s, t)": int(t in s), "trim(s)": s.strip(), "upper(s)": s.upper(), "lower(s)": s.lower(),
             "length(s)": len(s.encode()), "char_length(s)": len(s), "character_length(s)": len(s), "bit_length(s)": 8 * len(s.encode()), "left(z, n)": None, "concat(s, z)": None, "reverse(z)": None, "length(z)": None, "upper(z)": None, "trim(z)": None}
    got = sqlrun.query("select %s from data" % ", ".join("%s as c%d" % (k, i) for i, k in enumerate(cases)), data=[{"s": s, "t": t, "n": n, "l": l, "z": None}])[0]
    for i, (k, v) in enumerate(cases.items()): assert got["c%d" % i] == v, "%s as documented" % k
