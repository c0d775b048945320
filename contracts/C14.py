"""C14  LIKE and REGEXP match what their pattern says."""
import re
from pyvc.api import *
from contracts import sqlrun
from contracts.common import text
from syncanysql.calculaters.mysql_funcs import regexp_funcs as RF

P = "C14"
F = "syncanysql/calculaters/mysql_funcs/regexp_funcs.py:"
def fn(name): return getattr(RF, "mysql_" + name)
LETTERS = "aAbB.%*_\\[$^\n日"
Text = lambda: Str(LETTERS, extra=["a\nb", "a.b", "%", "ab", "axb", "\n", "[", "日b"])
def pattern(rng):
    if rng.random() < 0.1: return rng.choice([r"(", r"[", r"*", ""])
    return rng.choice(["", "", "^", r"\b", "(?<=a)"]) + "".join(rng.choice(["a", "b", "A", ".", "[ab]", "a*", "b+", "(a|b)", r"\w", "x?", "."]) for _ in range(rng.randint(0, 3))) + rng.choice(["", "", "$", r"\b"])
Pattern = lambda: Custom("pattern", pattern, lambda: ["", "a", "^a", "a*", "b$", "^", "$", r"\b", "(?<=a)b", "."])
Kinds = lambda: Custom("match_type", lambda rng: rng.choice([None, None, "".join(rng.choice("cimnuCIx") for _ in range(rng.randint(0, 3))), str(rng.choice([0, 8, 16]))]), lambda: [None, "", "c", "i", "ci", "ic", "m", "n", "u", "mn", "M", "x", "2", "16"])
Position = lambda: Custom("int", lambda rng: rng.randint(-1, 12), lambda: [-1, 0, 1, 2, 3, 4, 20])
Count = lambda: Custom("int", lambda rng: rng.randint(-1, 5), lambda: [-1, 0, 1, 2, 3, 4])

def flags_of(kinds):
    """how a match type reads: case matters only when the last of c and i is c; m, n and u are single options"""
    if kinds is None or kinds == "": return re.IGNORECASE
    if kinds.isdigit(): return int(kinds) | re.IGNORECASE
    case, many, newline, uni = True, False, False, False
    for c in kinds.lower():
        if c == "c": case = False
        if c == "i": case = True
        if c == "m": many = True
        if c == "n": newline = True
        if c == "u": uni = True
    return flag_bits(case, many, newline, uni)
def flag_bits(case, many, newline, uni):
    return (re.IGNORECASE if case else 0) | (re.MULTILINE if many else 0) | (re.DOTALL if newline else 0) | (re.UNICODE if uni else 0)
def like(s, p, flags):
    """SPEC: p, where % stands for any run of characters, is the whole of s"""
    alike = lambda a, b: a == b or bool(flags & re.IGNORECASE) and a.lower() == b.lower()
    row = [True] + [False] * len(s)
    for c in p:
        if c == "%":
            for i in range(len(s)): row[i + 1] = row[i + 1] or row[i]
        else:
            row = [False] + [row[i] and alike(s[i], c) for i in range(len(s))]
    return row[len(s)]
def matches(s, r, start, flags):
    """SPEC (re): the matches of r in s, left to right without overlap, from index start on"""
    return list(re.compile(r, flags).finditer(s, start))
def usable(s, r, flags):
    """SPEC (re): r is a regular expression"""
    try: re.compile(r, flags); return True
    except Exception: return False
def kth(s, r, pos, k, flags):
    """the k-th match from position pos (counted from 1), or None"""
    if pos < 1 or pos > len(s) + 1: return None
    found = matches(s, r, pos - 1, flags)
    i = k - 1 if k > 1 else 0
    return found[i] if i < len(found) else None
def replaced(s, found, rs):
    """s with every one of the matches replaced"""
    out, upto = "", 0
    for m in found:
        out = out + s[upto:m.start()] + m.expand(rs)
        upto = m.end()
    return out + s[upto:]

@contract(P, {"x": Scalar, "y": Scalar, "kinds": Kinds()}, targets=[F + "mysql_like"])
def liking(x, y, kinds):
    assume(x is not None and y is not None)
    got = outcome(fn("like"), x, y, kinds)
    flags = outcome(flags_of, kinds)
    assume(flags[0] == "ok")
    assert got == ("ok", 1 if like(text(x), text(y), flags[1]) else 0), "LIKE: % matches any run, every other character itself, and the whole text is matched"
@contract(P, {"s": Text(), "p": Text()}, targets=[F + "mysql_like"], weight=4)
def liking_text(s, p):
    assert fn("like")(s, p) == (1 if like(s, p, re.IGNORECASE) else 0), "LIKE: % matches any run, every other character itself ignoring case, and the whole text is matched"
@contract(P, {"kinds": Kinds()}, targets=[F + "parse_flags"])
def flags(kinds):
    want, got = outcome(flags_of, kinds), outcome(RF.parse_flags, kinds)
    assert got[0] == want[0] and (want[0] == "error" or got[1] == want[1]), "the match type"
@contract(P, {"x": Scalar, "r": Pattern(), "kinds": Kinds(), "name": Choice("regexp", "regexplike")}, split="name", targets=[F + "mysql_regexp", F + "mysql_regexplike"])
def found(x, r, kinds, name):
    assume(x is not None)
    f = outcome(flags_of, kinds)
    assume(f[0] == "ok")
    s = text(x)
    want = 1 if usable(s, r, f[1]) and len(matches(s, r, 0, f[1])) > 0 else 0
    assert fn(name)(x, r, kinds) == want, "REGEXP is 1 exactly when the pattern is found in the text"
@contract(P, {"s": Text(), "r": Pattern(), "pos": Position(), "k": Count(), "option": Choice(0, 1), "kinds": Kinds()}, weight=4, targets=[F + "mysql_regexp_instr", F + "mysql_regexp_substr"])
def addressed(s, r, pos, k, option, kinds):
    f = outcome(flags_of, kinds)
    assume(f[0] == "ok" and usable(s, r, f[1]))
    m = kth(s, r, pos, k, f[1])
    where, part = fn("regexp_instr")(s, r, pos, k, option, kinds), fn("regexp_substr")(s, r, pos, k, kinds)
    if m is None: assert where == 0 and part is None, "without a k-th match there is no position and no text"
    else:
        assert where == (m.end() if option else m.start()) + 1, "REGEXP_INSTR is the position of the k-th match, or the one after it, in the whole text"
        assert part == s[m.start():m.end()], "REGEXP_SUBSTR is the k-th match"
@contract(P, {"s": Text(), "r": Pattern(), "t": Str("aX-日"), "pos": Position(), "k": Count(), "kinds": Kinds()}, weight=4, targets=[F + "mysql_regexp_replace"])
def replacing(s, r, t, pos, k, kinds):
    f = outcome(flags_of, kinds)
    assume(f[0] == "ok" and usable(s, r, f[1]))
    if k > 0:
        m = kth(s, r, pos, k, f[1])
        want = s if m is None else s[:m.start()] + t + s[m.end():]
    else: want = s if pos < 1 or pos > len(s) + 1 else replaced(s, matches(s, r, pos - 1, f[1]), t)
    assert fn("regexp_replace")(s, r, t, pos, k, kinds) == want, "REGEXP_REPLACE replaces the k-th match, or every match from the position, and nothing else"
ARGS = {"like": 2, "regexp": 2, "regexplike": 2, "regexp_instr": 2, "regexp_substr": 2, "regexp_replace": 3}
@contract(P, {"name": Choice(*ARGS), "a": Scalar, "b": Scalar, "c": Scalar}, targets=[F + "mysql_" + n for n in ARGS])
def null_operand(name, a, b, c):
    args = [a, b, c][:ARGS[name]]
    assume(None in args)
    assert fn(name)(*args) is None, "a NULL text or pattern gives NULL"

# ---- through SQL: the same answer wherever LIKE is written
def rows_case(rng):
    word = lambda: "".join(rng.choice("aAb.%_x*") for _ in range(rng.randint(0, 4)))
    return ([rng.choice([None, word(), word(), word(), rng.randint(0, 20)]) for _ in range(6)], rng.choice([word(), "%" + word() + "%", word() + "%", "%" + word()]))
@contract(P, {"c": Custom("rows", rows_case)}, bounded_only=True, cases=60, bound="seeded tables of 6 rows through SQL",
          targets=["syncanysql/compiler.py:CompilerDialect.compile_having_condition", "syncanysql/calculaters/mysql_calculater.py:MysqlCalculater.calculate"])
def through_sql(c):
    words, p = c
    table = [{"i": i, "s": w} for i, w in enumerate(words)]
    yes = [i for i, w in enumerate(words) if w is not None and like(text(w), p, re.IGNORECASE)]
    no = [i for i, w in enumerate(words) if w is not None and not like(text(w), p, re.IGNORECASE)]
    def ids(sql): return sorted(r["i"] for r in sqlrun.query(sql % p, data=table))
    assert ids("select i, s from data where s like '%s'") == yes, "WHERE ... LIKE"
    assert ids("select i, s from data where s not like '%s'") == no, "WHERE ... NOT LIKE"
    assert ids("select i, max(s) as s from data group by i having s like '%s'") == yes, "HAVING ... LIKE"
    assert ids("select i, max(s) as s from data group by i having not s like '%s'") == no, "HAVING NOT ... LIKE"
    want = [None if w is None else int(i in yes) for i, w in enumerate(words)]
    assert [r["l"] for r in sqlrun.query("select i, s like '%s' as l from data" % p, data=table)] == want, "LIKE as a value"
