"""C21  Quoted names and literal values keep their exact text."""
import re
from uuid import uuid1
from pyvc.api import *
from contracts import sqlrun
from sqlglot import expressions as X, parse_one
from syncanysql.parser import SqlParser
from syncanysql.compiler import Compiler, CompilerDialect
from syncanysql.executor import EnvVariables

P = "C21"
F = "syncanysql/compiler.py:Compiler."
Q = "syncanysql/parser.py:SqlParser."

# ---- quoted names in a text
def lex(sql, i, mode, escaped):
    """one character of a statement: what it belongs to after it.  mode: '' outside, 'line' and 'block' in comments ('open' and
    'close' on the two characters after the first one of a comment bracket), 'pair' on the second of two back-quotes inside a
    name (they stand for one), else the open quote.  A backslash escapes in texts, not in names"""
    c, two = sql[i], sql[i:i + 2]
    if mode == "":
        if c == "'" or c == '"' or c == "`": return (c, False)
        if c == "#" or two == "--": return ("line", False)
        if two == "/*": return ("open", False)
        return ("", False)
    if mode == "line": return ("" if c == "\n" else "line", False)
    if mode == "open": return ("block", False)
    if mode == "block": return ("close" if two == "*/" else "block", False)
    if mode == "close": return ("", False)
    if mode == "pair": return ("`", False)
    if mode == "`": return ("`", False) if c != "`" else ("pair", False) if two == "``" else ("", False)
    if escaped: return (mode, False)
    if c == "\\": return (mode, True)
    return ("" if c == mode else mode, False)
def next_name(sql, at):
    """SPEC: where the first quoted name from position `at` (outside quotes and comments) starts and ends"""
    mode, escaped, start, end = "", False, None, None
    for i in range(len(sql)):
        if i < at or end is not None: continue
        after = lex(sql, i, mode, escaped)
        if mode == "" and after[0] == "`": start = i + 1
        if mode == "`" and after[0] == "": end = i
        mode, escaped = after[0], after[1]
    return (start, end) if end is not None else None
def names(sql):
    """SPEC: all quoted names of a text"""
    out, n = [], next_name(sql, 0)
    while n is not None:
        out.append(n)
        n = next_name(sql, n[1] + 1)
    return out
def piece(sql, at, to): return sql[at:to]
def read(sql, at):
    p = SqlParser(sql)
    p.index = at
    return p.read_segment(), p.index

PIECES = ["select ", "`a b`", "`a.b`", "`a`", "`it's`", "`x``y`", "`\"`", "``", "`", "'a`b'", '"`"', "'it''s'", "'\\'`'", "'\\\\'", "# `x\n", "-- it's `\n", "--", "/* ` ' */", "/* `a b` */", "/**/", "/*", "*/", "*", "'", '"', "\\", "\n", " ", ", ", "é", "`日 本`", "`file:///a?b=c&d#e`", "-", "/", "``` `", "`/*`", "`--`", "`#`"]
def text_gen(rng): return "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 8)))
SAMPLES = ["", "`a b`", "`", "``", "```", "````", "`a``b`", "` `` `", "'`' `x y`", "`it's` `o'clock`", "-- ` \n`a b`", "/* ` */`a b`", "/* a *//* ` */ `a b`", "\"it's\" `a b` 'x'", "`a\\` `b c`", "# `", "'\\'`a b`' `c d`", "`a b`, `a b`, `c d`", "/*/ ` */`a b`"]
Script = lambda: Custom("script", text_gen, lambda: SAMPLES)
@contract(P, {"sql": Script(), "at": Int(0, None, pool=[0, 0, 0, 1, 3, 7])}, targets=[Q + "read_segment", Q + "skip_quote_or_comment", Q + "skip_escape", Q + "read_util", Q + "next"], cases=20000, weight=2)
def reading(sql, at):
    assume(at <= len(sql))
    want = next_name(sql, at)
    got = outcome(read, sql, at)
    if want is None: assert got[0] == "error", "no further name is the end of the input"
    else:
        assert got[0] == "ok", "the next quoted name is found"
        start, end, text = got[1][0]
        assert start == want[0] and end == want[1], "where the next quoted name starts and ends: quotes and comments outside it, and quotes inside it, do not matter"
        assert text == piece(sql, want[0], want[1]), "its text"
        assert got[1][1] == want[1] + 1, "reading goes on behind it"

# ---- names are replaced by placeholders for parsing ...
def name_count(sql): return len(names(sql))
def name(sql, j):
    """SPEC: the j-th quoted name; two back-quotes in it stand for one"""
    s, e = names(sql)[j]
    return sql[s:e].replace("``", "`")
def cut(sql):
    """SPEC: the text around the names, the names"""
    around, inside, at = [], [], 0
    for s, e in names(sql):
        around.append(sql[at:s]); inside.append(sql[s:e]); at = e
    return around + [sql[at:]], inside
def same_around(sql, got):
    """SPEC: got is sql with each name replaced by some text"""
    return cut(sql)[0] == cut(got)[0]
def placed(got, j):
    """SPEC: the text put in the place of the j-th name"""
    return cut(got)[1][j]
def plain(text):
    """SPEC: needs no quoting"""
    return all(c.isalpha() or c.isdigit() or c == "_" for c in text)
def known(c, text): return text in c.mapping
def meaning(c, text):
    """SPEC: the name a placeholder stands for"""
    return c.mapping[text] if text in c.mapping else text
def compiler_gen(rng):
    c = Compiler({}, EnvVariables(), "")
    for _ in range(rng.randint(0, 2)): c.parse_mapping(text_gen(rng))
    return c
Comp = lambda: Custom("compiler", compiler_gen)
Named = lambda: Custom("named", text_gen, lambda: SAMPLES)
@contract(P, {"c": Comp(), "sql": Named(), "j": Int(0, None, pool=[0, 1, 2])}, targets=[F + "parse_mapping"], cases=8000, weight=2)
def quoting(c, sql, j):
    assume(j < name_count(sql))
    assume(not known(c, name(sql, j)))
    got = c.parse_mapping(sql)
    assert same_around(sql, got), "all text around the names is unchanged"
    assert plain(placed(got, j)), "what is parsed is a plain identifier"
    assert meaning(c, placed(got, j)) == name(sql, j), "it stands for exactly the quoted name"
@contract(P, {"c": Comp(), "sql": Named(), "j": Int(0, None, pool=[0, 1, 2]), "k": Int(0, None, pool=[0, 1, 2])}, targets=[F + "parse_mapping"], cases=4000)
def same_name_same_placeholder(c, sql, j, k):
    assume(j < k and k < name_count(sql))
    assume(not known(c, name(sql, j)) and not known(c, name(sql, k)))
    got = c.parse_mapping(sql)
    assert (placed(got, j) == placed(got, k)) == (name(sql, j) == name(sql, k)), "two quoted names are the same identifier exactly when they are the same name"

# ---- ... and restored
def restored(c, text):
    """SPEC: text with every placeholder replaced by the name it stands for, quoted"""
    out, at = "", 0
    for s, e in names(text):
        out, at = out + text[at:s] + requoted(c, text[s:e]), e
    return out + text[at:]
def requoted(c, text): return c.mapping[text].replace("`", "``") if text in c.mapping else text
def quoted_gen(rng):
    c = compiler_gen(rng)
    sql = c.parse_mapping(text_gen(rng))
    return c, "".join(rng.choice([sql, "`%s`" % rng.choice(list(c.mapping) + ["a"]), rng.choice(PIECES)]) for _ in range(rng.randint(1, 3)))
@contract(P, {"x": Custom("quoted", quoted_gen)}, targets=[F + "to_sql"], cases=4000)
def restoring(x):
    c, text = x
    assert c.to_sql(text) == restored(c, text), "every placeholder is replaced by the name it stands for, all other text is unchanged"
@contract(P, {"sql": Custom("statement", lambda rng: text_gen(rng))}, bounded_only=True, targets=[F + "parse_mapping", F + "to_sql"], cases=6000, bound="seeded texts")
def lossless(sql):
    c = Compiler({}, EnvVariables(), "")
    assert c.to_sql(c.parse_mapping(sql)) == sql, "replacing names by placeholders and restoring them is lossless"

# ---- literal texts: tokens
def literal(sql, at, quote):
    """SPEC: the text of the literal whose first character is at position `at`, and where its closing quote is.  Two closing
    quotes, or a quote after a backslash, stand for the quote; other escapes are kept (they are decoded later)"""
    text, pending, end = "", "", None
    for i in range(len(sql)):
        if i < at or end is not None: continue
        c = sql[i]
        if pending == "\\":
            if c == "'" or c == '"': text = text + c
            else: text = text + pending + c
            pending = ""
        elif pending != "":
            if c == quote: text, pending = text + c, ""
            else: end = i - 1
        elif c == "\\" or c == quote: pending = c
        else: text = text + c
    if end is None and pending == quote: end = len(sql) - 1
    if end is None: raise RuntimeError("the literal is not closed")
    return text, end
def tokenizer(sql, at):
    t = CompilerDialect.Tokenizer()
    t.reset()
    t.sql, t.size = sql, len(sql)
    t._advance(at + 1)
    return t
def extract(t, quote): return t._extract_string(quote), t._current - 1
def same_text(a, b): return a == b
@contract(P, {"sql": Custom("script", lambda rng: "".join(rng.choice(["a", "'", '"', "\\", "''", "\\'", '\\"', "\\\\", "\\n", "é", " ", ";"]) for _ in range(rng.randint(1, 8)))), "at": Int(0, None, pool=[0, 0, 0, 1, 2]), "quote": Choice("'", '"')}, targets=["syncanysql/compiler.py:CompilerDialect.Tokenizer._extract_string"], cases=20000, split="quote")
def texts(sql, at, quote):
    assume(at < len(sql))
    want = outcome(literal, sql, at, quote)
    got = outcome(extract, tokenizer(sql, at), quote)
    assert got[0] == want[0], "exactly the literals that are not closed are reported"
    if want[0] == "ok":
        assert same_text(got[1][0], want[1][0]), "the text of the literal"
        assert got[1][1] == want[1][1], "it ends at its closing quote"

# ---- constants
SIMPLE = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "\\": "\\", "'": "'", '"': '"', "\n": ""}
ESCAPE = re.compile(r"\\([0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]*\}|.|$)", re.DOTALL)
def unescape(text):
    """SPEC: escapes of a run of ASCII characters decoded; an unknown escape stands for itself"""
    def one(m):
        x = m.group(1)
        if x in SIMPLE: return SIMPLE[x]
        if x and x[0] in "01234567": return chr(int(x, 8))
        if len(x) > 1 and x[0] in "xuU": return chr(int(x[1:], 16))
        if x == "" or x in ("x", "u", "U", "N") or x[0] == "N": raise ValueError("malformed escape")
        return "\\" + x
    return ESCAPE.sub(one, text)
def decoded(text):
    """SPEC: the value of a text literal: runs of ASCII characters with their escapes decoded, all other characters as they are"""
    out, run = "", ""
    for c in text:
        if ord(c) < 128: run = run + c
        else: out, run = out + unescape(run) + c, ""
    return out + unescape(run)
def text_value(text):
    r = outcome(decoded, text)
    return r[1] if r[0] == "ok" else text
def variable(value):
    env = EnvVariables()
    if value is not missing: env["@v"] = value
    return env
missing = object()
def expression(kind, text):
    if kind == "text": return X.Literal.string(text)
    if kind in ("int", "float"): return X.Literal.number(text)
    if kind == "hex": return X.HexString(this=text)
    if kind == "bit": return X.BitString(this=text)
    if kind == "null": return X.Null()
    return X.Boolean(this=kind == "true")
def negated(e): return X.Neg(this=e)
def of(kind, text):
    """SPEC: the value a literal denotes"""
    if kind == "text": return text_value(text)
    if kind == "float": return float(text)
    if kind in ("int", "hex", "bit"): return int(text)
    return {"true": True, "false": False, "null": None}[kind]
TYPES = {"text": None, "null": None, "float": "float", "int": "int", "hex": "int", "bit": "int", "true": "bool", "false": "bool"}
def literal_gen(rng): return "".join(rng.choice(["a", "b", " ", "\\n", "\\\\", "\\t", "\\d", "\\%", "\\x41", "\\u4e2d", "\\0", "\\12", "\\", "é", "日", "\x80", "ÿ", "'", '"', "%", "\n"]) for _ in range(rng.randint(0, 6)))
@contract(P, {"kind": Choice("text", "hex", "bit", "true", "false", "null"), "text": Custom("literal", literal_gen), "digits": Custom("digits", lambda rng: str(rng.choice([0, 1, 7, 255, 2**31, 2**63, 2**64 - 1, rng.randint(0, 10**25)])))}, targets=[F + "parse_const", F + "is_const"], cases=12000, split="kind")
def constants(kind, text, digits):
    source = digits if kind in ("hex", "bit") else text
    c = Compiler({}, EnvVariables(), "")
    e = expression(kind, source)
    assert c.is_const(e, {}, {}) is True, "a literal is a constant"
    info = c.parse_const(e, {}, {})
    assert same(info["value"], of(kind, source)), "the value the literal denotes"
    assert info["typing_filter"] == TYPES[kind] and info["value_getter"] is None, "its type"
@contract(P, {"kind": Choice("int", "float"), "negative": Choice(False, True), "text": Custom("number", lambda rng: rng.choice(["0", "1", "12", "007", "%d" % rng.randint(0, 10**30), "1.5", "0.1", ".5", "1e3", "2.50", "1E-2", "123456789.123456789"]))}, targets=[F + "parse_const", F + "is_const"], cases=3000)
def numbers(kind, negative, text):
    assume(whole(text) == (kind == "int"))
    c = Compiler({}, EnvVariables(), "")
    e = negated(expression(kind, text)) if negative else expression(kind, text)
    assert c.is_const(e, {}, {}) is True, "a number, negative or not, is a constant"
    info = c.parse_const(e, {}, {})
    assert same(info["value"], -of(kind, text) if negative else of(kind, text)), "exactly the number"
    assert info["typing_filter"] == kind, "its type"
def whole(text):
    """SPEC: the text of an integer"""
    return text.isdigit()
@contract(P, {"kind": Choice("text", "hex", "bit", "true", "false", "null", "variable")}, targets=[F + "is_const"])
def negation(kind):
    c = Compiler({}, EnvVariables(), "")
    e = negated(X.Parameter(this=X.Var(this="v")) if kind == "variable" else expression(kind, "12"))
    assert c.is_const(e, {}, {}) is False, "a minus before anything but a number is calculated, not dropped"

# ---- through whole statements
def written(text, quote, rng_bits=0):
    """SPEC: a literal denoting this text"""
    out = ""
    for i, c in enumerate(text):
        double = (rng_bits >> i) & 1
        if c == quote: out += quote + quote if double else "\\" + quote
        elif c == "\\": out += "\\\\"
        elif c == "\n" and double: out += "\\n"
        elif c == "\t" and double: out += "\\t"
        else: out += c
    return quote + out + quote
CHARS = ["a", "b", "n", "t", "0", " ", "'", '"', "`", "\\", "\n", "\t", "%", "_", ";", "#", "-", "--", "/*", "*/", "é", "ÿ", "日", "😀", "$", "@", ":", "|", "(", "x`y z`", "it's"]
def text_case(rng): return "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 6))), rng.choice("'\""), rng.randint(0, 63)
def usable(text): return "${" not in text
@contract(P, {"x": Custom("text", text_case)}, bounded_only=True, cases=500, targets=[F + "compile", F + "parse_const"], bound="seeded literals through SELECT, WHERE, IN, function arguments, CASE and rewritten subqueries")
def text_statements(x):
    text, quote, bits = x
    assume(usable(text))
    lit = written(text, quote, bits)
    rows = [{"id": 1, "v": text, "w": "other"}, {"id": 2, "v": text + "?", "w": text}]
    assert sqlrun.query("select %s as x, concat(%s, %s) as y, case when 1 = 1 then %s else 'n' end as z" % ((lit,) * 4)) == [{"x": text, "y": text + text, "z": text}], "a literal is its text: selected, as an argument, in a CASE"
    sqlrun.put("pyvc_t", rows)
    assert [r["id"] for r in sqlrun.query("select id from pyvc_t where v = %s" % lit)] == [1], "in a condition"
    assert [r["id"] for r in sqlrun.query("select id from pyvc_t where w in (%s, 'zz') and id > 0" % lit)] == [2], "in a list"
    got = sqlrun.query("select a.id, (select b.v from pyvc_t b where b.id = a.id and b.v = %s) as x from pyvc_t a" % lit)
    assert [r["x"] for r in got] == [text, None], "in a subquery that is rewritten"
    got = sqlrun.query("select a.id, b.id as i from (select * from pyvc_t where v = %s) a join pyvc_t b on a.id = b.id where a.v = %s" % (lit, lit))
    assert [(r["id"], r["i"]) for r in got] == [(1, 1)], "in a join"
    sqlrun.put("pyvc_t", [])
def number_case(rng): return rng.choice(["0", "5", "12345678901234567890123", "1.5", "0.1", "-3", "-2.5", "1e3", "0x1F", "x'ff'", "b'101'", "0b11", "true", "null", "false", "- -5", "-(-5)", "-'3'", "-'-2.5'", "-@pyvc_n", "-v", "-true", str(rng.randint(-10**20, 10**20)), repr(rng.randint(-4000, 4000) / 8)])
VALUES = {"0x1F": 31, "x'ff'": 255, "b'101'": 5, "0b11": 3, "true": True, "false": False, "null": None, "- -5": 5, "-(-5)": 5, "-'3'": -3, "-'-2.5'": 2.5, "-@pyvc_n": -7, "-v": -4, "-true": -1, "1e3": 1000.0}
def number_value(lit): return VALUES[lit] if lit in VALUES else float(lit) if "." in lit else int(lit)
@contract(P, {"lit": Custom("number", number_case)}, bounded_only=True, cases=150, targets=[F + "compile", F + "parse_const", F + "compile_calculate"], bound="seeded number, boolean, NULL, hex and bit literals through SELECT and WHERE")
def number_statements(lit):
    want = number_value(lit)
    g = sqlrun.engine()
    g.set_variable("@pyvc_n", "7")
    sqlrun.put("pyvc_t", [{"id": 1, "v": "4"}])
    rows = sqlrun.query("select %s as x, coalesce(%s, 'null') as y from pyvc_t" % (lit, lit))
    x = rows[0]["x"]
    assert same(x, want) or (type(want) is bool and x == want) or (isinstance(want, (int, float)) and not isinstance(want, bool) and x == want and type(x) is type(want)), "the number"
    assert rows[0]["y"] == ("null" if want is None else want), "the number as an argument"
    sqlrun.put("pyvc_t", [])
NAME_CHARS = ["a", "B", "1", "_", " ", "-", "'", '"', "`", "é", "日", "/", "#", "--", "/*", "%", "!", "@", "&", "(", ")", ",", ";", "=", "~", "+", "{", "}", "<", "^", "\t", "it's", "select", "\\x", ">"]
def name_case(rng):
    def one(): return rng.choice(["a", "x ", "it's ", "o'", "é", "1"]) + "".join(rng.choice(NAME_CHARS) for _ in range(rng.randint(0, 4))) + rng.choice(["z", "9", "'", '"', " z", "é"])
    if rng.random() < .15: return one(), one(), rng.choice([" " + one(), one() + " ", " " + one() + "  ", " 7", "7 "])
    if rng.random() < .1: return one(), rng.choice([" ", ""]) + one() + " ", one()
    return one(), one(), one()
def quoted(n): return "`" + n.replace("`", "``") + "`"
def expression_name(n): return n
@contract(P, {"x": Custom("names", name_case), "shape": Choice(*range(16))}, bounded_only=True, cases=700, targets=[F + "parse_mapping", F + "parse_table", F + "parse_column", F + "compile_select"], bound="seeded odd names (without characters the plan language itself reads: . | * [ ] : and a leading $ or trailing ?) as columns, tables, aliases, CTEs, insert targets")
def name_statements(x, shape):
    t, a, b = x
    assume(len({t.lower(), a.lower(), b.lower(), "id", "v"}) == 5 and "<" not in t + a + b and "${" not in t + a + b)
    T, A, B = quoted(t), quoted(a), quoted(b)
    rows = [{"id": 1, a: 5, "v": 2}, {"id": 2, a: 7, "v": 2}]
    e = sqlrun.engine()
    sqlrun.put(t, rows)
    e.pop_memory_datas(b)
    try:
        if shape == 0: q, want = "select %s from %s" % (A, T), [{a: 5}, {a: 7}]
        elif shape == 1: q, want = "select x.%s as %s from %s x" % (A, B, T), [{b: 5}, {b: 7}]
        elif shape == 2: q, want = "select %s.%s as %s from %s as %s where %s.%s > 5" % (B, A, B, T, B, B, A), [{b: 7}]
        elif shape == 3: q, want = "select v, sum(%s) as %s from %s group by v" % (A, B, T), [{"v": 2, b: 12}]
        elif shape == 4: q, want = "select %s as %s from %s order by %s desc" % (A, B, T, B), [{b: 7}, {b: 5}]
        elif shape == 5: q, want = "select %s + 1 from %s" % (A, T), [{A + " + 1": 6}, {A + " + 1": 8}]
        elif shape == 6: q, want = "with %s as (select %s as v from %s) select v from %s" % (B, A, T, B), [{"v": 5}, {"v": 7}]
        elif shape == 7: q, want = "select %s.v from (select %s as v from %s) %s" % (B, A, T, B), [{"v": 5}, {"v": 7}]
        elif shape == 8: q, want = "select %s from %s where %s = 5 union all select %s from %s where %s = 7" % (A, T, A, A, T, A), [{a: 5}, {a: 7}]
        elif shape == 9: q, want = "select p.id, %s.%s as %s from %s p left join %s as %s on p.id = %s.id" % (B, A, B, T, T, B, B), [{"id": 1, b: 5}, {"id": 2, b: 7}]
        elif shape == 10: q, want = "select id, row_number() over (partition by v order by %s desc) as %s from %s" % (A, B, T), [{"id": 1, b: 2}, {"id": 2, b: 1}]
        elif shape == 11: q, want = "select p.id, (select %s.%s from %s %s where %s.id = p.id) as w from %s p" % (B, A, T, B, B, T), [{"id": 1, "w": 5}, {"id": 2, "w": 7}]
        elif shape == 12: q, want = "select 'x' as %s, 2 as %s -- it's `\n" % (A, B), [{a: "x", b: 2}]
        elif shape == 13: q, want = "/* it's ` */ select max(%s) from %s # `" % (A, T), [{"MAX(%s)" % A: 7}]
        elif shape == 14:
            e.execute("insert into %s (id, %s) select id, %s from %s" % (B, A, A, T))
            assert e.pop_memory_datas(b) == [{"id": 1, a: 5}, {"id": 2, a: 7}], "insert into a quoted table and column"
            return
        else:
            e.execute("set @pyvc_n = (select max(%s) as m from %s)" % (A, T))
            assert e.get_variable("@pyvc_n") == 7, "in an assignment"
            return
        if q.startswith("/*"):
            e.pop_memory_datas("pyvc_res"); e.execute("insert into `pyvc_res` " + q)
            got = [dict(r) for r in e.pop_memory_datas("pyvc_res")]
        else: got = sqlrun.query(q)
        assert got == want, "quoted names reach the query as they are"
    finally: e.pop_memory_datas(t); e.pop_memory_datas(b)
@contract(P, {"x": Custom("text", text_case)}, bounded_only=True, cases=1500, targets=[F + "generate_sql"], bound="seeded literals")
def rewriting(x):
    text, quote, bits = x
    e = parse_one("select %s as a, concat(%s, 'b') as c" % (written(text, quote, bits), written(text, quote, bits)), read=CompilerDialect)
    c = Compiler({}, EnvVariables(), "")
    again = parse_one(c.generate_sql(e), read=CompilerDialect)
    assert again == e, "rewriting a query back to SQL text keeps its literals"
