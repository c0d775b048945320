"""C01  Script splitting keeps every statement, whole and in order."""
import os, tempfile
from pyvc.api import *
from contracts import sqlrun
from syncanysql.parser import SqlParser, SqlSegment, FileParser

P = "C01"
F = "syncanysql/parser.py:"
def lex(sql, i, mode, escaped):
    """one character of a script: what it belongs to after it.  mode: '' outside, 'line' and 'block' in comments
    ('open' and 'close' on the two characters after the first one of a comment bracket), else the open quote"""
    c, two = sql[i], sql[i:i + 2]
    if mode == "":
        if c == "'" or c == '"' or c == "`": return (c, False)
        if c == "#" or two == "--": return ("line", False)
        if two == "/*": return ("open", False)
        return ("", False)
    if mode == "line": return ("" if c == "\n" else "line", False)
    if mode == "open": return ("block", False)
    if mode == "block": return ("close" if two == "*/" else "block", False)
    if mode == "close": return ("", False)
    if escaped: return (mode, False)
    if c == "\\": return (mode, True)
    return ("" if c == mode else mode, False)
def statements(sql):
    """the statements of a script with their lines"""
    found, start, at, line, mode, escaped = [], None, 0, 1, "", False
    for i in range(len(sql)):
        c = sql[i]
        after = lex(sql, i, mode, escaped)
        if mode == "" and after[0] == "":
            if c == ";":
                if start is not None: found.append(statement(sql[start:i], at))
                start = None
            elif start is None and (c.isalpha() or c == "("): start, at = i, line
        mode, escaped = after
        if c == "\n": line = line + 1
    if mode != "" and mode != "line": raise EOFError("unclosed")
    if start is not None: found.append(statement(sql[start:], at))
    return found
def statement(text, line): return SqlSegment(text, line)
def split(sql): return SqlParser(sql).split()
def same_statements(a, b): return [(x.sql, x.lineno) for x in a] == [(x.sql, x.lineno) for x in b]

def script_gen(rng):
    if rng.random() < 0.4: return "".join(rng.choice([1, 1, 1, 1, 1, rng.randint(1, 24)]) * rng.choice(["a", "b1", "(", ")", ";", ";", "'", '"', "`", "\\", "#", "-", "--", "/", "*", "/*", "*/", "\n", " ", "é", "5"]) for _ in range(rng.randint(0, 16)))
    def inner(q): return "".join(rng.choice([1, 1, 1, 1, 1, rng.randint(1, 12)]) * rng.choice(["x", ";", "\\\\", "\\" + q, "#", "--", "/*", "*/", "\n", " "] + [o for o in "'\"`" if o != q]) for _ in range(rng.randint(0, 5)))
    out = []
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(["word", "word", "quote", "line", "block", "semi", "semi", "paren"])
        if k == "word": out.append(rng.choice(["select 1", "set @a=5", "b", "é", "1"]))
        elif k == "quote":
            q = rng.choice("'\"`"); out.append(q + inner(q) + q)
        elif k == "line": out.append(rng.choice(["#", "--", "-- "]) + inner("\n").replace("\n", "") + "\n")
        elif k == "block": out.append("/*" + inner("*/").replace("*/", "") + rng.choice(["", "*", "/"]) + "*/")
        elif k == "paren": out.append("(select 2)")
        else: out.append(";")
        out.append(rng.choice(["", " ", "\n", ";"]))
    return "".join(out)
SAMPLES = ["", ";", ";;", "select 1", "a;b", "a ; b;", "select ';'; b", "select '\\';'; b", "select '\\\\';b", "a -- it's\n; b", "a # it's; x\n; b", "a /* ; ' */; b", "a /*/ ; */ ; b", "a /* x */* 2; b", "(select 1) union (select 2); b", "'abc", "a `b", "a /* b", "a -- b", "a #", "a\n;\nb\n\nc", "5;a", "a-b-c;d", "a/b*c;d", "a'b''c';d", "/**/a", "a/", "a-", "/", "--\na;b"]
Script = lambda: Custom("script", script_gen, lambda: SAMPLES)

@contract(P, {"sql": Script()}, targets=[F + "SqlParser.split", F + "SqlParser.skip_escape", F + "SqlParser.read_util", F + "SqlParser.next"], cases=40000, weight=2)
def splitting(sql):
    want = outcome(statements, sql)
    got = outcome(split, sql)
    assert got[0] == want[0], "an unclosed quote or block comment, and nothing else, is reported"
    if want[0] == "ok": assert same_statements(got[1], want[1]), "every statement once, in order, as its exact source text with its line"

@contract(P, {"text": Str(), "line": Int(0)}, targets=[F + "SqlSegment.__init__"])
def segment(text, line):
    s = SqlSegment(text, line)
    assert s.sql == text and s.lineno == line and str(s) == text, "a statement carries its text and line"
@contract(P, {"sql": Script(), "index": Int(0, 60)}, targets=[F + "SqlParser.next"])
def advance(sql, index):
    assume(index <= len(sql))
    p = SqlParser(sql)
    assert p.index == 0 and p.lineno == 1 and p.len == len(sql), "starts at the beginning"
    p.index = index
    p.next()
    assert p.index == (index + 1 if index < len(sql) else index), "moves over one character and never past the end"
    assert p.lineno == (2 if index < len(sql) and sql[index] == "\n" else 1), "counts lines"

# ---- through files and the engine
@contract(P, {"sql": Script()}, bounded_only=True, cases=300, targets=[F + "FileParser.load"], bound="seeded scripts in a scratch file")
def file(sql):
    assume("\r" not in sql)
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "x.sql")
        with open(name, "w", encoding="utf-8") as fp: fp.write(sql)
        want, got = outcome(statements, sql), outcome(FileParser(name).load)
        assert got[0] == want[0] and (want[0] == "error" or same_statements(got[1], want[1])), "a script file is split as its text"
def script_of_sets(rng):
    """statements with a known effect, between comments and empty statements"""
    parts, want = [], {}
    for i in range(rng.randint(1, 5)):
        parts.append(rng.choice(["", ";", "\n", "# it's; set @pyvc_0 = 9\n", "-- it's; x\n", "/* ; ' set @pyvc_0 = 9; */", "/* a *//* b */"]))
        k, v = "@pyvc_%d" % rng.randint(0, 2), rng.choice(["5", "'a;b'", '"a -- b"', "'/* a'", "'# b'", "true", "'it\"s'"])
        parts.append("set %s = %s%s" % (k, v, rng.choice([";", " ;", "\n;", ";;"])))
        want[k] = {"5": 5, "true": True}.get(v, v[1:-1])
    return ("".join(parts), want)
@contract(P, {"s": Custom("sets", script_of_sets)}, bounded_only=True, cases=150, targets=["syncanysql/__init__.py:ExecuterContext.execute"], bound="seeded scripts of SET statements through the engine")
def engine_runs_every_statement(s):
    sql, want = s
    e = sqlrun.engine()
    for k in ("@pyvc_0", "@pyvc_1", "@pyvc_2"): e.executor.env_variables[k] = "unset"
    e.execute(sql)
    got = {k: e.executor.env_variables[k] for k in ("@pyvc_0", "@pyvc_1", "@pyvc_2")}
    assert got == {**dict.fromkeys(got, "unset"), **want}, "every statement of the script ran, in order"
