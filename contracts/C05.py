"""C05  Literal text is read as the value it denotes."""
import sys
from pyvc.api import *
from contracts import sqlrun
from contracts.scopes import *
from syncanysql import utils
from syncanysql.taskers.set import SetCommandTasker
from syncanysql.executor import EnvVariables

P = "C05"
WORDS = {"true": True, "false": False, "null": None}
def digits(s): return s.isdecimal()
def int_form(s): return digits(s) or (s[:1] == "-" and digits(s[1:]))
def decimal_form(s):
    a, dot, b = s.partition(".")
    return dot == "." and "." not in b and int_form(a) and digits(b)
def int_like(s): return s.isdigit() or (s[:1] == "-" and s[1:].isdigit())
def decimal_like(s):
    a, dot, b = s.partition(".")
    return dot == "." and "." not in b and int_like(a) and b.isdigit()
def is_int(s):
    """an optional minus and a run of digits (the prover is told that int() accepts it)"""
    return int_form(s)
def is_decimal(s):
    """an optional minus, digits, a point and digits (the prover is told that float() accepts it)"""
    return decimal_form(s)
LIT = Str(alphabet="0123456789.-'\"trueFALSEnull =ab,²", maxlen=8, extra=["1.5", "-1.5", "-0.25", "-1", "1", "007", "-.5", "--1.5", "1.", ".5", "1.2.3", "1.-5", "-", "-a.5", "1e3", "TRUE", "False", "nUll", "nulls", "'a'", "'it''s'", '"a b"', "' x '", "'a\"", "'", "''", "'''t'''", "'''a'b'''", "x'", "1 2", "²", "-²", "1.²", "٣", " 5 ", "'5'", "'true'"])

@contract(P, {"s": LIT}, targets=["syncanysql/utils.py:parse_value"], weight=2)
def argument_literal(s):
    t = s.strip()
    integer, decimal = is_int(t), is_decimal(t)
    r = outcome(utils.parse_value, s)
    assert r[0] == "ok", "every text has a reading"
    v = r[1]
    if t[:1] == "'" or t[:1] == '"':
        if len(t) >= 2 and t[-1] == t[0]: assert same(v, t[1:-1]), "quoted text is read as that text"
        else: assert isinstance(v, str), "kept as text"
    elif t.lower() in WORDS: assert v is WORDS[t.lower()], "true, false and null"
    elif integer: assert same(v, int(t)), "digits with an optional minus are that integer"
    elif decimal: assert same(v, float(t)), "digits.digits with an optional minus are that decimal number"
    else: assert same(v, t), "anything else is kept as text"

SET = SetCommandTasker({"key": "@v", "value": ""})
@contract(P, {"s": LIT}, targets=["syncanysql/taskers/set.py:SetCommandTasker.parse_value"], weight=2)
def set_literal(s):
    integer, decimal = is_int(s), is_decimal(s)
    r = outcome(SET.parse_value, s)
    if len(s) >= 6 and (s[:3] == "'''" or s[:3] == '"""'):
        assert r[0] == "ok" and same(r[1], s[3:-3].strip()), "triple quoted text is read as that text"
    elif s[:1] == "'" or s[:1] == '"': assert r[0] == "ok" and same(r[1], s[1:-1].strip()), "quoted text is read as that text"
    elif s.lower() in WORDS: assert r[0] == "ok" and r[1] is WORDS[s.lower()], "true, false and null"
    elif integer: assert r[0] == "ok" and same(r[1], int(s)), "digits with an optional minus are that integer"
    elif decimal: assert r[0] == "ok" and same(r[1], float(s)), "digits.digits with an optional minus are that decimal number"
    else: assert r[0] == "error", "anything else is reported as unknown"
@contract(P, {"v": Kind("none", "bool", "int", "float", "dec")}, targets=["syncanysql/taskers/set.py:SetCommandTasker.parse_value"])
def set_value(v):
    assert same(SET.parse_value(v), v), "a value that is not text is kept"

TARGET_KEYS = {"name": (0, "name"), "@name": (0, "@name"), "global name": (1, "name"), "global @x": (1, "@x"), "GLOBAL  @x": (1, "@x"), "Global\t@x ": (1, "@x"), "global@x": (1, "@x"), "globalx": (0, "globalx"), "global_t": (0, "global_t"), "@global": (0, "@global"), "global1": (0, "global1"), "@a.b": (0, "@a.b")}
@contract(P, {"key": Choice(*TARGET_KEYS), "text": LIT, "scope": Scope(), "outer": Scope()}, targets=["syncanysql/taskers/set.py:SetCommandTasker.start", "syncanysql/taskers/set.py:SetCommandTasker.set_env_variable"], weight=2)
def stored(key, text, scope, outer):
    t = text.strip()
    assume(t != "")
    expected = outcome(SET.parse_value, t)
    assume(expected[0] == "ok")        # other texts are evaluated as an expression (set_statement)
    tasker = SetCommandTasker({"key": key, "value": text})
    e = bare_executor(scope)
    e.global_env_variables = outer
    local_before, global_before = snapshot(scope), snapshot(outer)
    tasker.start("set", e, None, None, [])
    is_global, name = TARGET_KEYS[key]
    if is_global:
        assert unchanged(local_before, scope), "a global assignment leaves the session's variables alone"
        assert only_changed(global_before, outer, name, expected[1]), "a global assignment stores the value under the name among the global variables"
    else:
        assert unchanged(global_before, outer), "a local assignment leaves the global variables alone"
        assert only_changed(local_before, scope, name, expected[1]), "an assignment stores the value under the name"

# ---- through the engine
def literal_gen(rng):
    k = rng.choice(["int", "dec", "word", "sq", "dq", "unknown", "expr"])
    n = rng.randint(0, 10 ** rng.randint(0, 9)); sign = rng.choice(["", "-"])
    if k == "int": return (sign + str(n), int(sign + str(n)))
    if k == "dec":
        t = "%s%d.%d" % (sign, n, rng.randint(0, 999)); return (t, float(t))
    if k == "word":
        w = rng.choice(list(WORDS)); return (rng.choice([w, w.upper(), w.title()]), WORDS[w])
    body = "".join(rng.choice("abcé ,.=5-_$%/日") for _ in range(rng.randint(0, 6))).strip()
    if k == "sq": return ("'" + body + rng.choice(["", '"']) + body + "'", None)
    if k == "dq": return ('"' + body + rng.choice(["", "'"]) + body + '"', None)
    if k == "unknown": return (rng.choice(["1.2.3", "1 +", "5x6 y z"]), KeyError)
    a, b = rng.randint(1, 50), rng.randint(1, 50)
    return ("%d + %d" % (a, b), a + b)
@contract(P, {"lit": Custom("literal", literal_gen)}, bounded_only=True, cases=400, bound="seeded literals up to 14 characters through SET in the real engine")
def set_statement(lit):
    t, want = lit
    e = sqlrun.engine()
    e.executor.env_variables["@pyvc_v"] = "old"
    other = {k: v for k, v in e.executor.env_variables.items() if k != "@pyvc_v"}
    r = outcome(e.execute, "set @pyvc_v = " + t)
    if r[0] == "error": assert e.executor.env_variables["@pyvc_v"] == "old", "a reported statement stores nothing"
    if want is KeyError: assert r[0] == "error" and e.executor.env_variables["@pyvc_v"] == "old", "an unknown value is reported and stores nothing"
    else:
        if t[:1] in ("'", '"'):
            want = t[1:-1].strip()
            assume(t[-2] not in "'\"" or len(t) == 2)   # the SQL tokenizer reads a quote before the closing quote as an escape and reports the statement
            assume(not (want[:1] == "'" and want[-1:] == "'" and len(want) >= 2))   # same as a triple quoted text
        assert r[0] == "ok" and same(e.executor.env_variables["@pyvc_v"], want), "the variable holds the value the literal denotes"
    assert {k: v for k, v in e.executor.env_variables.items() if k != "@pyvc_v"} == other, "no other variable changes"

class Config:
    def get_home(self): return "/nowhere"
@contract(P, {"name": Choice("a", "limit", "x_y"), "text": Str(alphabet="ab=5-. '\"", maxlen=8, extra=["", "a=b", "==", "'a b'", '"q"', "'a", "5"]), "flag": Choice(0, 1)}, bounded_only=True, cases=400, bound="seeded argument texts up to 8 characters")
def script_argument(name, text, flag):
    argv = sys.argv
    try:
        sys.argv = ["syncany", "x.sql", "-q", "--%s" % name + ("" if flag else "=" + text)]
        env = EnvVariables.build_global(Config())
    finally: sys.argv = argv
    want = True if flag else (text[1:-1] if text[:1] in ("'", '"') and text else text)
    assert same(env[name], want), "the variable holds the text given after the first ="
    assert "q" not in env, "only --name arguments define variables"
