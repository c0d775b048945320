"""C03  Placeholder interpolation substitutes each variable exactly once."""
import datetime, re
from pyvc.api import *
from contracts import sqlrun
from contracts.scopes import *
from syncany.filters import StringFilter
from syncany.calculaters import find_calculater
from syncanysql import utils
from syncanysql.utils import parse_value
from syncanysql.executor import Executor

P = "C03"
X = "syncanysql/executor.py:Executor.compile_variable"
PLACEHOLDER = re.compile(r"(\$\{[@\w]+?(:.*?)?\})", re.DOTALL | re.M)
CALL = re.compile(r"^(\w+?)\(((.+),?)*\)$", re.DOTALL)

class Session:
    def __init__(self, formats): self.formats = formats
    def get(self): return self.formats
def formats_gen(rng): return {k: v for k, v in {"datetime_format": "%d.%m.%Y %H", "date_format": "%y/%j", "time_format": "%Hh%M"}.items() if rng.random() < 0.5}
Formats = lambda: Custom("formats", formats_gen)

def arguments(text):
    """the argument texts of a call: separated by the commas that are outside quoted arguments"""
    out, piece, quote = [], "", ""
    for c in text:
        if quote: quote = "" if c == quote else quote
        elif c in "'\"" and piece.strip() == "": quote = c
        elif c == ",":
            out.append(piece); piece = ""
            continue
        piece += c
    return out + [piece]
def values(text): return [parse_value(a) for a in arguments(text)]
def call_result(text):
    """text of the result of name(arguments)"""
    m = CALL.match(text).groups()
    args = values(m[1]) if m[1] else []
    f = find_calculater(m[0].split("__")[0]).instance(m[0].replace("__", "::"))
    return StringFilter().filter(f.calculate(*args))
def default_text(text):
    r = outcome(call_result, text.strip())
    return r[1] if r[0] == "ok" else text
def render(value, formats):
    """text of a variable's value"""
    if value is True: return "true"
    if value is False: return "false"
    if value is None: return "null"
    if isinstance(value, datetime.datetime): return value.strftime(formats.get("datetime_format", "%Y-%m-%d %H:%M:%S"))
    if isinstance(value, datetime.date): return value.strftime(formats.get("date_format", "%Y-%m-%d"))
    if isinstance(value, datetime.time): return value.strftime(formats.get("time_format", "%H:%M:%S"))
    if isinstance(value, (list, tuple)): return "(" + ",".join([render(v, formats) for v in value]) + ")"
    return str(value)
def placeholder_text(scope, formats, text, default):
    """what a placeholder is replaced by: text is ${name} or ${name:default}, default is empty or starts with the colon"""
    name = text[2:-1].partition(":")[0]
    found, value = resolve(scope, name)
    if not found: found, value = resolve(scope, name.lower())
    return render(value, formats) if found else render(default_text(default[1:]), formats)
def interpolated(scope, formats, sql):
    out, at = "", 0
    for m in PLACEHOLDER.finditer(sql):
        out += sql[at:m.start()] + placeholder_text(scope, formats, m.group(1), m.group(2) or "")
        at = m.end()
    return out + sql[at:]

PIECES = ["${a}", "${@a}", "${b}", "${@B}", "${B}", "${A}", "${zz}", "${@zz:5}", "${zz:a:b}", "${zz:add(1,2)}", "${zz:mysql__concat('a,b',\"c\")}", "${zz:abs(-5)}", "${a:9}", "${zz:mysql__upper('x, y')}", "${zz:nofunc(1)}", "${zz: 7 }", "${zz:${a}", "${zz:null}", "${zz:\n1}",
          "$", "{", "}", "${", "${}", "${a b}", "$ {a}", ":", "select ", " x ", "'", "日本", "\n", "${@a:", "\\"]
VALUES = ["plain", "${b}", "${zz:3}", "$", "}", "a${@a}b", ""]
def sql_gen(rng): return "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 6)))
def vars_gen(rng):
    scope = None
    for _ in range(rng.randint(1, 3)):
        scope = EnvVariables(scope)
        for n in rng.sample(["a", "@a", "b", "B", "@B"], rng.randint(0, 4)):
            scope[n] = rng.choice([rng.choice(VALUES), rng.choice(VALUES), rand_value(rng, rng.choice(["none", "bool", "int", "float", "dec", "datetime", "date", "time"])), [rand_value(rng, rng.choice(["int", "str", "date", "datetime", "none", "bool"])) for _ in range(rng.randint(0, 3))], (datetime.time(1, 2), ["x", None])])
    return scope
@contract(P, {"scope": Custom("scope", vars_gen), "formats": Custom("no_formats", formats_gen), "sql": Custom("sql", sql_gen)}, targets=[X], cases=4000, weight=2)
def interpolation(scope, formats, sql):
    before = snapshot(scope)
    want = interpolated(scope, formats, sql)
    e = bare_executor(scope)
    e.session_config = Session(formats)
    assert e.compile_variable(sql) == want, "every placeholder is replaced once by its value, all other text is unchanged"
    assert unchanged(before, scope), "interpolation changes no variable"
@contract(P, {"value": Custom("value", lambda rng: rand_value(rng, rng.choice(ALL_KINDS))), "formats": Formats()}, targets=[X], cases=2000)
def rendering(value, formats):
    scope = EnvVariables()
    scope["v"] = value
    want = render(value, formats)
    e = bare_executor(scope)
    e.session_config = Session(formats)
    assert e.compile_variable("${v}") == want, "the value's text"
@contract(P, {"text": Str(alphabet="ab,'\" ", maxlen=10, extra=["'a,b',c", "it's,b", " 'a' , \"b,c\"", ",", "a,,b", "'a''b,c'", "'"])}, targets=["syncanysql/utils.py:split_arguments"], cases=4000)
def argument_texts(text):
    want = arguments(text)
    assert utils.split_arguments(text) == want, "commas outside quoted arguments separate arguments"

# ---- through the engine: placeholders in statements
@contract(P, {"name": Choice("@pyvc_p", "@pyvc_P"), "value": Kind("none", "bool", "int", "str", "date", "datetime"), "unknown": Choice(False, True)}, bounded_only=True, cases=300, bound="seeded values through a whole SELECT")
def statement(name, value, unknown):
    assume(not isinstance(value, str) or not set(value) & set("'\\%") and value == value.strip())
    g = sqlrun.engine()
    for n in ("@pyvc_p", "@pyvc_P"): g.executor.env_variables.pop(n, None)
    if not unknown: g.set_variable(name, value)
    try:
        rows = sqlrun.query("select '<${%s:dflt}>' as v" % name)
        assert rows == [{"v": "<dflt>" if unknown else "<" + render(value, g.executor.session_config.get()) + ">"}], "the statement runs with the value's text in place of the placeholder"
    finally: g.executor.env_variables.pop(name, None)
