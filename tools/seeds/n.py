import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/compiler.py"
S = '''
from sqlglot import expressions as E
from syncanysql.compiler import Compiler
from syncanysql.executor import EnvVariables
c = Compiler({}, EnvVariables(), "")
'''
plant("c21-long-integer", "C21", [(X, "                value = int(value) if expression.is_int else float(value)", "                value = int(value) if expression.is_int and len(value) < 20 else float(value)")],
  S + 'assert c.parse_const(E.Literal.number("123456789012345678901"), {}, {})["value"] == 123456789012345678901\nassert c.parse_const(E.Literal.number("12345"), {}, {})["value"] == 12345', "an integer literal of 20 or more digits", "its last digits change")
plant("c21-lone-ascii", "C21", [(X, "                            continue\n                        if escape_chars:", "                            continue\n                        if len(escape_chars) > 1 or not escape_values:")],
  S + 'v = lambda s: c.parse_const(E.Literal.string(s), {}, {})["value"]\nassert v("é日") == "é日" and v("aéb日cd") == "aéb日cd", v("aéb日cd")', "a single ASCII character between two other characters", "the characters of the literal change places")
plant("c21-alias-blanks", "C21", [(X, "                if column_alias and column_alias in self.mapping:\n                    column_alias = self.mapping[column_alias]\n                if self.is_const(", "                if column_alias and column_alias in self.mapping:\n                    column_alias = self.mapping[column_alias].strip()\n                if self.is_const(")],
  """
from syncanysql import ScriptEngine
e = ScriptEngine()
e.setup()
e.execute("insert into `pyvc_o` select 1 as `é t`, 2 as `total `")
rows = [dict(r) for r in e.pop_memory_datas("pyvc_o")]
assert rows == [{"é t": 1, "total ": 2}], rows
""", "an alias that ends (or begins) with a blank", "the column loses that blank")
