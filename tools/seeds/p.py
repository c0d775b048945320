import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/compiler.py"
T = 't = [{"id":0,"g":1,"v":1},{"id":1,"g":2,"v":3},{"id":2,"g":None,"v":2},{"id":3,"g":2,"v":1}]\nu = [{"k":1,"w":2},{"k":2,"w":1}]\nvals = lambda rows: [tuple(r.values()) for r in rows]\n'
plant("c19-having-two-columns", "C19", [(X, '                return left_calculater, self.compile_column(right_expression, config, arguments, right_column)', '                return left_calculater, self.compile_column(right_expression, config, arguments, left_column or right_column)')],
  T + 'r = vals(query("select id, g, v from t having v < g", t=t))\nassert r == [(3,2,1)], r', "HAVING that compares two columns of the result", "the left column is compared with itself")
plant("c19-having-scalar", "C19", [(X, '                return left_calculater, ["@convert_array", value_column, ":$.:0"]', '                return left_calculater, ["@convert_array", value_column]')],
  T + 'r = vals(query("select id, v from t having v >= (select max(w) as m from u)", t=t, u=u))\nassert r == [(1,3),(2,2)], r', "HAVING that compares a column with a subquery", "the column is compared with a list")
plant("c26-limit-option", "C26", [(X, '        arguments["@primary_order"] = False\n        arguments["@limit"] = 0\n', '        arguments["@primary_order"] = False\n')],
  'import logging; logging.disable(logging.CRITICAL)\nfrom syncanysql import ScriptEngine\ne = ScriptEngine()\ne.setup()\ne.execute("set @limit=2; insert into r select 1 as a union all select 2 as a union all select 3 as a;")\nr = [x["a"] for x in e.pop_memory_datas("r")]\nassert r == [1,2,3], r', "UNION ALL of more selects than SET @limit allows rows each", "rows of the later selects are lost")
