import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/compiler.py"
T = 't = [{"id":0,"g":1,"v":1},{"id":1,"g":2,"v":3},{"id":2,"g":None,"v":2},{"id":3,"g":None,"v":None}]\nvals = lambda rows: [tuple(r.values()) for r in rows]\n'
plant("c27-case-sixth", "C27", [(X, 'build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,', 'build_if(case_expressions[0], case_expressions[1:] if len(case_expressions) < 5 else case_expressions[2:]) if case_expressions else defaul_column,')],
  T + 'r = vals(query("select id, case when v = 1 then 10 when v = 9 then 90 when v = 3 then 30 when v = 8 then 80 when v = 2 then 20 when id = 3 then 5 else 0 end as x from t", t=t))\nassert r == [(0,10),(1,30),(2,20),(3,5)], r', "a CASE of at least six WHEN of which the third is the first true", "the third WHEN is skipped")
plant("c27-coalesce-four", "C27", [(X, 'coalesce_value_column = parse_coalesce(coalesce_expressions[1:])', 'coalesce_value_column = parse_coalesce(coalesce_expressions[-2:])')],
  T + 'r = vals(query("select id, coalesce(g, v, id, 7, 8) as x from t", t=t))\nassert r == [(0,1),(1,2),(2,2),(3,3)], r', "COALESCE of five values the first two of which are NULL", "values in the middle are skipped")
plant("c27-between-high", "C27", [(X, '[":@mysql::and", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"]]', '[":@mysql::and", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.low_value", "$.high_value"]]')],
  T + 'r = vals(query("select id, v between 1 and 2 as x from t", t=t))\nassert r == [(0,1),(1,0),(2,1),(3,None)], r', "BETWEEN on a value above the upper bound", "the bounds are compared with each other")
