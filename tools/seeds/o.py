import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/compiler.py"
T = 't = [{"id":0,"g":1,"h":1},{"id":1,"g":1,"h":3},{"id":2,"g":None,"h":1},{"id":3,"g":2,"h":3}]\nu = [{"uid":0,"k":1,"w":1,"x":1},{"uid":1,"k":4,"w":2,"x":1},{"uid":2,"k":2,"w":2,"x":0},{"uid":3,"k":2,"w":3,"x":1}]\nvals = lambda rows: [tuple(r.values()) for r in rows]\n'
plant("c24-mixed-keys", "C24", [(X, "        if sort_keys and len(primary_sort_keys) < len(sort_keys):", "        if sort_keys and not primary_sort_keys:")],
  T + 'r = vals(query("select id, h, -id as m from t order by h desc, m", t=t))\nassert r == [(3,3,-3),(1,3,-1),(2,1,-2),(0,1,0)], r', "ORDER BY a column of the table and then a computed output column", "the computed key is ignored")
plant("c23-three-conditions", "C23", [(X, "                            if len(right_having_expression) > 1:\n                                right_having_column = compile_having_column(right_having_expression[0],\n                                                                            right_having_expression[1:])", "                            if len(right_having_expression) > 1:\n                                right_having_column = compile_having_column(right_having_expression[0],\n                                                                            right_having_expression[-1])")],
  T + 'r = vals(query("select a.id, b.uid from t a left join u b on a.g=b.k and b.w+b.x>1 and b.w-b.x<3 and b.w+0!=2 and b.x+0=1", t=t, u=u))\nassert r == [(0,0),(1,0),(2,None),(3,3)], r\nr = vals(query("select a.id, b.uid from t a left join u b on a.g=b.k and b.w+b.x>1 and b.w-b.x<3 and b.x*b.w>9 and b.x+0=1", t=t, u=u))\nassert r == [(0,None),(1,None),(2,None),(3,None)], r', "an ON condition with four or more parts that are checked locally", "one of them is not checked")
plant("c23-second-join-level", "C23", [(X, '                    right_having_column = self.compile_calculate(right_having_expression, config, arguments,\n                                                                     primary_table, column_join_tables, i - 1)'.replace("                    right", "                        right"), '                        right_having_column = self.compile_calculate(right_having_expression, config, arguments,\n                                                                     primary_table, column_join_tables, i)')],
  T + 'r = vals(query("select a.id, b.uid from t a left join u b on a.g=b.k and b.w+b.x>1 and b.w+1>a.h", t=t, u=u))\nassert r == [(0,0),(1,None),(2,None),(3,3)], r', "two locally checked conditions, the last using a column", "it is read from another row level")
plant("c25-last-mode", "C25", [(X, "                    update_type = typing_option.upper()\n                    break\n", "                    update_type = typing_option.upper()\n")],
  'e = engine()\ne.push_memory_datas("o", [{"k":1,"v":1},{"k":2,"v":2}])\ne.push_memory_datas("s", [{"k":1,"v":5},{"k":3,"v":6}])\ne.execute("insert into `o<UI,DI>` select k,v from s")\nr = sorted((x["k"], x["v"]) for x in e.pop_memory_datas("o"))\nassert r == [(1,5),(2,2),(3,6)], r', "two modes after the table name", "the last one is used")
plant("c25-lower-mode", "C25", [(X, "                    if typing_option.upper() not in (", "                    if typing_option not in (")],
  'e = engine()\ne.push_memory_datas("o", [{"k":1,"v":1},{"k":2,"v":2}])\ne.push_memory_datas("s", [{"k":1,"v":5},{"k":3,"v":6}])\ne.execute("insert into `o<ui>` select k,v from s")\nr = sorted((x["k"], x["v"]) for x in e.pop_memory_datas("o"))\nassert r == [(1,5),(2,2),(3,6)], r', "a mode written in small letters", "the rows are appended")
plant("c20-star-subquery", "C20", [(X, '        for name, column in subquery_config["schema"].items():\n            if name in config["schema"]:\n                continue', '        if not config["schema"]:\n            config["dependencys"][-1]["pipelines"] = [p for p in config["dependencys"][-1]["pipelines"] if "slice" not in p[0] or len(p) > 3]\n        for name, column in subquery_config["schema"].items():\n            if name in config["schema"]:\n                continue')],
  'a = [{"v":i} for i in range(5)]\nr = [x["v"] for x in query("select * from (select v from a limit 2 offset 1) x", a=a)]\nassert r == [1,2], r', "SELECT * over a subquery with an offset", "the offset is lost")
