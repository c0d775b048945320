import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
MC = "syncanysql/calculaters/mysql_calculater.py"
plant("c15-error-state", "C15", [(MC, "            if isinstance(e, (ValueError, KeyError)):\n                return None", "            if isinstance(e, (ValueError, KeyError)):\n                return None\n            if isinstance(e, TypeError) and len(args) > 3:\n                raise")],
  'r = query("select reverse(\'abc\', 1, 2, 3) as v")\nassert r[0]["v"] is None', "a wrong argument count above three", "the query aborts with TypeError instead of NULL")
