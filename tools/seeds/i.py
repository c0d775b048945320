import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
D, S, C = "syncanysql/calculaters/mysql_funcs/datetime_funcs.py", "syncanysql/calculaters/mysql_funcs/string_funcs.py", "syncanysql/compiler.py"
plant("c13-february-clamp", "C13", [(D, "                day = dt.day - 1\n", "                day = 28 if new_month == 2 else dt.day - 1\n")],
  'r = query("select date_add(\'2024-01-31 10:00:00\', interval 1 month) as v")[0]["v"]\nassert (r.year, r.month, r.day, r.hour) == (2024, 2, 29, 10), r', "a month interval from the 30th or 31st into February of a leap year", "February 28 instead of 29")
plant("c13-zero-amount", "C13", [(D, "int(interval[\"value\"]))", "int(interval[\"value\"] or 1))")],
  'r = query("select date_add(\'2024-01-31\', interval n month) as v from t", t=[{"n": 0}])[0]["v"]\nassert (r.month, r.day) == (1, 31), r', "an interval amount that is the number 0 (from a column or an expression)", "one unit is added instead of none")
plant("c11-strcmp-case", "C11", [(S, "return 0 if s1 == s2 else (-1 if s1 < s2 else 1)", "return 0 if s1 == s2 else (-1 if s1.lower() <= s2.lower() else 1)")],
  'assert query("select strcmp(\'a\', \'B\') as v")[0]["v"] == 1 and query("select strcmp(\'a\', \'A\') as v")[0]["v"] == 1', "texts whose order changes with letter case", "STRCMP is no longer antisymmetric")
plant("c11-contains-empty", "C11", [(S, "    try:\n        return 1 if s2 in s1 else 0\n", "    try:\n        return 1 if s2 and s2 in s1 else 0\n")],
  'assert query("select contains(\'abc\', \'\') as v")[0]["v"] == 1', "the empty text as the text searched for", "CONTAINS(s, '') is 0")
plant("c11-field-last", "C11", [(S, "        return args.index(s) + 1\n", "        return args.index(s, 0, max(len(args) - 1, 2)) + 1\n")],
  'assert query("select field(\'c\', \'a\', \'b\', \'c\') as v")[0]["v"] == 3', "a value found only in the last of three or more places", "FIELD gives 0")
