import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
R, J = "syncanysql/calculaters/mysql_funcs/regexp_funcs.py", "syncanysql/calculaters/mysql_funcs/json_funcs.py"
plant("c14-option-case", "C14", [(R, "    for c in match_type.lower():\n", "    for c in (match_type if len(match_type) < 3 else match_type.lower()):\n")],
  'assert query("select regexp_like(\'ABC\', \'abc\', \'C\') as v")[0]["v"] == 0', "a match type of one or two capital letters", "capital match type letters are ignored")
plant("c14-empty-pattern", "C14", [(R, "def mysql_like(s, r, match_type=None):\n    if r is None or s is None:", "def mysql_like(s, r, match_type=None):\n    if not r or s is None:")],
  'assert query("select \'a\' like \'\' as v, \'\' like \'\' as w")[0] == {"v": 0, "w": 1}', "an empty LIKE pattern", "LIKE with an empty pattern is NULL")
plant("c12-quoted-digits", "C12", [(J, "            if json_path_key.isdigit():\n                json_path_key = int(json_path_key)", "            if json_path_key.strip('\"').isdigit():\n                json_path_key = int(json_path_key.strip('\"'))")],
  'assert query("select json_extract(doc, p) as v from t", t=[{"doc": \'{"0": 5}\', "p": \'$["0"]\'}])[0]["v"] == 5', "a quoted member name made of digits", "the member is addressed as an array index")
plant("c12-set-null-member", "C12", [(J, "            if json_path_key not in json_data:\n                if i + 1 >= len(json_path_keys):\n                    json_data[json_path_key] = value\n                return json_data", "            if json_data.get(json_path_key) is None:\n                if i + 1 >= len(json_path_keys):\n                    json_data.setdefault(json_path_key, value)\n                return json_data")],
  'assert query("select json_set(doc, p, 1) as v from t", t=[{"doc": \'{"a": null}\', "p": \'$.a\'}])[0]["v"] == {"a": 1}', "setting a member that is there and holds null", "the member keeps null")
plant("c12-remove-last", "C12", [(J, "                        del json_data[json_path_key]\n                        return json_data", "                        del json_data[json_path_key:json_path_key + max(1, json_path_key // 2)]\n                        return json_data")],
  'assert query("select json_remove(doc, p) as v from t", t=[{"doc": "[1,2,3,4,5,6,7]", "p": "$[4]"}])[0]["v"] == [1, 2, 3, 4, 6, 7]', "an array index of 4 or more", "more than one element is removed")
