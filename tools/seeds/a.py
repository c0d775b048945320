import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
L, N, W, R, MC = ["syncanysql/calculaters/" + x for x in ("mysql_funcs/logical_funcs.py", "mysql_funcs/number_funcs.py", "window_calculater.py", "row_calculater.py", "mysql_calculater.py")]
plant("c06-in-null-element", "C06", [(L, "            hs_none = True\n            continue\n        if mysql_eq(a, v):\n            return 1\n    return None if hs_none else 0",
      "            hs_none = True\n            continue\n        hs_none = False\n        if mysql_eq(a, v):\n            return 1\n    return None if hs_none else 0")],
  'assert query("select 5 in (null, 3) as v")[0]["v"] is None\nassert query("select 3 in (null, 3) as v")[0]["v"] == 1', "a NULL element followed by a non-matching non-NULL element", "IN gives 0 instead of NULL although an element is NULL")
plant("c06-neq-mixed", "C06", [(L, "        return 1 if ensure_str(a) != ensure_str(b) else 0", "        return 1 if a != b else 0")],
  'for a, b in (("\'12\'", "12"), ("\'1.5\'", "1.5")):\n    r = query("select %s = %s as e, %s != %s as n" % (a, b, a, b))[0]\n    assert r["e"] != r["n"], r', "text on the left, a number with the same text on the right", "= and != both true for mixed operands")
plant("c07-parse-number-dot", "C07", [("syncanysql/utils.py", "    return float(x[:index + 1]) if dot_index > 0 else int(x[:index + 1])", "    return float(x[:index + 1]) if dot_index > 0 and index > dot_index + 1 else int(x[:dot_index if dot_index > 0 else index + 1])")],
  'assert query("select \'1.5kg\' + 0 as v")[0]["v"] == 1.5', "a number text with exactly one fraction digit followed by other characters", "the fraction is dropped")
plant("c10-nth-default", "C10", [(W, "if (offset_index < 0 and -offset_index > len(context.datas)) or offset_index >= len(context.datas):\n                return data_value[2]", "if (offset_index < 0 and -offset_index > len(context.datas)) or offset_index >= len(context.datas):\n                if offset_index == len(context.datas) and context.current_index == offset_index - 1:\n                    return None\n                return data_value[2]")],
  'r = query("select id, nth_value(v, 3, \'d\') over(partition by g order by id) as w from t", t=[{"id": 1, "g": 1, "v": 5}, {"id": 2, "g": 1, "v": 6}])\nassert [x["w"] for x in r] == ["d", "d"], r', "nth_value with a default, n exactly one beyond the partition, the last row", "the default is not returned")
plant("c10-lag-cell", "C10", [(W, "            for partition_calculater in context.datas[offset_index][2]:\n                if partition_calculater.calculate_valuer.valuer_id == valuer_id:\n                    return partition_calculater.value[0]\n            return None\n\n        offset_index = context.current_index - 1", "            for partition_calculater in context.datas[offset_index][2]:\n                if partition_calculater.calculate_valuer.valuer_id == valuer_id or isinstance(partition_calculater.value, list):\n                    return partition_calculater.value[0]\n            return None\n\n        offset_index = context.current_index - 1")],
  'r = query("select lead(b, 1) over(order by id) as x, lag(a, 1) over(order by id) as y from t", t=[{"id": 1, "a": 5, "b": 50}, {"id": 2, "a": 6, "b": 60}])\nassert [x["y"] for x in r] == [None, 5], r', "two offset window columns in one query", "LAG reads another column's value")
plant("c22-shared-row-last", "C22", [(R, "        row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)", "        row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)\n        if not self.row_last:\n            self.row_last = row_last")],
  'r = query("select row_last(v) as w from t", t=[{"v": 1}, {"v": 0}, {"v": 2}])\nprint(r)\nassert [x["w"] for x in r][2] == 0, r', "a falsy value (0, empty text or NULL) in the preceding row", "the previous-row function skips falsy values")
