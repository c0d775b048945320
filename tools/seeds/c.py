import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
A = "syncanysql/calculaters/aggregate_calculater.py"
plant("c08-concat-empty-text", "C08", [(A, "class AggregateGroupConcatCalculater(StateAggregateCalculater):\n    def aggregate(self, state_value, data_value):\n        if data_value is None:", "class AggregateGroupConcatCalculater(StateAggregateCalculater):\n    def aggregate(self, state_value, data_value):\n        if data_value is None or data_value == '':")],
  'r = query("select g, group_concat(v) as x from t group by g", t=[{"g": 1, "v": "a"}, {"g": 1, "v": ""}, {"g": 1, "v": "b"}])\nassert r[0]["x"] == "a,,b", r', "an empty text inside a group", "GROUP_CONCAT drops empty texts")
plant("c08-uniq-list-state", "C08", [(A, "    def final_value(self, state_value):\n        if state_value is None:\n            return 0\n        return len(state_value)", "    def final_value(self, state_value):\n        if state_value is None:\n            return 0\n        return len(state_value) - (1 if '' in state_value else 0)")],
  'r = query("select g, count(distinct v) as x from t group by g", t=[{"g": 1, "v": "a"}, {"g": 1, "v": ""}, {"g": 1, "v": "a"}])\nassert r[0]["x"] == 2, r', "an empty text among the values", "COUNT(DISTINCT) treats the empty text as NULL")
plant("c09-max-zero-partial", "C09", [(A, "        if state_value is None:\n            return data_value\n        return max(state_value, data_value)\n\n\nclass AggregateMin", "        if not state_value:\n            return data_value\n        return max(state_value, data_value)\n\n\nclass AggregateMin")],
  'from syncanysql.calculaters import CALCULATERS\nm = CALCULATERS["aggregate_max"].instance("aggregate_max::aggregate"); r = CALCULATERS["aggregate_max"].instance("aggregate_max::reduce")\nassert r.calculate(m.calculate(None, 0), m.calculate(None, -5)) == 0', "a first batch whose partial maximum is 0 (falsy) and a smaller later batch", "MAX over batches returns the later batch's maximum")
plant("c09-distinct-overlap", "C09", [(A, "        return state_value | data_value\n\n    def final_value(self, state_value):\n        if state_value is None:\n            return 0", "        return state_value ^ data_value\n\n    def final_value(self, state_value):\n        if state_value is None:\n            return 0")],
  'from syncanysql.calculaters import CALCULATERS\nn = "aggregate_distinct_count"; m = CALCULATERS[n].instance(n + "::aggregate"); r = CALCULATERS[n].instance(n + "::reduce"); f = CALCULATERS[n].instance(n + "::final_value")\nassert f.calculate(r.calculate(m.calculate(None, 1), m.calculate(m.calculate(None, 1), 2))) == 2', "the same value in two batches", "COUNT(DISTINCT) over batches loses values seen in both")
