import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
I = "syncanysql/taskers/into.py"
S = '''
e = engine()
with e.context() as c:
    e.push_memory_datas("t", [{"id": 1, "g": 5, "v": 3}, {"id": 2, "g": 0, "v": None}, {"id": 3, "g": 7, "v": 4}])
    c.execute("set @x = 9")
'''
plant("c18-falsy-value", "C18", [(I, "                if value is None:\n", "                if not value:\n")],
  S + '    c.execute("select g into @x from t where id = 2")\n    assert c.get_variable("@x") == 0', "a single value of 0 or an empty text", "the variable becomes NULL")
plant("c18-list-nulls", "C18", [(I, "[data[schema_keys[0]] for data in datas if schema_keys[0] in data]", "[data[schema_keys[0]] for data in datas if data.get(schema_keys[0]) is not None]")],
  S + '    c.execute("select v into @x from t")\n    assert c.get_variable("@x") == [3, None, 4]', "several rows of one column, one of them NULL", "the NULL is missing in the list")
