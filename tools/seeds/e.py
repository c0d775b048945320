import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/executor.py"
plant("c02-null-hides", "C02", [(X, "        if self.parent is None:\n            return default\n        return self.parent.get(key, default)", "        if self.parent is None:\n            return default\n        value = self.parent.get(key, default)\n        return default if value is None else value")],
  'from syncanysql.executor import EnvVariables\nouter = EnvVariables(); outer["@limit"] = None\nassert EnvVariables(outer).get("@limit", 5) is None', "a variable that is NULL in an enclosing scope, read with a default", "a NULL variable of an outer scope counts as undefined")
plant("c02-at-name-outward", "C02", [(X, '        if key and key[0] == "@" and key[1:] in self:\n            return self[key[1:]]\n        if self.parent is None:\n            raise KeyError("%s unknown" % key)\n        return self.parent.get_value(key)', '        if self.parent is not None:\n            try:\n                return self.parent.get_value(key)\n            except KeyError:\n                pass\n        if key and key[0] == "@" and key[1:] in self:\n            return self[key[1:]]\n        raise KeyError("%s unknown" % key)')],
  'from syncanysql.executor import EnvVariables\nouter = EnvVariables(); outer["@day"] = 1\ninner = EnvVariables(outer); inner["day"] = 2\nassert inner.get_value("@day") == 2', "a script argument name (without @) in the inner scope and the same @name outside", "the outer @name hides the inner plain name")
