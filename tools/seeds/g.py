import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X = "syncanysql/config.py"
plant("c04-drop-database-prefix", "C04", [(X, 'self.config["databases"].remove(set_database)', 'self.config["databases"] = [d for d in self.config["databases"] if not d["name"].startswith(set_database["name"])]')],
  '''from syncanysql.config import GlobalConfig
g = GlobalConfig(); s = g.session()
s.set("databases.web", '{"driver": "json"}'); s.set("databases.web_log", '{"driver": "csv"}')
s.set("databases.web", None)
assert [d["name"] for d in s.get()["databases"]] == ["web_log"]
''', "two databases, one of whose names starts with the other's, and the shorter one is unset", "unsetting a database drops other databases too")
plant("c04-states-append-once", "C04", [(X, 'self.config[k].extend(v if isinstance(v, list) else [v])', 'self.config[k].extend([x for x in (v if isinstance(v, list) else [v]) if x not in self.config[k]])')],
  '''from syncanysql.config import GlobalConfig
g = GlobalConfig(); g.config["states"] = ["a", "b"]; s = g.session(); s.config["states"] = ["c", "a", "a"]
assert s.get()["states"] == ["a", "b", "c", "a", "a"]
''', "a session's list setting repeating an element of its parent's", "list sections are not appended whole")
plant("c04-unset-section-entry", "C04", [(X, '                    set_database.pop(key[2], None)', '                    (set_database.pop(key[2], None) if key[2] in set_database else self.config["databases"].remove(set_database))')],
  '''from syncanysql.config import GlobalConfig
g = GlobalConfig(); s = g.session()
s.set("databases.web", '{"driver": "json"}')
s.set("databases.web.path", None)
assert [d for d in s.get()["databases"] if d["name"] == "web"] == [{"name": "web", "driver": "json"}]
''', "unsetting a field that the database does not have", "the whole database disappears")
