import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
Q, X, K = "syncanysql/taskers/query.py", "syncanysql/executor.py", "syncanysql/compiler.py"
S = '''
e = engine()
def left(): return sorted(n for n, v in e.get_database("--").memory_databases.items() if v)
'''
plant("c16-interrupt-kept", "C16", [(Q, "        except KeyboardInterrupt as e:\n            self.check_free_temporary_memory_collection(executor, tasker)\n", "        except KeyboardInterrupt as e:\n")],
  '''
from syncanysql.taskers.query import QueryTasker
class T(QueryTasker):
    told = 0
    def run_yield(self, *a): raise KeyboardInterrupt()
    def check_free_temporary_memory_collection(self, *a): self.told += 1
class K:
    name = "k"
    def close(self, *a): pass
t = T({}, None, None)
try:
    for v in t.run_tasker(None, None, None, K(), []): pass
except KeyboardInterrupt: pass
assert t.told == 1
''', "a task ended by Ctrl+C", "the interrupted user of an intermediate result is never taken off the list of users")
plant("c16-clear-first-only", "C16", [(X, "                if self.runners and database.is_streaming(name):\n                    continue", "                if self.runners and database.is_streaming(name):\n                    break")],
  '''
import syncanysql.executor as EX
from collections import deque
from syncany.database import register_database
done = []
class D:
    def __init__(self, *a): pass
    def build(self): return self
    def is_streaming(self, n): return n == "--.__subquery_1"
    def delete(self, n, k):
        class C:
            def commit(s): done.append(n)
        return C()
    def close(self): pass
register_database("demomem", D)
class S:
    def get(self): return {"databases": [{"name": "--", "driver": "demomem"}]}
class M: database_manager = None
x = object.__new__(EX.Executor); x.session_config, x.manager, x.runners = S(), M, deque([1])
x.clear_temporary_memory_collection(["--.__subquery_1", "--.__subquery_2"])
assert done == ["--.__subquery_2"], done
''', "a query with several intermediate results, one of them still streamed while other tasks wait", "the results listed after the streamed one stay in memory for ever")
plant("c16-use-per-tasker", "C16", [(Q, "    def use_collection(self, name):\n        self.collections[name] += 1", "    def use_collection(self, name):\n        self.collections[name] = min(self.collections[name] + 1, 2)")],
  '''
from syncanysql.taskers.query import QueryTaskerTemporaryMemoryManager
m = QueryTaskerTemporaryMemoryManager(); m.add_collection("--.__subquery_1")
for _ in range(3): m.use_collection("--.__subquery_1")
assert [m.unuse_collection("--.__subquery_1") for _ in range(3)] == [False, False, True]
''', "three users of one intermediate result", "the result is deleted after the second user has finished, the third finds nothing")
