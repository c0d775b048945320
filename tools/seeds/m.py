import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
X, T = "syncanysql/executor.py", "syncanysql/taskers/execute.py"
S = '''
from syncanysql.executor import Executor
from collections import deque
def bare(parent=None):
    e = object.__new__(Executor); e.session_config, e.manager, e.parent_executor, e.runners, e.tasker = None, None, parent, deque(), None
    return e
'''
plant("c17-number-deep", "C17", [(X, "    def distribute_tasker_index(self):\n        if self.parent_executor is not None:", "    def distribute_tasker_index(self):\n        if self.parent_executor is not None and self.parent_executor.parent_executor is None:")],
  S + 'a = bare(); b = bare(a); c = bare(b)\nassert [b.distribute_tasker_index(), c.distribute_tasker_index(), b.distribute_tasker_index(), c.distribute_tasker_index()] == [1, 2, 3, 4]', "a script executed by a script executed by a script", "task numbers start again in the innermost script")
plant("c17-resume-first", "C17", [(X, "        self.runners.append(tasker)", "        self.runners.append(tasker) if not self.tasker else self.runners.insert(len(self.runners) and 1, tasker)")],
  S + '''
log = []
class T:
    def __init__(self, n, adds): self.n, self.adds = n, adds
    def run(self, e, *a):
        log.append(self.n)
        for x in self.adds: e.add_runner(x)
e = bare(); e.runners.extend([T(0, [T(4, []), T(5, [])]), T(1, []), T(2, []), T(3, [])])
e.execute()
assert log == [0, 1, 2, 3, 4, 5], log
''', "a running task that adds tasks while two or more are waiting", "added tasks overtake waiting ones")
plant("c17-error-keeps-nested", "C17", [(X, "        self._thread_local.current_executor = self.parent_executor", "        if exc_type is None or not issubclass(exc_type, SystemError):\n            self._thread_local.current_executor = self.parent_executor")],
  S + '''
a = bare(); b = bare(a)
with a:
    try:
        with b: raise SystemError("signal")
    except SystemError: pass
    assert Executor.current() is a
''', "a nested script left by a signal (SystemError)", "the nested execution stays the current one")
