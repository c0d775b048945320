from proofs.scopes import *
from contracts import C02 as C
from syncanysql.executor import Executor
from syncanysql.taskers.set import SetCommandTasker
def current(eng, a, k): return Executor._thread_local.current_executor
SUMMARIES = dict(SUMMARIES)
SUMMARIES[SetCommandTasker.parse_value] = lambda eng, a, k: a[1]      # C05's subject
