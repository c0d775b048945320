from proofs.common import *
from contracts import C07 as C
def close(eng, args, kw): return M.compare(eng, "Eq", args[0], args[1])
SUMMARIES = {**NUMBER_SUMMARIES, C.close: close}
