from proofs.common import *
from contracts import C15 as C
def probe(eng, args, kw):
    ts = [to_val(a) for a in args[0]]
    sorts = [Val] * len(ts)
    k = eng.uf("probe_kind", I, *sorts, I)(len(ts), *ts)
    if eng.branch(k == 0): eng.raise_(ValueError, "")
    if eng.branch(k == 1): eng.raise_(KeyError, "")
    if eng.branch(k == 2): eng.raise_(C.Weird, "")
    return SVal(eng.uf("probe_val", I, *sorts, Val)(len(ts), *ts))
SUMMARIES = {C.probe: probe}
