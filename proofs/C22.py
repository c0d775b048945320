from proofs.common import *
def idx_inv(eng, fr, st, i):
    c, o = fr.locals["column"], fr.locals["other"]
    return [("rows numbered so far", zi(fr.locals["n"]) == i), ("counter of the column is the number of rows it has seen", zi(c.row_index) == i), ("counter of the other column", zi(o.row_index) == i)]
def idx_havoc(eng, fr, st, i):
    fr.locals["n"] = eng.sym("int", "n")
    fr.locals["column"].row_index = eng.sym("int", "ri"); fr.locals["other"].row_index = eng.sym("int", "ro")
def last_inv(eng, fr, st, i):
    c, o = fr.locals["column"], fr.locals["other"]
    return [("column remembers the preceding value", M.same_term(eng, c.row_last, fr.locals["previous"])),
            ("other column remembers its own", M.disj([M.same_term(eng, o.row_last, None), M.same_term(eng, o.row_last, fr.locals["others"])]))]
def last_havoc(eng, fr, st, i):
    fr.locals["previous"] = eng.sym("any", "prev")
    fr.locals["column"].row_last = eng.sym("any", "rl"); fr.locals["other"].row_last = eng.sym("any", "ol")
mod = lambda eng, fr, st: [fr.locals["column"], fr.locals["other"]]
LOOPS = {("contracts.C22:index_counts_every_row", 0): LoopSpec(idx_inv, idx_havoc, modifies=mod),
         ("contracts.C22:last_returns_the_preceding_value", 0): LoopSpec(last_inv, last_havoc, modifies=mod)}
