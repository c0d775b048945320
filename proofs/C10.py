from proofs.common import *
from contracts import C10 as C
from syncany.valuers.partition import OrderPartitionCalculaterContext
ASSUMPTIONS = ["each row of a partition carries exactly one cell of each window column (syncany PartitionManager)", "ORDER BY values are scalars; the argument of a window function is not itself a list (known finding otherwise)"]
SC = ("none", "bool", "int", "float", "dec", "str", "datetime", "date", "time")
class Cell(M.LazyInstance):
    def __init__(self, w, j, k): self.w, self.j, self.k = w, j, k
    def getattr(self, eng, name):
        w, j, k = self.w, self.j, self.k
        mine = k == w.place(j)
        if name == "calculate_valuer": return self
        if name == "valuer_id":
            o = eng.uf("other_id", I, I, I)(j, k)
            eng.axiom(("oid", o.get_id()), lambda: o != w.id)
            return SInt(z3.simplify(z3.If(mine, w.id, o)))
        if name == "value":
            if eng.entailed(mine): return [w.value(eng, j)] + list(w.args) if w.args else w.value(eng, j)
            return SVal(eng.uf("other_value", I, I, Val)(j, k))
        return M.LazyInstance.getattr(self, eng, name)
class Win(M.LazyInstance):
    def __init__(self, eng):
        self.n = eng.fresh("rows", I); eng.assume(self.n >= 1)
        self.v, self.o = eng.fresh("values", z3.ArraySort(I, Val)), eng.fresh("orders", z3.ArraySort(I, Val))
        self.place, self.width, self.id = eng.uf("place", I, I), eng.uf("width", I, I), eng.fresh("id", I)
        self.args = ()
    def scalar(self, eng, t):
        eng.axiom(("sc", t.get_id()), lambda: z3.Or([is_kind(k, t) for k in SC]))
        return SVal(t)
    def value(self, eng, j): return self.scalar(eng, z3.simplify(z3.Select(self.v, j)))
    def order(self, eng, j): return self.scalar(eng, z3.simplify(z3.Select(self.o, j)))
    def row(self, eng, j):
        p, wd = self.place(j), self.width(j)
        eng.axiom(("place", p.get_id()), lambda: z3.And(p >= 0, p < wd))
        search = LoopSpec(lambda eng, fr, st, i: [("the column's cell has not been passed", i <= p)], lambda eng, fr, st, i: None, name=" over the row's cells")
        return (self.order(eng, j), None, M.SSeq(wd, lambda k: Cell(self, j, k), spec=search))
    def concretize(self, eng, m):
        n = min(12, m.eval(self.n, model_completion=True).as_long())
        g = lambda f: [M.concretize(eng, m, f(z3.IntVal(j))) for j in range(n)]
        return C.Win(g(lambda j: SVal(z3.Select(self.o, j))), g(lambda j: SVal(z3.Select(self.v, j))), [0] * n)
def context(eng, args, kw):
    w, a = args
    w.args = tuple(a)
    c = OrderPartitionCalculaterContext()
    c.datas = M.SSeq(w.n, lambda j: w.row(eng, j))
    return c
def visit(eng, args, kw):
    w, c, i = args
    i = int_of(i)
    eng.call(c.update, [SInt(i) if not z3.is_int_value(i) else i.as_long(), Cell(w, i, w.place(i))])
SUMMARIES = {C.size: lambda eng, a, k: SInt(a[0].n), C.value_at: lambda eng, a, k: a[0].value(eng, int_of(a[1])), C.order_at: lambda eng, a, k: a[0].order(eng, int_of(a[1])),
             C.context: context, C.visit: visit}
SYMS = {"win": lambda eng, name: Win(eng)}

def rank_inv(distinct):
    def inv(eng, fr, st, i):
        s, w = fr.locals["state"], fr.locals["win"]
        if s is None: return [("no state before the first row", i == 0)]
        r = [("rank of the last row", zi(s["rank"]) == (i if distinct else 1)), ("remembered order value", z3.Or(i == 0, M.to_val(s["order_value"]) == M.to_val(w.order(eng, z3.IntVal(0)))))]
        if "row_number" in s: r.append(("rows seen", zi(s["row_number"]) == i))
        return r
    return inv
def rank_havoc(eng, fr, st, i):
    if eng.branch(i == 0): fr.locals["state"] = None
    else:
        d = {"order_value": eng.sym("any", "ov"), "rank": eng.sym("int", "rank")}
        if fr.locals["f"] == "rank": d["row_number"] = eng.sym("int", "rn")
        fr.locals["state"] = d
mod = lambda eng, fr, st: [fr.locals["c"], fr.locals["state"]]
LOOPS = {("contracts.C10:rank_of_distinct_rows", 0): LoopSpec(rank_inv(True), rank_havoc, modifies=mod),
         ("contracts.C10:rank_within_the_first_peer_group", 0): LoopSpec(rank_inv(False), rank_havoc, modifies=mod)}
