from proofs.common import *
from contracts import C20 as C
ASSUMPTIONS = ["the loader reads at most @limit rows when it is positive (and after ordering them when the plan orders at the source), the steps of `pipelines` run in order on the complete result, @array::slice is Python's slice (syncany core)",
    "LIMIT and OFFSET are the non-negative decimal numerals the parser accepts; their text is the number here"]
class Node:
    def __init__(self, args): self.args = args
def select_of(eng, args, kw):
    n, m = args
    a = {"limit": None, "offset": None}
    if n is not None: a["limit"] = Node({"expression": Node({"this": n})})
    if m is not None: a["offset"] = Node({"expression": Node({"this": m})})
    return Node(a)
SUMMARIES = {C.select_of: select_of, C.compiler: lambda eng, args, kw: object.__new__(C.Compiler)}
SYMS = {}
LOOPS = {}
