"""Contract language.  A contract is a harness function over arbitrary arguments:
`assume(..)` states the precondition, the body calls the real functions, every
`assert cond, "name"` is a named postcondition.  The same text is (1) verified for
all arguments by pyvc.engine and (2) executed by CPython on concrete arguments
(bounded cross-check, replay of counter-models).  No solver import here: this file
runs under /opt/venv's python too."""
import datetime, decimal, itertools, os, uuid

REPO = os.environ.get("PYVC_REPO", "/repo")
CONTRACTS = []

class AssumeFailed(Exception): pass
def assume(c):
    if not c: raise AssumeFailed()
def implies(a, b): return (not a) or b
def cover(label): pass
def same(a, b):
    """same type and same value (structurally)"""
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float): return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    try: return bool(a == b)
    except Exception: return a is b
def outcome(f, *args):
    """('ok', value) or ('error', None)"""
    try:
        return ("ok", f(*args))
    except Exception as e:
        return ("error", None)

class Spec:
    def sym(self, eng, name): raise NotImplementedError
    def gen(self, rng): raise NotImplementedError
    def pool(self): return []

# ---- value pools for the bounded cross-check
D = decimal.Decimal
POOLS = {
    "none": [None],
    "bool": [True, False],
    "int": [0, 1, -1, 2, 3, 7, -5, 10, 12, 255, -256, 2**31, 10**18, 20200102],
    "float": [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 2.0, 3.0, 1e10, -0.1, 12.75],
    "dec": [D("0"), D("1"), D("-1.5"), D("2"), D("10.25")],
    "str": ["", "0", "1", "-1", "2", "a", "A", "abc", "ab", "b", "1.5", "-2.5", "12abc", "1.5x", "x1", " ", " 3", "3 ", "true", "null", "2.", ".5", "1.2.3", "é", "日本", "a,b,c", "%", "10", "9", "\\", "'", "0x1", "1e3", "--1"],
    "bytes": [b"", b"1", b"abc"],
    "datetime": [datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 12, 31, 23, 59, 59, 123000), datetime.datetime(2021, 2, 28), datetime.datetime(1999, 11, 30, 12), datetime.datetime(2020, 2, 29)],
    "date": [datetime.date(2020, 1, 2), datetime.date(2020, 12, 31), datetime.date(1999, 5, 31)],
    "time": [datetime.time(0, 0), datetime.time(3, 4, 5), datetime.time(23, 59, 59, 5)],
    "list": [[], [1], [1, 2], ["a", None], [[1], {"a": 1}]],
    "dict": [{}, {"a": 1}, {"a": None, "b": [1]}],
    "set": [set(), {1}, {"a", 2}],
    "tuple": [(), (1,), (1, "a")],
    "other": [uuid.UUID(int=1), uuid.UUID(int=7), datetime.timedelta(days=1)],
}
ALL_KINDS = tuple(POOLS)
SCALAR_KINDS = ("none", "bool", "int", "float", "dec", "str", "datetime", "date", "time")

DICT = {"str": [], "int": []}   # constants of the functions under contract, refilled from the current source by pyvc.bounded
def dict_str(rng, alphabet):
    w = rng.choice(DICT["str"])
    w = rng.choice([w, w, w.lower(), w.upper(), w.title()])
    k = rng.randint(0, 5)
    if k >= 3:
        x = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 3)))
        return w + x if k == 3 else x + w if k == 4 else x + w + rng.choice(DICT["str"])
    return w
def dict_int(rng): return rng.choice(DICT["int"]) + rng.choice([0, 0, 1, -1])

def rand_value(rng, kind):
    if kind in DICT and DICT[kind] and rng.random() < 0.12: return dict_str(rng, "0123456789ab.-+ xA%_,'\"") if kind == "str" else dict_int(rng)
    if rng.random() < 0.5: 
        import copy
        return copy.deepcopy(rng.choice(POOLS[kind]))
    if kind == "int": return rng.choice([rng.randint(-20, 20), rng.randint(-10**6, 10**6), rng.randint(-2**40, 2**40)])
    if kind == "float": return rng.choice([rng.randint(-40, 40) / 4, rng.uniform(-100, 100)])
    if kind == "dec": return D(rng.randint(-400, 400)) / 4
    if kind == "str":
        return "".join(rng.choice("0123456789ab.-+ xA%_,'\"") for _ in range(rng.randint(0, 6)))
    if kind == "datetime": return datetime.datetime(rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if kind == "date": return datetime.date(rng.randint(1990, 2040), rng.randint(1, 12), rng.randint(1, 28))
    if kind == "time": return datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    import copy
    return copy.deepcopy(rng.choice(POOLS[kind]))

class Kind(Spec):
    """a value of one of the given kinds"""
    def __init__(self, *kinds): self.kinds = kinds
    def pool(self): return [v for k in self.kinds for v in POOLS[k]]
    def gen(self, rng): return rand_value(rng, rng.choice(self.kinds))
class SmallKind(Kind):
    """as Kind; the concrete side keeps integers small (the operation is exponential in them)"""
    def pool(self): return [v for v in super().pool() if not isinstance(v, int) or abs(v) <= 60]
    def gen(self, rng):
        v = super().gen(rng)
        return v % 60 if isinstance(v, int) and not isinstance(v, bool) else v
Any = Kind(*ALL_KINDS)
Scalar = Kind(*SCALAR_KINDS)
class Int(Spec):
    def __init__(self, lo=None, hi=None, pool=None): self.lo, self.hi, self._pool = lo, hi, pool
    def pool(self):
        if self._pool: return self._pool
        return [v for v in (-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 25, 1000) if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)]
    def gen(self, rng):
        if DICT["int"] and rng.random() < 0.12:
            v = dict_int(rng)
            if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi): return v
        return rng.randint(self.lo if self.lo is not None else -30, self.hi if self.hi is not None else 30)
class Bool(Spec):
    def pool(self): return [False, True]
    def gen(self, rng): return rng.random() < 0.5
class Str(Spec):
    """an arbitrary text"""
    def __init__(self, alphabet="ab, .%_'0123-X", maxlen=10, extra=(), words=True): self.alphabet, self.maxlen, self.extra, self.words = alphabet, maxlen, list(extra), words
    def pool(self): return self.extra + ["", "a", "b", "ab", "ba", "abc", "aab", "a,b", ",", "日本語", "é", "A b"]
    def gen(self, rng):
        if self.words and DICT["str"] and rng.random() < 0.12: return dict_str(rng, self.alphabet)
        return "".join(rng.choice(self.alphabet) for _ in range(rng.randint(0, self.maxlen)))
class Real(Spec):
    def pool(self): return POOLS["float"]
    def gen(self, rng): return rand_value(rng, "float")
class Seq(Spec):
    """tuple of arbitrary length with elements of the given kinds"""
    def __init__(self, *kinds, maxlen=5): self.kinds, self.maxlen = kinds or ALL_KINDS, maxlen
    def pool(self):
        e = [v for k in self.kinds for v in POOLS[k][:2]]
        return [()] + [(x,) for x in e[:6]] + [(x, y) for x, y in zip(e, e[1:])][:8]
    def gen(self, rng): return tuple(rand_value(rng, rng.choice(self.kinds)) for _ in range(rng.randint(0, self.maxlen)))
class Choice(Spec):
    """finite enumeration, split exhaustively in the proof"""
    def __init__(self, *values): self.values = values
    def pool(self): return list(self.values)
    def gen(self, rng): return rng.choice(self.values)
class Custom(Spec):
    """symbolic side given by proofs/<prop>.py SYMS[symname]; concrete side by gen"""
    def __init__(self, symname, gen, pool=None): self.symname, self._gen, self._pool = symname, gen, pool
    def pool(self): return self._pool() if self._pool else []
    def gen(self, rng): return self._gen(rng)

class Contract:
    def __init__(self, fn, prop, args, targets, bounded_only=False, note="", known=None, concrete=True, proof=None, weight=1, covers=(), copy_args=True, cases=None, bound="", split=None):
        self.fn, self.prop, self.args, self.targets = fn, prop, args, targets
        self.bounded_only, self.note, self.known, self.concrete, self.proof, self.weight = bounded_only, note, known, concrete, proof, weight
        self.covers, self.copy_args, self.cases, self.bound, self.split = covers, copy_args, cases, bound, split
        self.name = fn.__name__

def contract(prop, args, targets=(), **kw):
    def deco(fn):
        c = Contract(fn, prop, args, list(targets), **kw)
        fn.__pyvc_harness__ = c
        CONTRACTS.append(c)
        return fn
    return deco
