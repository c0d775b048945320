"""pyvc: a deductive verifier for the Python subset used by /repo.

The functions under contract are the *real* function objects of the package
imported from /repo; their source is re-read and parsed on every run.  A proof
harness (contract) calls them with arbitrary symbolic arguments; every path
through the code is explored, each `assert` in the harness, each callee
precondition and each loop invariant is a verification condition discharged by
z3.  There is no unrolling bound: loops over symbolic data need an invariant.
"""
import ast, builtins, sys, threading, types, time, inspect, decimal, datetime, itertools, operator, functools
import z3
from .values import *
from . import values as V

sys.setrecursionlimit(20000)

class Infeasible(Exception): pass
class PathEnd(Exception): pass          # end of a path that is cut by a loop invariant
class PyRaise(Exception):
    def __init__(self, exc): self.exc = exc
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass

class OpaqueError(Exception):
    """exception of unknown class raised by an external callee"""

UNDEF = object()
class Poison:
    def __init__(self, name): self.name = name

_ast_cache = {}
def file_ast(filename):
    if filename not in _ast_cache:
        src = open(filename, encoding="utf-8").read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                ln = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    ln = min(d.lineno for d in node.decorator_list)
                idx.setdefault(ln, []).append(node)
        _ast_cache[filename] = (tree, idx)
    return _ast_cache[filename]

def fn_node(fn):
    code = fn.__code__
    tree, idx = file_ast(code.co_filename)
    cands = idx.get(code.co_firstlineno, [])
    nargs = code.co_argcount + code.co_kwonlyargcount
    for n in cands:
        name = n.name if isinstance(n, ast.FunctionDef) else "<lambda>"
        if name == code.co_name and len(n.args.args) + len(n.args.posonlyargs) + len(n.args.kwonlyargs) == nargs:
            names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
            if tuple(names) == code.co_varnames[:nargs]:
                return n
    raise Unsupported("source of %s not found at %s:%d" % (code.co_name, code.co_filename, code.co_firstlineno))

_locals_cache = {}
def local_names(node):
    """names local to a function body (not descending into nested scopes)"""
    if node in _locals_cache: return _locals_cache[node]
    res, nonloc, glob = set(), set(), set()
    def tgt(t):
        if isinstance(t, ast.Name): res.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                res.add(c.name); continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
            if isinstance(c, ast.Nonlocal): nonloc.update(c.names)
            if isinstance(c, ast.Global): glob.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): res.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name: res.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names: res.add((a.asname or a.name).split(".")[0])
            walk(c)
    if isinstance(node, ast.Lambda): walk(node)
    else:
        fake = ast.Module(body=node.body, type_ignores=[])
        walk(fake)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: res.add(x.arg)
    if a.vararg: res.add(a.vararg.arg)
    if a.kwarg: res.add(a.kwarg.arg)
    _locals_cache[node] = (res - nonloc - glob, nonloc, glob)
    return _locals_cache[node]

def assigned_names(stmts):
    res = set()
    for s in stmts:
        for c in ast.walk(s):
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): res.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name: res.add(c.name)
    return res

def is_generator_node(node):
    if isinstance(node, ast.Lambda): return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(n))
    return False

class IFunc:
    """function or lambda defined inside interpreted code"""
    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = getattr(node, "name", "<lambda>")
        self.__qualname__ = frame.qualname + ".<locals>." + self.__name__

class Frame:
    def __init__(self, node, globs, parent=None, cells=None, qualname="?", fn=None):
        self.locals, self.globals, self.parent, self.cells = {}, globs, parent, cells or {}
        self.node, self.qualname, self.fn = node, qualname, fn
        self.localnames, self.nonlocals, self.globaldecl = local_names(node) if node is not None else (set(), set(), set())
        self.loop_no = {}
        self.self_arg = None
        self.cur_exc = None

class SymMethod:
    def __init__(self, obj, name): self.obj, self.name = obj, name

class SuperProxy:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

class Obligation:
    def __init__(self, name, status, model=None, detail="", path=()):
        self.name, self.status, self.model, self.detail, self.path = name, status, model, detail, path

class Engine:
    def __init__(self, interp_prefixes, summaries=None, loops=None, timeout_ms=20000, max_paths=20000, deadline=None, trace=False):
        self.interp_prefixes = tuple(interp_prefixes)
        self.summaries = dict(summaries or {})      # real function object -> handler(eng, args, kwargs)
        self.loops = dict(loops or {})              # (qualname, ordinal) -> LoopSpec
        self.timeout_ms, self.max_paths, self.deadline = timeout_ms, max_paths, deadline
        self.obligations = []        # list of Obligation
        self.covers = set()
        self.stats = {"paths": 0, "solver_calls": 0, "solver_s": 0.0, "pruned": 0, "functions": set()}
        self.assumptions = set()
        self.feas_cache = {}
        self.ent_cache = {}
        self.feas_timeout_ms = min(timeout_ms, 4000)
        self.ufs = {}
        self.abstract_contains = self.abstract_strings = False
        from . import models
        self.models = models
    # ------------------------------------------------------------ paths
    def explore(self, run):
        """run(eng) is re-executed once per path"""
        worklist = [[]]
        while worklist:
            if self.stats["paths"] >= self.max_paths: raise Unsupported("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            prefix = worklist.pop()
            self.prefix, self.pos, self.trace = prefix, 0, []
            self.worklist = worklist
            self.pc = []
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            self.fresh_no = 0
            self.ent_no = 0
            self.resolved = {}
            self.inputs = []
            self.maps = {}
            self.ghost = {}
            self.axiom_keys = set()
            self.cond_cache = {}
            self.call_depth = 0
            self.notes = []
            self.undo = []
            self.stats["paths"] += 1
            try:
                run(self)
            except Infeasible:
                self.stats["pruned"] += 1
            except PathEnd:
                pass
            finally:
                for u in reversed(self.undo): u()
    def in_new_territory(self):
        return self.pos >= len(self.prefix)
    def assume(self, cond):
        if isinstance(cond, (bool, SBool)): cond = bool_of(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c): raise Infeasible()
    def axiom(self, key, make):
        """assume a definitional axiom instance once per path"""
        if key in self.axiom_keys: return
        self.axiom_keys.add(key)
        self.solver.add(make())
    def check(self, *conds):
        t0 = time.time()
        self.stats["solver_calls"] += 1
        r = self.solver.check(*conds)
        self.stats["solver_s"] += time.time() - t0
        return r
    def choose(self, conds):
        conds = [z3.simplify(bool_of(c) if isinstance(c, (bool, SBool)) else c) for c in conds]
        for i, c in enumerate(conds):
            if z3.is_true(c): return i
        key = tuple(c.get_id() for c in conds)
        live = [i for i, c in enumerate(conds) if not z3.is_false(c)]
        if len(live) == 1:
            self.assume(conds[live[0]]); return live[0]
        if key in self.cond_cache: return self.cond_cache[key][0]
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            feas = []
            self.solver.set("timeout", self.feas_timeout_ms)
            for i in live:
                if self.check(conds[i]) != z3.unsat: feas.append(i)
            self.solver.set("timeout", self.timeout_ms)
            if not feas: raise Infeasible()
            i = feas[0]
            for j in feas[1:]: self.worklist.append(self.trace + [j])
        self.pos += 1
        self.trace.append(i)
        self.assume(conds[i])
        self.cond_cache[key] = (i, conds)
        return i
    def branch(self, c):
        if isinstance(c, bool): return c
        if isinstance(c, SBool): c = c.t
        return self.choose([c, z3.Not(c)]) == 0
    def entailed(self, c):
        """c follows from the path condition (used only to simplify terms; the answer is remembered per path
        position so that re-execution of a prefix takes the same shape)"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.ent_no += 1
        key = (tuple(self.trace), self.pos, self.ent_no)
        if key not in self.ent_cache:
            self.solver.set("timeout", 1500)
            self.ent_cache[key] = self.check(z3.Not(c)) == z3.unsat
            self.solver.set("timeout", self.timeout_ms)
        return self.ent_cache[key]
    def prove(self, name, cond, detail=""):
        """a verification condition on the current path"""
        if isinstance(cond, (bool, SBool)): cond = bool_of(cond)
        if not self.in_new_territory():
            self.solver.add(cond); return
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.obligations.append(Obligation(name, "discharged", path=tuple(self.trace))); return
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            self.obligations.append(Obligation(name, "discharged", path=tuple(self.trace)))
        else:
            model = None
            if r == z3.sat:
                try: model = self.extract(self.solver.model())
                except Exception as e: model = {"__error__": repr(e)}
                status = "failed"
            else:
                r2 = self.second_opinion(c)
                if r2 == "unsat":
                    self.obligations.append(Obligation(name, "discharged", path=tuple(self.trace), detail="cvc5"))
                    self.pc.append(c); self.solver.add(c); return
                status = "unknown"
            self.obligations.append(Obligation(name, status, model, detail + (" | vc: %s" % str(c)[:400]), tuple(self.trace)))
        if r == z3.sat and self.check(c) == z3.unsat: raise PathEnd()
        self.solver.add(c)
    def second_opinion(self, c):
        try:
            from .cvc5back import check_unsat
            t0 = time.time()
            r = check_unsat(self.solver.assertions(), z3.Not(c), 20)
            self.stats["solver_s"] += time.time() - t0
            return r
        except Exception as e:
            return "error %r" % e
    def fail(self, name, detail=""):
        """an obligation that is violated on every model of the current path"""
        if not self.in_new_territory(): raise PathEnd()
        r = self.check()
        if r == z3.unsat: raise Infeasible()
        model = None
        if r == z3.sat:
            try: model = self.extract(self.solver.model())
            except Exception as e: model = {"__error__": repr(e)}
        self.obligations.append(Obligation(name, "failed" if r == z3.sat else "unknown", model, detail, tuple(self.trace)))
        raise PathEnd()
    def cover(self, label):
        self.covers.add(label)
    # ------------------------------------------------------------ fresh values
    def fresh(self, name, sort):
        self.fresh_no += 1
        return z3.Const("%s!%d" % (name, self.fresh_no), sort)
    def sym(self, kind, name="v"):
        if kind == "int": return SInt(self.fresh(name, z3.IntSort()))
        if kind == "bool": return SBool(self.fresh(name, z3.BoolSort()))
        if kind == "float": return SFloat(self.fresh(name, z3.RealSort()))
        if kind == "dec": return SDec(self.fresh(name, z3.RealSort()))
        if kind == "str": return SStr(self.fresh(name, z3.StringSort()))
        if kind == "any": return SVal(self.fresh(name, Val))
        if kind in OBJ_KINDS: 
            t = self.fresh(name, z3.IntSort()); self.assume(t >= 0)
            return SObj(kind, t)
        raise Unsupported("sym kind " + kind)
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs: self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]
    # ------------------------------------------------------------ model extraction
    def extract(self, m):
        out = {}
        for name, v in self.inputs:
            out[name] = self.concretize(m, v)
        return out
    def concretize(self, m, v, depth=0):
        from .models import concretize
        return concretize(self, m, v)
    # ------------------------------------------------------------ value operations
    def resolve(self, v):
        """typed value of an SVal (forks over the possible kinds)"""
        if not isinstance(v, SVal): return v
        t = z3.simplify(v.t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            n = t.decl().name()
            k = n[1:] if n[1:] in OBJ_KINDS and n[0] == "v" else n
            return unval(k, t)
        key = t.get_id()
        if key in self.resolved: return self.resolved[key][0]
        i = self.choose([is_kind(k, t) for k in KINDS])
        r = unval(KINDS[i], t)
        self.resolved[key] = (r, t)
        return r
    def truth(self, v):
        """Python truthiness as bool (forks)"""
        return self.branch(self.truth_term(v))
    def truth_term(self, v):
        if isinstance(v, Sym):
            v = self.resolve(v)
            if not isinstance(v, Sym): return bool(v)
            if isinstance(v, SBool): return v
            if isinstance(v, SInt): return SBool(v.t != 0)
            if isinstance(v, (SFloat, SDec)): return SBool(v.t != 0)
            if isinstance(v, SStr) and z3.is_app_of(v.t, z3.Z3_OP_SEQ_CONCAT) and any(z3.is_string_value(c) and c.as_string() for c in v.t.children()): return True
            if isinstance(v, SStr) and self.abstract_strings: return SBool(self.uf("str_nonempty", z3.StringSort(), z3.BoolSort())(v.t))
            if isinstance(v, SStr): return SBool(z3.Length(v.t) > 0)
            if isinstance(v, SObj):
                if v.kind in ("datetime", "date", "time"): return True
                return SBool(self.uf("truth_" + v.kind, z3.IntSort(), z3.BoolSort())(v.t))
            r = self.models.sym_truth(self, v)
            if r is not None: return r
            raise Unsupported("truth of %r" % (v,))
        if isinstance(v, self.models.LazyInstance) and hasattr(v, "truth"): return v.truth(self)
        if id(v) in self.maps: return self.truth_term(self.maps[id(v)])
        cls = type(v)
        if isinstance(v, (IFunc, SymMethod)): return True
        for nm in ("__bool__", "__len__"):
            for k in cls.__mro__:
                if nm in k.__dict__:
                    f = k.__dict__[nm]
                    if isinstance(f, types.FunctionType) and self.interpretable(f):
                        return self.truth_term(self.call(f, [v]))
                    return bool(v)
        return bool(v)
    # ------------------------------------------------------------ function calls
    def interpretable(self, fn):
        return fn.__code__.co_filename.startswith(self.interp_prefixes)
    def raise_(self, cls, *args):
        raise PyRaise(cls(*args))
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, IFunc):
            h = self.summaries.get(f.__qualname__)
            if h:
                r = h(self, args, kwargs)
                if r is not NotImplemented: return r
            h = self.ghost.get("calls")
            if h:
                r = h(self, f, args, kwargs)
                if r is not NotImplemented: return r
            return self.call_node(f.node, f.frame.globals, args, kwargs, f.defaults, f.kwdefaults, parent=f.frame, qualname=f.__qualname__)
        if isinstance(f, SymMethod):
            return self.models.call_sym_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        try: h = self.summaries.get(f)
        except TypeError: h = None
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented: return r      # NotImplemented: the summary does not apply to these arguments
        if isinstance(f, types.FunctionType):
            m = self.models.FUNCS.get(f)
            if m is not None: return m(self, args, kwargs)
            if self.interpretable(f):
                self.stats["functions"].add(f.__module__ + ":" + f.__qualname__)
                node = fn_node(f)
                cells = {}
                if f.__closure__:
                    cells = dict(zip(f.__code__.co_freevars, f.__closure__))
                return self.call_node(node, f.__globals__, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, cells=cells, qualname=f.__module__ + ":" + f.__qualname__, fn=f)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        if isinstance(f, Sym):
            return self.models.call_sym(self, f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        m = self.models.builtin_model(self, f)
        if m is not None: return m(self, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinMethodType)):
            return self.models.call_builtin_method(self, f, args, kwargs)
        cls = type(f)
        for k in cls.__mro__:
            if "__call__" in k.__dict__ and isinstance(k.__dict__["__call__"], types.FunctionType):
                return self.call(k.__dict__["__call__"], [f] + args, kwargs)
        return self.native(f, args, kwargs)
    def native(self, f, args, kwargs):
        if self.models.has_sym(args) or self.models.has_sym(list(kwargs.values())):
            raise Unsupported("call of external %s with symbolic arguments" % (getattr(f, "__qualname__", f),))
        try:
            return f(*args, **kwargs)
        except (Unsupported, Infeasible, PathEnd, PyRaise): raise
        except Exception as e:
            raise PyRaise(e)
    def call_class(self, cls, args, kwargs):
        m = self.models.CLASSES.get(cls)
        if m is not None: return m(self, args, kwargs)
        init = None
        for k in cls.__mro__:
            if "__init__" in k.__dict__: init = k.__dict__["__init__"]; break
        if isinstance(init, types.FunctionType) and self.interpretable(init):
            try: obj = cls.__new__(cls)
            except TypeError: raise Unsupported("cannot construct %r" % cls)
            self.call(init, [obj] + args, kwargs)
            return obj
        if issubclass(cls, BaseException):
            try: return cls(*args)
            except Exception as e: raise PyRaise(e)
        if init is object.__init__ and not args and not kwargs:
            return cls.__new__(cls)
        return self.native(cls, args, kwargs)
    def bind(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            self.raise_(TypeError, "%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args)))
        for n, v in zip(pos, args): loc[n] = v
        if a.vararg: loc[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kwargs):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in loc: self.raise_(TypeError, "%s() got multiple values for argument %r" % (name, n))
                loc[n] = kwargs.pop(n)
        if a.kwarg: loc[a.kwarg.arg] = kwargs
        elif kwargs: self.raise_(TypeError, "%s() got an unexpected keyword argument" % name)
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j >= 0: loc[n] = defaults[j]
                else: self.raise_(TypeError, "%s() missing required positional argument: %r" % (name, n))
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in kwdefaults: loc[x.arg] = kwdefaults[x.arg]
                else: self.raise_(TypeError, "missing keyword argument %r" % x.arg)
        return loc
    def call_node(self, node, globs, args, kwargs, defaults, kwdefaults, parent=None, cells=None, qualname="?", fn=None):
        name = getattr(node, "name", "<lambda>")
        fr = Frame(node, globs, parent, cells, qualname, fn)
        fr.locals = self.bind(node, args, kwargs, defaults, kwdefaults, name)
        if args: fr.self_arg = args[0]
        self.call_depth += 1
        if self.call_depth > 300: raise Unsupported("call depth (recursion without contract?) in %s" % qualname)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if is_generator_node(node):
                return self.models.run_generator(self, node, fr)
            try:
                self.exec_block(node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.call_depth -= 1
    # ------------------------------------------------------------ names
    def load(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.locals and not (first and name in f.globaldecl):
                v = f.locals[name]
                if isinstance(v, Poison): raise Unsupported("value of local %r after a loop is not given by its invariant" % name)
                if v is UNDEF: self.raise_(UnboundLocalError, name)
                return v
            if first and name in f.localnames:
                self.raise_(UnboundLocalError, name)
            if name in f.cells:
                try: return f.cells[name].cell_contents
                except ValueError: self.raise_(NameError, name)
            if name in f.globaldecl: break
            first = False
            f = f.parent
        if name in fr.globals: return fr.globals[name]
        b = fr.globals.get("__builtins__", builtins)
        b = b if isinstance(b, dict) else vars(b)
        if name in b: return b[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, name)
    def store(self, name, v, fr):
        if name in fr.globaldecl: raise Unsupported("assignment to global %s" % name)
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals: f.locals[name] = v; return
                f = f.parent
            raise Unsupported("nonlocal %s" % name)
        fr.locals[name] = v
    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts: self.exec(s, fr)
    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s in %s line %d" % (type(s).__name__, fr.qualname, s.lineno))
        m(s, fr)
    def x_Pass(self, s, fr): pass
    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, fr)
    def x_Return(self, s, fr): raise _Return(self.eval(s.value, fr) if s.value else None)
    def x_Break(self, s, fr): raise _Break()
    def x_Continue(self, s, fr): raise _Continue()
    def x_Global(self, s, fr): pass
    def x_Nonlocal(self, s, fr): pass
    def x_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]: mod = getattr(mod, p)
                self.store(a.asname, mod, fr)
            else: self.store(a.name.split(".")[0], mod, fr)
    def x_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get("__package__") or fr.globals.get("__name__")
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg if s.level else None)
        for a in s.names:
            try: v = getattr(mod, a.name)
            except AttributeError:
                v = importlib.import_module(mod.__name__ + "." + a.name)
            self.store(a.asname or a.name, v, fr)
    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def x_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)
    def x_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.load(s.target.id, fr)
            self.store(s.target.id, self.inplace(op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.inplace(op, cur, self.eval(s.value, fr)))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.eval_slice(s.target.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(s.value, fr)))
        else: raise Unsupported("augassign")
    def inplace(self, op, a, b):
        if op == "Add" and isinstance(a, list):
            self.call(a.extend, [b]); return a
        return self.models.binop(self, op, a, b, inplace=True)
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.iterate_list(v)
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1: self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]): self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]): self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                self.raise_(ValueError, "unpack: expected %d, got %d" % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals): self.assign(e, x, fr)
        else: raise Unsupported("assignment target")
    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr), self.eval_slice(t.slice, fr))
            else: raise Unsupported("del target")
    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)): self.exec_block(s.body, fr)
        else: self.exec_block(s.orelse, fr)
    def x_Assert(self, s, fr):
        name = None
        if s.msg is not None:
            name = self.eval(s.msg, fr)
        if fr.fn is not None and getattr(fr.fn, "__pyvc_harness__", None) is not None or (isinstance(name, str) and name.startswith("VC:")):
            c = self.truth_term(self.eval(s.test, fr))
            self.prove(str(name or "line %d" % s.lineno), c)
            return
        if not self.truth(self.eval(s.test, fr)): self.raise_(AssertionError, name)
    def x_Raise(self, s, fr):
        if s.exc is None:
            if fr.cur_exc is None: self.raise_(RuntimeError, "No active exception")
            raise PyRaise(fr.cur_exc)
        e = self.eval(s.exc, fr)
        if isinstance(e, type): e = self.call(e, [])
        raise PyRaise(e)
    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as pr:
                exc = pr.exc
                for h in s.handlers:
                    if h.type is None or self.exc_match(exc, self.eval(h.type, fr)):
                        saved = fr.cur_exc
                        fr.cur_exc = exc
                        if h.name: fr.locals[h.name] = exc
                        try: self.exec_block(h.body, fr)
                        finally:
                            fr.cur_exc = saved
                            if h.name: fr.locals.pop(h.name, None)
                        break
                else: raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)
    def exc_match(self, exc, cls):
        if isinstance(exc, OpaqueError):
            cl = cls if isinstance(cls, tuple) else (cls,)
            if any(c in (Exception, BaseException) for c in cl): return True
            return self.branch(self.models.opaque_exc_is(self, exc, cl))
        return isinstance(exc, cls)
    def x_With(self, s, fr):
        def go(items):
            if not items: self.exec_block(s.body, fr); return
            it = items[0]
            cm = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(cm, "__enter__"), [])
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
            try: go(items[1:])
            except PyRaise as pr:
                if self.truth(self.call(self.getattr(cm, "__exit__"), [type(pr.exc), pr.exc, None])): return
                raise
            except (_Return, _Break, _Continue):
                self.call(self.getattr(cm, "__exit__"), [None, None, None]); raise
            else: self.call(self.getattr(cm, "__exit__"), [None, None, None])
        go(s.items)
    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list): f = self.call(self.eval(d, fr), [f])
        fr.locals[s.name] = f
    def make_func(self, node, fr):
        d = [self.eval(x, fr) for x in node.args.defaults]
        kd = {a.arg: self.eval(x, fr) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return IFunc(node, fr, d, kd)
    # loops
    def loop_spec(self, s, fr):
        no = None
        if fr.node is not None:
            loops = [n for n in ordered_walk(fr.node) if isinstance(n, (ast.For, ast.While, ast.GeneratorExp, ast.ListComp))]
            lp = [n for n in loops if isinstance(n, (ast.For, ast.While))]
            no = lp.index(s) if s in lp else None
        return self.loops.get((fr.qualname, no)), (fr.qualname, no)
    def x_While(self, s, fr):
        spec, key = self.loop_spec(s, fr)
        if spec is None:
            n = 0
            try:
                while True:
                    c = self.truth_term(self.eval(s.test, fr))
                    if isinstance(c, SBool):
                        c2 = z3.simplify(c.t)
                        if not (z3.is_true(c2) or z3.is_false(c2)):
                            # allowed only when the condition is decided by the path condition
                            r1 = self.check(c2)
                            if r1 == z3.unsat: c = False
                            elif self.check(z3.Not(c2)) == z3.unsat: c = True
                            else: raise Unsupported("while loop %s needs an invariant" % (key,))
                        else: c = z3.is_true(c2)
                    if not c: break
                    n += 1
                    if n > 5000: raise Unsupported("while loop %s needs an invariant" % (key,))
                    try: self.exec_block(s.body, fr)
                    except _Continue: pass
                else: pass
            except _Break: return
            self.exec_block(s.orelse, fr)
            return
        spec.run_while(self, s, fr)
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        spec, key = self.loop_spec(s, fr)
        if spec is None and isinstance(it, (self.models.SSeq, self.models.LazyInstance)): spec = getattr(it, "spec", None)
        if spec is not None and spec.wants(self, it):
            spec.run_for(self, s, fr, it); return
        n = 0
        try:
            for v in self.iterate(it, key):
                n += 1
                if n > 5000: raise Unsupported("for loop %s too long" % (key,))
                self.assign(s.target, v, fr)
                try: self.exec_block(s.body, fr)
                except _Continue: pass
        except _Break: return
        self.exec_block(s.orelse, fr)
    def iterate(self, it, key=None):
        """python iterator over a value whose length is concrete"""
        return self.models.iterate(self, it, key)
    def iterate_list(self, it):
        return list(self.iterate(it))
    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s in %s" % (type(e).__name__, fr.qualname))
        return m(e, fr)
    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.load(e.id, fr)
    def e_Attribute(self, e, fr): return self.getattr(self.eval(e.value, fr), e.attr)
    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return self.elts(e.elts, fr)
    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(self.iterate_list(self.eval(x.value, fr)))
            else: out.append(self.eval(x, fr))
        return out
    def e_Set(self, e, fr): return self.models.make_set(self, self.elts(e.elts, fr))
    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in self.models.dict_items(self, src): self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                d = self.models.dict_store(self, d, kk, self.eval(v, fr))
        return d
    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr); b = self.eval(e.right, fr)
        return self.models.binop(self, type(e.op).__name__, a, b)
    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t.t))
        return self.models.unop(self, op, v)
    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if is_and and not t: return v
            if not is_and and t: return v
        return v
    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.models.compare(self, type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res): return res
            left = right
        return res
    def e_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.truth(self.eval(e.test, fr)) else self.eval(e.orelse, fr)
    def e_Yield(self, e, fr):
        """hand a value to the consumer (proofs/<prop>.py says what it may do meanwhile)"""
        h = self.ghost.get("on_yield")
        if h is None: raise Unsupported("yield")
        return h(self, self.eval(e.value, fr) if e.value else None, fr)
    def e_Lambda(self, e, fr): return self.make_func(e, fr)
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store(e.target.id, v, fr)
        return v
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.locals:
            if e.args: c, o = self.eval(e.args[0], fr), self.eval(e.args[1], fr)
            else:
                f = fr
                while f is not None and "__class__" not in f.cells: f = f.parent
                if f is None: raise Unsupported("super() without class cell")
                c, o = f.cells["__class__"].cell_contents, f.self_arg
            return SuperProxy(c, o)
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr) if not any(isinstance(a, ast.Starred) for a in e.args) else self.call_args(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                for kk, vv in self.models.dict_items(self, v): kwargs[kk] = vv
            else: kwargs[k.arg] = v
        if isinstance(args, self.models.SymArgs):
            return self.models.call_symargs(self, f, args, kwargs)
        if f is locals or f is vars: raise Unsupported("locals()")
        return self.call(f, args, kwargs)
    def call_args(self, es, fr):
        out = []
        for i, x in enumerate(es):
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if isinstance(v, SObj) and v.kind == "tuple" and z3.is_app(v.t) and v.t.decl().name() == "tuple_key": v = self.models.SList(v.t.arg(0))
                if self.models.is_symseq(v):
                    if i != len(es) - 1: raise Unsupported("symbolic *args before other arguments")
                    return self.models.SymArgs(out, v)
                out.extend(self.iterate_list(v))
            else: out.append(self.eval(x, fr))
        return out
    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_slice(e.slice, fr))
    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: self.eval(x, fr) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, fr)
    def e_Slice(self, s, fr): return self.eval_slice(s, fr)
    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                if v.format_spec is not None: raise Unsupported("format spec")
                parts.append(self.call(str, [self.eval(v.value, fr)]))
        out = ""
        for p in parts: out = self.models.binop(self, "Add", out, p)
        return out
    def comp(self, e, fr, emit):
        inner = Frame(None, fr.globals, fr, fr.cells, fr.qualname, fr.fn)
        inner.localnames = set()
        inner.node = fr.node
        def go(i):
            if i == len(e.generators): emit(inner); return
            g = e.generators[i]
            it = self.eval(g.iter, fr if i == 0 else inner)
            n = 0
            for v in self.iterate(it, (fr.qualname, "comprehension")):
                n += 1
                if n > 5000: raise Unsupported("comprehension too long")
                self.assign(g.target, v, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs): go(i + 1)
        go(0)
    def e_ListComp(self, e, fr):
        r = self.models.sym_comprehension(self, e, fr)
        if r is not None: return r
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return out
    def e_GeneratorExp(self, e, fr):
        r = self.models.sym_comprehension(self, e, fr)
        if r is not None: return r
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return self.models.Gen(out)
    def e_SetComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        return self.models.make_set(self, out)
    def e_DictComp(self, e, fr):
        r = self.models.sym_dictcomp(self, e, fr)
        if r is not None: return r
        d = {}
        def emit(f):
            nonlocal d
            k = self.eval(e.key, f)
            d = self.models.dict_store(self, d, k, self.eval(e.value, f))
        self.comp(e, fr, emit)
        return d
    # ------------------------------------------------------------ objects
    def getattr(self, o, name):
        if isinstance(o, Sym): return self.models.sym_getattr(self, o, name)
        if isinstance(o, SuperProxy):
            mro = type(o.obj).__mro__ if not isinstance(o.obj, type) else o.obj.__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    f = k.__dict__[name]
                    if isinstance(f, types.FunctionType): return types.MethodType(f, o.obj)
                    if isinstance(f, classmethod): return types.MethodType(f.__func__, o.obj if isinstance(o.obj, type) else type(o.obj))
                    if isinstance(f, staticmethod): return f.__func__
                    return self.models.SuperBuiltin(f, o.obj, name)
            self.raise_(AttributeError, name)
        if isinstance(o, self.models.LazyInstance): return o.getattr(self, name)
        if isinstance(o, (IFunc,)):
            if hasattr(o, name): return getattr(o, name)
            self.raise_(AttributeError, name)
        if isinstance(o, (types.ModuleType, type)):
            try: return getattr(o, name)
            except AttributeError as e: raise PyRaise(e)
        if id(o) in self.maps and name in self.models.MAP_METHODS and type(o).__mro__ and not self._py_defined(type(o), name):
            return SymMethod(o, name)
        cls = type(o)
        for k in cls.__mro__:
            if name in k.__dict__:
                f = k.__dict__[name]
                if isinstance(f, property):
                    return self.call(f.fget, [o])
                break
        else: f = None
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict) and name in d: return d[name]
        if isinstance(f, types.FunctionType): return types.MethodType(f, o)
        try: return getattr(o, name)
        except AttributeError as e: raise PyRaise(e)
    def _py_defined(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__: return isinstance(k.__dict__[name], types.FunctionType)
        return False
    def setattr(self, o, name, v):
        if isinstance(o, Sym): raise Unsupported("attribute store on %r" % o)
        self.models.log_write(self, o, name)
        if isinstance(o, self.models.LazyInstance): o.setattr(self, name, v); return
        for k in type(o).__mro__:
            f = k.__dict__.get(name)
            if isinstance(f, property):
                if f.fset is None: self.raise_(AttributeError, name)
                self.call(f.fset, [o, v]); return
            if name == "__setattr__": break
        if isinstance(o, (types.ModuleType, type)):
            h = self.ghost.get("global_writes")
            if h is not None: h.append((o, name, v)); return
            if isinstance(o, types.ModuleType): raise Unsupported("write to module attribute %s" % name)
        if isinstance(o, (type, threading.local)):     # shared state: undone at the end of the path
            missing = object()
            old = vars(o).get(name, missing)
            self.undo.append(lambda: delattr(o, name) if old is missing else setattr(o, name, old))
            setattr(o, name, v); return
        object.__setattr__(o, name, v)
    def getitem(self, o, k): return self.models.getitem(self, o, k)
    def setitem(self, o, k, v): return self.models.setitem(self, o, k, v)

def ordered_walk(node):
    """pre-order walk in source order, not entering nested functions"""
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        yield c
        yield from ordered_walk(c)
