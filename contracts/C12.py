"""C12  JSON path reads, writes and removals address exactly one location."""
import copy, json
from pyvc.api import *
from contracts import sqlrun
from syncanysql.calculaters.mysql_funcs import json_funcs as JF

P = "C12"
F = "syncanysql/calculaters/mysql_funcs/json_funcs.py:"
NAMES = ["a", "b", "c", "x.y", "k]", "a b", "日", "0", ""]
# ---- concrete documents and paths
def document(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.25: return rng.choice([None, 0, 1, -2.5, True, False, "", "abc", "x", 7])
    if r < 0.6: return {rng.choice(NAMES): document(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    if rng.random() < 0.15: return [rng.choice([0, 1, None, 'x', {'a': i}, [i]]) for i in range(rng.randint(4, 12))]
    return [document(rng, depth - 1) for _ in range(rng.randint(0, 3))]
def container(rng):
    d = document(rng)
    while not isinstance(d, (dict, list)): d = document(rng)
    return d
def written(steps, rng):
    """a path in its written form"""
    out = ""
    for i, s in enumerate(steps):
        if isinstance(s, int): out += "[%d]" % s
        elif s and not set(s) & set('.[]" *') and rng.random() < 0.7: out += "." + s
        else: out += '["%s"]' % s
    start = rng.choice(["$", "$", "$", ""])
    if not start and out.startswith("."): out = out[1:]
    return start + out
def some_path(rng):
    return [rng.choice([0, 1, 2, 3]) if rng.random() < 0.4 else rng.choice(NAMES) for _ in range(rng.randint(0, 4))]
def path_in(doc, rng):
    """mostly a path that exists, sometimes with a twist"""
    steps = []
    while isinstance(doc, (dict, list)) and doc and rng.random() < 0.85:
        k = rng.choice(list(doc)) if isinstance(doc, dict) else rng.randrange(len(doc))
        steps.append(k); doc = doc[k]
    r = rng.random()
    if r < 0.2: steps.append(rng.choice([0, 1, "a", "new"]))
    elif r < 0.3: steps = some_path(rng)
    elif r < 0.4 and steps: steps[-1] = rng.choice([0, 1, 2, 3, "a", "zz"])
    return steps
def doc_and_paths(rng):
    d = container(rng)
    return (d, inner(written(path_in(d, rng), rng)), inner(written(path_in(d, rng), rng)))
# ---- specification
def inner(path):
    if path[:2] == "$.": return path[2:]
    return path[1:] if path[:1] == "$" else path
def steps_of(path): return JF.parse_json_path(inner(path))
def plain(steps):
    """SPEC: no step is the wildcard, so the path addresses one location"""
    return "*" not in steps
def down(doc, step):
    """(found, value) one step into a document; an index into a text is its character"""
    if isinstance(step, int): return (True, doc[step]) if isinstance(doc, (list, str)) and step < len(doc) else (False, None)
    return (True, doc[step]) if isinstance(doc, dict) and step in doc else (False, None)
def located(doc, steps, n):
    """SPEC: (found, value) after the first n steps"""
    for s in steps[:n]:
        found, doc = down(doc, s)
        if not found: return (False, None)
    return (True, doc)
def parting(p, q, n):
    """SPEC: the first position below n where q takes another step than p; n - 1 when there is none; -1 when q ends earlier"""
    for i in range(n):
        if i >= len(q): return -1
        if not same(p[i], q[i]): return i
    return n - 1
def snapshot(found): return copy.deepcopy(found)
def moved(q, at, by):
    """SPEC: q with the index at one position changed"""
    return q[:at] + [q[at] + by] + q[at + 1:]
def alike(a, b):
    """same value, as seen later"""
    return same(a, b)
def identical(a, b):
    """SPEC: the very same value"""
    return a is b
class Missing: pass
Doc = lambda: Custom("document", container, lambda: [{"a": {"b": [1, {"c": 2}]}, "b": [10, [20, 30]], "n": None}, [[1, 2], {"a": [3]}], {}, []])
Start = lambda: Choice("$.", "$", "")
Case = lambda: Custom("docpaths", doc_and_paths)

@contract(P, {"c": Case(), "start": Start()}, targets=[F + "get_json_path_value"])
def reading(c, start):
    doc, body, _ = c
    path = start + body
    assume(inner(path) == body)
    p = steps_of(path)
    assume(plain(p))
    found, value = located(doc, p, len(p))
    got = outcome(JF.get_json_path_value, doc, path, Missing)
    assert got[0] == "ok", "reading a path never fails"
    if found: assert identical(got[1], value), "the value read is the one at the location"
    else: assert got[1] is Missing, "a step that is missing or of the wrong kind"
@contract(P, {"c": Case(), "start": Start()}, targets=[F + "get_json_path_value"])
def reading_null(c, start):
    doc, body, _ = c
    path = start + body
    assume(inner(path) == body)
    p = steps_of(path)
    assume(plain(p) and not located(doc, p, len(p))[0])
    assert JF.get_json_path_value(doc, path) is None, "NULL for a missing location"
@contract(P, {"c": Case(), "start": Start(), "v": Custom("value", lambda rng: rng.choice([5, "v", None, [1], {"z": 1}]))}, weight=3, split="start", targets=[F + "set_json_path_value", F + "get_json_path_value"])
def setting(c, start, v):
    doc, body, other = c
    path = start + body
    assume(inner(path) == body)
    p, q = steps_of(path), JF.parse_json_path(other)
    n = len(p)
    assume(plain(p) and plain(q) and n >= 1)
    last = p[n - 1]
    found, parent = located(doc, p, n - 1)
    writable = found and (isinstance(last, int) and isinstance(parent, list) or isinstance(last, str) and isinstance(parent, dict))
    d = parting(p, q, n)
    before = snapshot(located(doc, q, len(q)))
    size = len(parent) if writable and isinstance(last, int) else 0
    JF.set_json_path_value(doc, path, v)
    if writable and not (isinstance(last, int) and last > size): assert identical(JF.get_json_path_value(doc, path, Missing), v), "the value set is read back"
    if not writable: assert alike(located(doc, q, len(q)), before), "setting a path without a parent changes nothing"
    elif d >= 0 and (d < n - 1 or not same(q[d], last)) and not (isinstance(last, int) and d == n - 1 and isinstance(q[d], int) and q[d] >= size):
        assert alike(located(doc, q, len(q)), before), "every other location keeps its value"
@contract(P, {"c": Case(), "start": Start()}, weight=3, split="start", targets=[F + "remove_json_path_value", F + "get_json_path_value"])
def removing(c, start):
    doc, body, other = c
    path = start + body
    assume(inner(path) == body)
    p, q = steps_of(path), JF.parse_json_path(other)
    n = len(p)
    assume(plain(p) and plain(q) and n >= 1)
    last = p[n - 1]
    found, parent = located(doc, p, n - 1)
    exists = located(doc, p, n)[0]
    there = exists and not isinstance(parent, str)
    d = parting(p, q, n)
    assume(d >= 0 or not there)
    in_array = there and d == n - 1 and isinstance(last, int) and isinstance(q[d], int)
    shifts = in_array and q[d] >= last
    before = snapshot(located(doc, moved(q, d, 1), len(q))) if shifts else snapshot(located(doc, q, len(q)))
    JF.remove_json_path_value(doc, path)
    if not there: assert alike(located(doc, q, len(q)), before), "removing a missing path changes nothing"
    elif d == n - 1 and isinstance(last, str) and same(q[d], last): assert JF.get_json_path_value(doc, "$." + other, Missing) is Missing, "what was removed is gone"
    elif shifts: assert alike(located(doc, q, len(q)), before), "the later elements of the array move up by one"
    else: assert alike(located(doc, q, len(q)), before), "every other location keeps its value"

# ---- written paths (bounded) and the SQL functions
@contract(P, {"c": Custom("steps", lambda rng: (lambda s: (s, written(s, rng)))(some_path(rng)))}, bounded_only=True, cases=1500, bound="seeded paths of at most 4 steps", targets=[F + "parse_json_path"])
def path_text(c):
    steps, path = c
    assert same(JF.parse_json_path(inner(path)), steps), "a written path has the steps it names"
def depth_of(d):
    if isinstance(d, dict) and d: return 1 + max([depth_of(v) for v in d.values()])
    if isinstance(d, list) and d: return 1 + max([depth_of(v) for v in d])
    return 1
def contains(t, c):
    if isinstance(t, list) and isinstance(c, list): return all([any([contains(x, y) for x in t]) for y in c])
    if isinstance(t, list): return any([contains(x, c) for x in t])
    if isinstance(t, dict): return isinstance(c, dict) and all([k in t and contains(t[k], c[k]) for k in c])
    return isinstance(t, bool) == isinstance(c, bool) and t == c
@contract(P, {"c": Case(), "start": Start(), "e": Custom("candidate", document), "as_text": Bool()}, bounded_only=True, cases=1500, bound="seeded documents of depth at most 4",
          targets=[F + "mysql_json_" + n for n in ("extract", "set", "remove", "contains", "contains_path", "depth", "keys", "length", "valid")])
def functions(c, start, e, as_text):
    doc, body, other = c
    path = start + body
    assume(inner(path) == body)
    p, q = steps_of(path), JF.parse_json_path(other)
    arg = json.dumps(doc) if as_text else doc
    kept = copy.deepcopy(doc)
    found, value = located(doc, p, len(p))
    found2, value2 = located(doc, q, len(q))
    call = lambda name, *a: getattr(JF, "mysql_json_" + name)(*a)
    assert same(call("extract", arg, path), value), "JSON_EXTRACT"
    assert same(call("extract", arg, path, other), [value, value2]), "JSON_EXTRACT of several paths"
    assert call("length", arg, path) == (len(value) if isinstance(value, (list, dict)) else 0), "JSON_LENGTH"
    assert call("keys", arg, path) == (list(value) if isinstance(value, dict) else []), "JSON_KEYS"
    assert call("depth", arg) == depth_of(doc), "JSON_DEPTH"
    assert call("contains_path", arg, "one", path, other) == int(found or found2), "JSON_CONTAINS_PATH one"
    assert call("contains_path", arg, "all", path, other) == int(found and found2), "JSON_CONTAINS_PATH all"
    assert call("contains", arg, json.dumps(e), path) == int(found and contains(value, e)), "JSON_CONTAINS"
    if found: assert call("contains", arg, json.dumps(value), path) == 1, "JSON_CONTAINS of the value itself"
    assert call("valid", arg) == 1, "JSON_VALID"
    want = copy.deepcopy(doc)
    JF.set_json_path_value(want, path, e)
    assert same(call("set", arg, path, e), want), "JSON_SET"
    want = copy.deepcopy(doc)
    JF.remove_json_path_value(want, path)
    assert same(call("remove", arg, path), want), "JSON_REMOVE"
    assert same(doc, kept), "the document given is not changed"
