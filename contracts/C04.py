"""C04  Configuration layers merge predictably and sessions stay isolated."""
import copy, json
from pyvc.api import *
from contracts import sqlrun
from syncany.taskers.core import CoreTasker
from syncanysql.config import GlobalConfig, SessionConfig
from syncanysql.taskers.set import SetCommandTasker

P = "C04"
F = "syncanysql/config.py:"
SECTIONS = ("arguments", "imports", "defines", "variables", "sources", "logger", "options")
RAW, PARSED = ("imports", "sources"), ("defines", "variables", "options")

# ---- the specification: layers are values
def plain(v):
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list): return [plain(x) for x in v]
    return v
def field(value):
    """JSON text as the value it denotes, anything else as it is"""
    try: return json.loads(value)
    except Exception: return value
def named(entries, name, entry):
    """the named entry replaced by entry, added, or removed when entry is None"""
    if entry is None: return [e for e in entries if e["name"] != name]
    if not [e for e in entries if e["name"] == name]: return entries + [entry]
    return [entry if e["name"] == name else e for e in entries]
def lookup(entries, name):
    found = [e for e in entries if e["name"] == name]
    return found[0] if found else None
def put(layer, key, value):
    """a layer after setting (value None: unsetting) key"""
    layer = dict(layer)
    if len(key) == 1:
        layer.pop(key[0], None)
        if value is not None: layer[key[0]] = value
    elif key[0] == "databases":
        entries = layer.get("databases") or []
        old = lookup(entries, key[1])
        if value is None and old is None: return layer
        entry = dict(old or {"name": key[1]})
        if len(key) == 2: entry = None if value is None else {"name": key[1], **json.loads(value)}
        elif key[2] == "virtual_views" and len(key) > 3:
            views = entry.get("virtual_views") or []
            view = lookup(views, key[3])
            if value is None and view is None: return layer
            view = dict(view or {"name": key[3], "query": "", "args": []})
            if len(key) == 4:
                if value is None: view = None
                else: view["query"], view["args"] = GlobalConfig.parse_virtual_view_args(None, value)
            elif value is None: view.pop(key[4], None)
            else: view[key[4]] = field(value)
            entry["virtual_views"] = named(views, key[3], view)
        elif value is None: entry.pop(key[2], None)
        else: entry[key[2]] = field(value)
        layer["databases"] = named(entries, key[1], entry)
    elif key[0] == "caches":
        layer["caches"] = named(layer.get("caches") or [], key[1], None if value is None else {**json.loads(value), "name": key[1]})
    elif key[0] in RAW + PARSED:
        section = dict(layer.get(key[0], {}))
        section.pop(key[1], None)
        if value is not None: section[key[1]] = value if key[0] in RAW else field(value)
        layer[key[0]] = section
    return layer
def pipes(v): return [] if not v else v if isinstance(v, list) and not isinstance(v[0], str) else [v]
def many(v): return v if isinstance(v, list) else [v]
def overlay(base, own):
    """the configuration base overlaid by own"""
    out = dict(base)
    for k, v in own.items():
        if k in SECTIONS:
            if isinstance(v, dict) and isinstance(base.get(k, {}), dict): out[k] = {**base.get(k, {}), **v}
        elif k in ("databases", "caches"):
            if isinstance(v, list) and isinstance(base.get(k, []), list):
                entries = base.get(k, [])
                for d in v:
                    old = lookup(entries, d["name"])
                    new = {**(old or {}), **d}
                    if old and old.get("virtual_views") and d.get("virtual_views"):
                        views = old["virtual_views"]
                        for view in d["virtual_views"]: views = named(views, view["name"], view)
                        new["virtual_views"] = views
                    entries = named(entries, d["name"], new)
                out[k] = entries
        elif k == "pipelines": out[k] = pipes(base.get(k)) + pipes(v)
        elif k in ("states", "executes"): out[k] = many(base[k]) + many(v) if isinstance(base.get(k), list) and base[k] else many(v)
        else: out[k] = v
    return out
def canon(c):
    """configurations up to the order of named entries; a missing named list and an empty one are the same"""
    c = {k: v for k, v in c.items() if not (k in ("databases", "caches") and not v)}
    for k in ("databases", "caches"):
        if isinstance(c.get(k), list): c[k] = {e["name"]: {f: ({w["name"]: w for w in x} if f == "virtual_views" and isinstance(x, list) else x) for f, x in e.items() if not (f == "virtual_views" and not x)} for e in c[k]}
    return c
def same_config(a, b): return canon(a) == canon(b)
def default(): return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)

# ---- generators
NAMES = ["a", "b", "ab", "A"]
def scalar(rng): return rng.choice([1, 0, "x", "1", "true", "[1]", "é", True, 2.5, '{"k": 1}', "", "a.b"])
def view(rng, n): return {"name": n, "query": rng.choice(["select 1", "select 2"]), "args": []}
def database(rng, n):
    d = {"name": n, **{k: scalar(rng) for k in rng.sample(["driver", "path", "port"], rng.randint(0, 2))}}
    if rng.random() < 0.5: d["virtual_views"] = [view(rng, v) for v in rng.sample(NAMES, rng.randint(0, 3))]
    return d
def layer_gen(rng):
    c = default()
    for k in rng.sample(list(c) + ["logger", "executes", "encoding", "date_format"], rng.randint(0, 6)):
        if k in SECTIONS: c[k] = {n: scalar(rng) for n in rng.sample(NAMES, rng.randint(0, 3))}
        elif k == "databases": c[k] = [database(rng, n) for n in rng.sample(NAMES, rng.randint(0, 3))]
        elif k == "caches": c[k] = [{"name": n, "database": scalar(rng)} for n in rng.sample(NAMES, rng.randint(0, 3))]
        elif k == "pipelines": c[k] = rng.choice([[], ["a", "b"], [["a"], ["b"]], "p"])
        elif k in ("states", "executes"): c[k] = [rng.choice(NAMES) for _ in range(rng.randint(0, 2))]
        elif k in ("encoding", "date_format", "name", "input"): c[k] = scalar(rng)
    for k in rng.sample(["databases", "imports", "options", "caches", "states"], rng.choice([0, 0, 0, 1])): c.pop(k, None)
    return c
def key_value(rng):
    n = lambda: rng.choice(NAMES)
    v = None if rng.random() < 0.3 else scalar(rng)
    obj = None if rng.random() < 0.3 else json.dumps({k: scalar(rng) for k in rng.sample(["driver", "path"], rng.randint(0, 2))})
    return rng.choice([(("encoding",), v), (("date_format",), v), (("databases", n()), obj), (("databases", n()), obj), (("databases", n(), rng.choice(["driver", "path", "port"])), v),
        (("databases", n(), "virtual_views", n()), None if rng.random() < 0.3 else rng.choice(["select 3", "select #{x}", "select #{x:1} and #{y__gt:2}"])), (("databases", n(), "virtual_views", n(), rng.choice(["query", "args"])), v),
        (("caches", n()), obj), ((rng.choice(RAW + PARSED), n()), v), ((rng.choice(RAW + PARSED), n()), v)])
Layer = lambda: Custom("layer", layer_gen)
KeyValue = lambda: Custom("key_value", key_value)
def tree_gen(rng):
    return [(rng.choice(["set", "set", "set", "read", "extend"]), rng.randint(0, 3), key_value(rng)) for _ in range(rng.randint(1, 10))]

# ---- function contracts
@contract(P, {"layer": Layer(), "kv": KeyValue(), "text": Bool(), "session": Bool()}, targets=[F + "GlobalConfig.set", F + "SessionConfig.set"], bounded_only=True, cases=6000, bound="seeded layers and keys")
def setting(layer, kv, text, session):
    key, value = kv
    c = GlobalConfig()
    if session: c = SessionConfig(c, c)
    c.config = copy.deepcopy(layer)
    want = put(layer, key, value)
    c.set(".".join(key) if text else key, value)
    assert same_config(c.config, want), "exactly the addressed entry is set or unset"
@contract(P, {"base": Layer(), "own": Layer()}, targets=[F + "GlobalConfig.merge_config"], bounded_only=True, cases=4000, weight=2, bound="seeded pairs of layers")
def merging(base, own):
    c = GlobalConfig()
    c.config = copy.deepcopy(base)
    c.config.setdefault("pipelines", [])
    want = overlay(base, own)
    if "pipelines" not in own: want.setdefault("pipelines", [])
    c.merge_config(copy.deepcopy(own))
    assert same_config(c.config, want), "own settings overlay the base"
@contract(P, {"layers": Custom("layers", lambda rng: [layer_gen(rng) for _ in range(4)]), "ops": Custom("ops", tree_gen)}, targets=[F + "SessionConfig.get", F + "SessionConfig.set", F + "SessionConfig.get_tasker_extend_config"], bounded_only=True, cases=3000, weight=2, bound="seeded histories of up to 10 operations on a global configuration, two sessions and a child session")
def histories(layers, ops):
    g = GlobalConfig()
    a, b = g.session(), g.session()
    nodes = [g, a, b, a.session()]
    parents = [None, 0, 0, 1]
    model = [copy.deepcopy(x) for x in layers]
    for n, x in zip(nodes, layers): n.config = copy.deepcopy(x)
    model[0].setdefault("pipelines", []); g.config.setdefault("pipelines", [])
    def effective(i):
        if parents[i] is None: return model[i]
        return overlay(overlay(default(), effective(parents[i])), model[i])
    def read(i): assert same_config(nodes[i].get(), effective(i)), "a read gives the parent's configuration overlaid by the session's own settings"
    for op, i, (key, value) in ops:
        if op == "set":
            nodes[i].set(key, value)
            model[i] = put(model[i], key, value)
        elif op == "extend" and i:
            x = nodes[i].get_tasker_extend_config()
            assert same_config(x, {k: v for k, v in effective(i).items() if k in SessionConfig.TASKER_EXTEND_KEYS}), "the configuration queries see is the effective one"
        else: read(i)
    for i in (3, 1, 2, 0, 3): read(i)
    for i in range(4): assert same_config(nodes[i].config, model[i]), "no operation changes another layer's own settings"

# ---- proved for arbitrary keys, names and values
@contract(P, {"config": Custom("flat", layer_gen), "key": Str(alphabet="abx_", maxlen=5, extra=["databases", "caches", "imports", "encoding"]), "value": Any, "as_text": Bool(), "session": Bool()}, targets=[F + "GlobalConfig.set", F + "SessionConfig.set"], cases=1500)
def top_level_key(config, key, value, as_text, session):
    assume("." not in key)
    c = SessionConfig(GlobalConfig(), None) if session else GlobalConfig()
    c.config = config
    before = dict(config)
    before.pop(key, None)
    if value is not None: before[key] = value
    c.set(key if as_text else (key,), value)
    assert same_map(c.config, before), "only the addressed key is set or unset"
@contract(P, {"section": Choice(*(RAW + PARSED)), "layer": Custom("sections", layer_gen), "name": Str(alphabet="abx_", maxlen=5, extra=NAMES), "value": Kind("none", "bool", "int", "float", "str"), "as_text": Bool()}, targets=[F + "GlobalConfig.set"], cases=2500, split="section")
def section_entry(section, layer, name, value, as_text):
    assume("." not in name)
    want = {k: dict(v) if k in RAW + PARSED else v for k, v in layer.items()}
    entries = want.get(section, {})
    entries.pop(name, None)
    if value is not None: entries[name] = value if section in RAW else field(value)
    want[section] = entries
    c = GlobalConfig()
    c.config = layer
    c.set(section + "." + name if as_text else (section, name), value)
    assert same_sections(c.config, want), "only the addressed entry of the section is set or unset"
def same_map(a, b): return a == b
def same_sections(a, b): return a == b
@contract(P, {"section": Choice(*SECTIONS), "base": Custom("one_section", layer_gen), "own": Custom("one_section", layer_gen)}, targets=[F + "GlobalConfig.merge_config"], cases=1500, split="section")
def dictionary_sections(section, base, own):
    base, own = {k: v for k, v in base.items() if k == section}, {k: v for k, v in own.items() if k == section}
    want = dict(base)
    if section in own:
        want[section] = dict(base.get(section, {}))
        want[section].update(own[section])
    c = GlobalConfig()
    c.config = base
    c.merge_config(own)
    assert same_sections(c.config, want), "dictionary sections are merged key by key"
@contract(P, {"config": Custom("flat", layer_gen), "key": Str(alphabet="abx_", maxlen=5, extra=["encoding", "name", "datetime_format"]), "value": Any}, targets=[F + "GlobalConfig.merge_config"], cases=1000)
def other_keys(config, key, value):
    assume(key not in SECTIONS and key not in ("databases", "caches", "pipelines", "states", "executes"))
    c = GlobalConfig()
    want = dict(config)
    want[key] = value
    c.config = config
    c.merge_config({key: value})
    assert same_map(c.config, want), "every other key is replaced and nothing else changes"

# ---- reading: own state of the cache is irrelevant
def merged(parent, own): return overlay(overlay(default(), parent), own)
@contract(P, {"parent": Custom("config", layer_gen), "own": Custom("config", layer_gen), "key": Custom("key", lambda rng: key_value(rng)[0]), "value": Custom("set_value", lambda rng: "true"), "how": Choice("nothing", "own", "parent", "both")}, targets=[F + "SessionConfig.get", F + "SessionConfig.set"], cases=2000, split="how")
def reading(parent, own, key, value, how):
    assume(key[0] != "databases" or len(key) > 2)
    assume(key[0] != "caches" and key[0] != "databases")
    p = GlobalConfig()
    p.config = parent
    s = p.session()
    s.config = own
    want = merged(plain(parent), plain(own))
    assert same_config(s.get(), want), "a read gives the parent's configuration overlaid by the session's own settings"
    assert same_config(s.get(), want), "reading again gives the same"
    later, above = own, parent
    if how == "own" or how == "both":
        later = put(own, key, value)
        s.set(key, value)
    if how == "parent" or how == "both": 
        above = put(parent, key, value)
        p.set(key, value)
    assert same_config(p.config, above) and same_config(s.config, later), "reading changes no settings of the session"
    want = merged(plain(above), plain(later))
    assert same_config(s.get(), want), "a read sees every change made to the session and to its parent"

# ---- through the engine
def engine(): return sqlrun.engine()
@contract(P, {"name": Choice("a", "b", "c"), "value": Choice("1", "'x'", "true", "2.5"), "shape": Choice("options", "defines", "variables", "databases", "plain", "caches"), "where": Choice("session", "global")}, bounded_only=True, bound="every combination", targets=["syncanysql/taskers/set.py:SetCommandTasker.set_config"])
def statements(name, value, shape, where):
    g = engine()
    s, other = g.executor.session_config, g.executor.session_config.parent_config.session()
    ctx = g.context()
    path = {"databases": "databases.pyvc_%s.port", "plain": "pyvc_%s"}.get(shape, shape + ".pyvc_%s") % name
    text = "'{\"x\": 1}'" if shape == "caches" else value
    want = {"1": 1, "'x'": "x", "true": True, "2.5": 2.5}[value]
    def read(c):
        c = c.get()
        if shape == "plain": return c.get("pyvc_" + name)
        if shape == "databases": return (lookup(c["databases"], "pyvc_" + name) or {}).get("port")
        if shape == "caches": return (lookup(c["caches"], "pyvc_" + name) or {}).get("x")
        return (c.get(shape) or {}).get("pyvc_" + name)
    try:
        assert [read(c) for c in (s, other, ctx.executor.session_config)] == [None, None, None], "no setting before"
        g.execute("set %s@config.%s=%s" % ("global " if where == "global" else "", path, text))
        w = 1 if shape == "caches" else want
        assert read(s) == w and read(ctx.executor.session_config) == w, "the setting is visible in the session and below it"
        assert read(other) == (w if where == "global" else None), "a session's setting is not visible in another session"
        ctx.execute("set @config.%s=null" % (path if shape != "databases" else "databases.pyvc_" + name))
        assert read(s) == w, "unsetting in a child session leaves the parent as it was"
    finally:
        for c in (s, s.parent_config): c.set("databases.pyvc_" + name if shape == "databases" else path, None)
    assert [read(c) for c in (s, other, ctx.executor.session_config)] == [None, None, None], "unsetting removes the setting"
class Contracted: pass
def some_function(): return 1
@contract(P, {"what": Choice("module", "function", "builtin", "class"), "child": Bool()}, bounded_only=True, targets=[F + "SessionConfig.get"], cases=10, bound="modules, functions and classes")
def imported_objects(what, child):
    value = {"module": json, "function": some_function, "builtin": len, "class": Contracted}[what]
    g = GlobalConfig()
    s = g.session()
    s.set(("imports", "x"), value)
    if child: s = s.session()
    assert s.get()["imports"]["x"] is value and s.get_tasker_extend_config()["imports"]["x"] is value, "an imported object is the object that was set"
