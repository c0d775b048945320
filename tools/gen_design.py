"""DESIGN.md = hand-written text (tools/design.py) + tables read from the contracts, findings and seeded changes"""
import ast, glob, json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, "tools"); sys.path.insert(0, ".")
from design import HEAD, PROP, TAIL
from claims import CLAIMED, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
def lit(n):
    try: return ast.literal_eval(n)
    except Exception: return None
def contracts(p):
    f = "contracts/%s.py" % p
    out = []
    if not os.path.exists(f): return out
    for x in ast.parse(open(f).read()).body:
        if not isinstance(x, ast.FunctionDef): continue
        for d in x.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                k = {a.arg: lit(a.value) for a in d.keywords}
                out.append((x.name, bool(k.get("bounded_only")), k.get("bound") or ""))
    return out
find = [l.rstrip("\n") for l in open("known_findings.txt") if l.strip()]
seeds = {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((d.split("/")[1], m))
o = [HEAD]
for p in props:
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    if i not in CLAIMED:
        o.append("Not applicable: %s\n" % NOT_APPLICABLE.get(i, "not built yet")); 
        continue
    o.append(PROP.get(i, "").strip() + "\n")
    cs = contracts(i)
    pr = [c[0] for c in cs if not c[1]]
    if pr: o.append("Contracts discharged deductively: " + ", ".join("`%s`" % c for c in pr) + ".\n")
    bo = [c for c in cs if c[1]]
    if bo: o.append("Bounded, not counted as proved: " + "; ".join("`%s` (%s)" % (c[0], c[2]) for c in bo) + ".\n")
    kn = [l for l in find if l.startswith("KNOWN-FINDING: property=%s " % i)]
    fx = [l.split(" ", 2)[2] for l in find if l.startswith("fixed: property=%s " % i)]
    if fx: o.append("Defects found by the check and repaired: " + "; ".join(fx) + ".\n")
    for l in kn: o.append("Known finding (not repaired): " + l.split(" ", 2)[2] + "\n")
    if i in seeds: o.append("Planted bugs caught by this check: " + "; ".join("`%s` (%s)" % (n, m["needs"]) for n, m in seeds[i]) + ".\n")
o.append(TAIL)
open("DESIGN.md", "w").write("\n".join(o))
