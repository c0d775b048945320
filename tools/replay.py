"""re-runs the failing input of a replay file:  /opt/venv/bin/python -B tools/replay.py FILE"""
import sys, os, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pyvc import bounded
r = json.load(open(sys.argv[1]))
if not r.get("pickle"):
    print(json.dumps(r, indent=1)); sys.exit(1)
res = bounded.replay(r["property"], r["contract"], r["pickle"])
print(r["contract"], "input", r["input"], "->", res["msg"] or "holds")
sys.exit(1 if res["msg"] else 0)
