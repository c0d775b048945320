"""plant(id, property, edits, demo, needs, breaks): confirm a planted bug in a scratch copy and keep it under seeded/<id>."""
import os, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys, logging
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd()); logging.disable(logging.CRITICAL)
def engine():
    from syncanysql import ScriptEngine
    e = ScriptEngine(); e.setup(); return e
def query(sql, **tables):
    e = engine()
    for n, rows in tables.items():
        if rows: e.push_memory_datas(n, rows)
    e.execute("insert into `demo_result` " + sql)
    return [dict(r) for r in e.pop_memory_datas("demo_result")]
'''
def sh(cmd, cwd, timeout=300, env=None): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", **(env or {})})
def plant(id, prop, edits, demo, needs, breaks, check=True):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp"); r = os.path.join(d, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        sd = os.path.join(V, "seeded", id); shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        open(os.path.join(sd, "demo.py"), "w").write(HEAD + demo.strip() + "\n")
        open(os.path.join(sd, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        ok = sh(["bash", sd + "/demo.sh"], r)
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) >= 1, (id, f, "old text not found")
            open(p, "w").write(s.replace(old, new, 1))
        bad = sh(["bash", sd + "/demo.sh"], r)
        diff = sh(["git", "diff"], r).stdout
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + d + "/j.xml"], r, 600)
        sh(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/j.xml"], d)
        o = json.load(open(d + "/o.json")); missing = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o["passed"]]
        good = ok.returncode == 0 and bad.returncode != 0 and not missing
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        verdict = ""
        if check:
            c = sh(["python3-vt", "-B", "pyvc/check.py", prop], V, 900, {"PYVC_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            verdict = " | check exit %d: %s" % (c.returncode, "; ".join(l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "# ")))[:300])
        print(id, "COUNTS" if good else "DOES NOT COUNT (clean %d patched %d missing %s) %s %s" % (ok.returncode, bad.returncode, missing, ok.stderr[-400:], ""), verdict, flush=True)
        if not good: shutil.rmtree(sd)
        return good
    finally: shutil.rmtree(d, ignore_errors=True)
