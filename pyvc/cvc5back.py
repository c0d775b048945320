"""Second back end: the VC printed as SMT-LIB 2 and given to the cvc5 binary."""
import subprocess, tempfile, os, shutil
import z3

def check_unsat(assertions, goal_negation, timeout_s=20):
    exe = shutil.which("cvc5")
    if not exe: return "absent"
    s = z3.Solver()
    for a in assertions: s.add(a)
    s.add(goal_negation)
    txt = "(set-logic ALL)\n(set-option :strings-exp true)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([exe, "--lang=smt2", "--tlimit=%d" % (timeout_s * 1000), f.name], capture_output=True, text=True, timeout=timeout_s + 5)
        out = p.stdout.strip().split("\n")[0]
        return out if out in ("sat", "unsat", "unknown") else "error " + (p.stderr or p.stdout)[:200]
    except subprocess.TimeoutExpired: return "timeout"
    finally: os.unlink(f.name)
