"""mathematical lemmas over the specifications, checked by Lean (with Mathlib) on every run"""
import os
import re
import subprocess
import time

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")


def lean(fname, theorems, what):
    """one entry per theorem; a theorem counts only if Lean accepts the whole file and it rests on no sorry or own axiom"""
    path = os.path.join(DIR, fname)
    text = open(path).read()
    tail = "".join("\n#print axioms %s" % t for t in theorems) + "\n"
    t0 = time.time()
    try:
        p = subprocess.run(["lean", "--stdin"], input=text + tail, capture_output=True, text=True, timeout=400, cwd="/tmp")
        out, rc = p.stdout + p.stderr, p.returncode
    except (OSError, subprocess.TimeoutExpired) as e:
        out, rc = str(e), -1
    res = []
    for t in theorems:
        m = re.search(r"'%s' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)" % re.escape(t), out)
        ax = set((m.group(2) or "").replace(",", " ").split()) if m else {"?"}
        ok = rc == 0 and ax <= {"propext", "Classical.choice", "Quot.sound"}
        res.append({"name": "%s:%s" % (fname, t), "backend": "lean", "ok": ok, "what": what, "time": round(time.time() - t0, 1),
                    "output": "" if ok else out[:1500]})
    return res
