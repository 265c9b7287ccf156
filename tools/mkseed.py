"""plant one bug: mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)

Writes seeded/ID/{patch.diff, demo.sh, demo.py, meta.json} after confirming in a scratch copy of /repo that the patched
tree builds, passes the stable tests, and that the demo exits 0 without the patch and nonzero with it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
S = runpy.run_path(sys.argv[1])
base = json.load(open("/opt/vp/BASELINE.json"))
tmp = tempfile.mkdtemp(prefix="seed")
work = os.path.join(tmp, "repo")
try:
    shutil.copytree("/repo", work, symlinks=True)
    sd = os.path.join(tmp, "s")
    os.makedirs(sd)
    with open(os.path.join(sd, "demo.py"), "w") as f:
        f.write("import os\nimport sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport numpy as np\n"
                "import padasip as pa\nassert os.path.realpath(pa.__file__).startswith(os.path.realpath(os.getcwd()))\n" + S["DEMO"].lstrip("\n"))
    with open(os.path.join(sd, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(sd, "demo.sh"), 0o755)

    def run(*c, **k):
        return subprocess.run(c, cwd=work, capture_output=True, text=True, timeout=600, **k)
    r = run("bash", os.path.join(sd, "demo.sh"))
    if r.returncode:
        sys.exit("demo fails on the unchanged tree: " + r.stdout[-600:] + r.stderr[-600:])
    for f, old, new in S["EDITS"]:
        p = os.path.join(work, "padasip", f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != S.get("COUNT", 1):
            sys.exit("%s: %d matches of %r" % (f, t.count(old), old))
        open(p, "w", newline="").write(t.replace(old, new))
    d = run("git", "diff").stdout
    d = subprocess.run(["git", "diff"], cwd=work, capture_output=True).stdout
    r = run("bash", os.path.join(sd, "demo.sh"))
    if r.returncode == 0:
        sys.exit("demo passes with the patch")
    print("demo:", (r.stdout + r.stderr).strip().split("\n")[-1][:200])
    env = dict(os.environ, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", PYTHONDONTWRITEBYTECODE="1")
    x = os.path.join(tmp, "j.xml")
    r = run(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-o", "python_files=*.py", "--junitxml=" + x, "tests", env=env)
    import xml.etree.ElementTree as ET
    bad = [c.get("classname") + "::" + c.get("name") for c in ET.parse(x).iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
    tot = len(list(ET.parse(x).iter("testcase")))
    print("tests", tot, "failing", bad[:6])
    if any(not any(k in b for k in ("test_lda",)) for b in bad):
        sys.exit("existing tests fail")
    out = os.path.join(V, "seeded", S["ID"])
    os.makedirs(out, exist_ok=True)
    for f in ("demo.py", "demo.sh"):
        shutil.copy(os.path.join(sd, f), out)
    open(os.path.join(out, "patch.diff"), "wb").write(d)
    json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("planted", S["ID"])
finally:
    shutil.rmtree(tmp)
