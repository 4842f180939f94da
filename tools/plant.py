"""Development tool: confirm planted changes and keep them in seeded/.

python3 tools/plant.py FILE.py [id ...]

FILE.py defines BUGS: {id: dict(prop, edits=[(file, old, new)], needs, breaks,
demo)}.  For each one a copy of /repo is changed, the test suite and the
demonstration are run, and the property's quick check is tried on the copy.
"""
import json, os, re, runpy, shutil, subprocess, sys

ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0",
                       "HEAD"], capture_output=True, text=True).stdout.split()[0]
OUT = "/verif/seeded"
HEAD = '''import warnings

warnings.simplefilter("ignore")
import pandas as pd
import pyomo.environ as po
from oemof import solph
from oemof.solph import Bus, EnergySystem, Flow, Investment, Model, NonConvex
from oemof.solph import components as cmp
from oemof.solph import constraints as con


def near(a, b, tol=1e-4):
    assert abs(a - b) <= tol * max(1, abs(b)), (a, b)


def hours(n, **kw):
    return EnergySystem(
        timeindex=list(range(n + 1)), infer_last_interval=False, **kw)


def status(m):
    """what the solver says: True (optimum), False (infeasible)"""
    import logging
    logging.getLogger("pyomo").setLevel(logging.ERROR)
    try:
        m.solve("cbc")
    except RuntimeError:
        return False
    return True

'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PATH="/opt/venv/bin:" + e["PATH"], PYTHONWARNINGS="ignore",
             PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True,
                          capture_output=True)


def tests(d):
    """stable tests that do not pass in the copy"""
    w = d + "/.junit.xml"
    env = {"HOME": "/root", "LANG": "C.UTF-8", "MPLBACKEND": "Agg",
           "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
           "PYTHONPATH": d + "/src:" + d + "/tests", "PYTHONHASHSEED": "0",
           "PYTHONDONTWRITEBYTECODE": "1"}
    for x in (d + "/es_dump.oemof",):
        if os.path.exists(x):
            os.remove(x)
    subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
         "no:cacheprovider", "--timeout=300",
         "--continue-on-collection-errors", "-o", "junit_family=xunit2",
         "--junitxml=" + w], cwd=d, env=env, timeout=900,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = d + "/.res.json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out,
                    "junit:" + w], cwd=d, stdout=subprocess.DEVNULL)
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    return set(base["stable"]) - set(res["passed"])


def original(patch):
    """every removed line is from the original repository"""
    f = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            a, n = re.match(r"@@ -(\d+)(?:,(\d+))?", line).groups()
            n = int(n or 1)
            if n == 0:
                continue
            b = sh(["git", "blame", "-l", "-s", "-L%s,+%s" % (a, n), "--", f],
                   "/repo").stdout
            for x in b.splitlines():
                if not x.lstrip("^").startswith(ROOT[:30]):
                    return x
    return None


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for k, b in bugs.items():
        if only and k not in only:
            continue
        d = "/tmp/pl/" + k
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        try:
            one(k, b, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(k, b, d):
    for f, old, new in b["edits"]:
        p = d + "/src/oemof/solph/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(k, "NOT APPLICABLE", f, s.count(old))
            return
        open(p, "w").write(s.replace(old, new))
    g = sh(["git", "diff"], d)
    patch = g.stdout
    z = sh(["git", "diff", "-U0"], d).stdout
    o = original(z)
    if o:
        print(k, "CHANGES A LINE OF MINE", o)
        return
    demo = (HEAD if b.get("head", True) else "") + "\n" + b["demo"]
    os.makedirs("/tmp/pl/demo", exist_ok=True)
    dp = "/tmp/pl/demo/%s.py" % k
    open(dp, "w").write(demo)
    env = {"PYTHONPATH": d + "/src"}
    a = sh(["/opt/venv/bin/python", dp], "/repo")
    if a.returncode:
        print(k, "DEMO FAILS ON UNCHANGED", a.stderr[-600:])
        return
    c = sh(["/opt/venv/bin/python", dp], d, env)
    if c.returncode == 0:
        print(k, "DEMO PASSES WITH THE CHANGE")
        return
    bad = tests(d)
    if bad:
        print(k, "TESTS FAIL", sorted(bad)[:4], flush=True)
        return
    q = OUT + "/" + k
    os.makedirs(q, exist_ok=True)
    open(q + "/patch.diff", "w").write(patch)
    open(q + "/demo.py", "w").write(demo)
    open(q + "/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
        'export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(q + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"],
               "what_it_breaks": b["breaks"]},
              open(q + "/meta.json", "w"), indent=1)
    env = {"PYTHONPATH": d + "/src:/verif", "OMP_NUM_THREADS": "1",
           "OPENBLAS_NUM_THREADS": "1"}
    r = sh(["/opt/venv/bin/python", "-m", "mc.run", b["prop"], "--tier",
            "quick"], "/verif", env)
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    m = [x for x in r.stdout.splitlines() if x.startswith("  [")]
    print(k, "confirmed;", b["prop"],
          "CAUGHT (%d) %s" % (len(v), m[0][:200] if m else "") if v else
          "*** MISSED *** rc=%s" % r.returncode, c.stderr[-100:].strip()
          .replace("\n", " "), flush=True)


main()
