#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: confirm planted changes in scratch copies and store the confirmed ones under seeded/.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(w):
    out = os.path.join(w, ".junit.xml")
    sh([PY, "-m", "pytest", "tests", "--ignore=tests/data", "-q", "-p", "no:cacheprovider", "--timeout=60",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out], w,
       {"PYTHONPATH": w, "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "2", "PYTHONDONTWRITEBYTECODE": "1"})
    ok = set()
    for tc in ET.parse(out).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    return STABLE - ok


def one(s):
    w = tempfile.mkdtemp(prefix="seed-" + s["id"] + "-", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        sh_text = ('#!/bin/bash\n# cwd: the repository; exit 0 iff the property holds on the demonstrated history\n'
                   'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                   'D="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$D/demo.py"\n')
        open(os.path.join(d, "demo.sh"), "w").write(sh_text)
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode != 0:
            return s["id"], "DEMO FAILS ON UNCHANGED TREE:\n" + r.stdout[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return s["id"], f"edit of {f}: {n} occurrences of {old[:80]!r}"
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff"], repo).stdout
        if not patch.strip():
            return s["id"], "EMPTY PATCH"
        r = sh([PY, "-m", "compileall", "-q", "dhg"], repo)
        if r.returncode:
            return s["id"], "DOES NOT COMPILE " + r.stdout[-500:]
        r = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
        if r.returncode == 0:
            return s["id"], "DEMO PASSES WITH PATCH"
        demo_out = r.stdout[-300:]
        bad = tests(repo)
        if bad:
            return s["id"], f"STABLE TESTS FAIL: {sorted(bad)[:5]}"
        r = sh([sys.executable, os.path.join(VERIF, "check.py"), s["property"]], VERIF, {"DHG_REPO": repo, "DHG_EVIDENCE": w}, timeout=900)
        caught = {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}")
        msg = [l for l in r.stdout.splitlines() if l.startswith("[")][:1]
        dst = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(patch)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), os.path.join(dst, f))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return s["id"], f"{caught} {msg[0][:260] if msg else r.stdout.splitlines()[-1:]}   (demo: {demo_out.strip().splitlines()[-1:] })"
    except Exception as e:
        return s["id"], f"ERROR {type(e).__name__} {e}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [s for s in ns["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(5) as ex:
    for i, m in ex.map(one, todo):
        print(f"== {i}: {m}", flush=True)
