#!/usr/bin/env python3
"""Development tool: make /verif/seeded/<id>/ from seeds.py and confirm each change.

seed.py [ID...]   in a scratch copy: the patch applies, the stable tests pass, the
                  demonstration passes without and fails with it; which check fires
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

PRE = '''import os, sys, shutil, tempfile, warnings, json, io
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
warnings.simplefilter("ignore")
TMP = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, TMP)
os.chdir(TMP)
import trappy


def line(ts, event, data, comm="task", pid=12, cpu=0):
    return "%s-%d [%03d] %s: %s: %s\\n" % (comm, pid, cpu, ts, event, data)


def write(lines, name="trace.txt"):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write("version = 6\\ncpus=6\\n")
        f.writelines(lines)
    return p


'''
DEMO = '''#!/bin/sh
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def tests(repo, d):
    xml = os.path.join(d, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2",
        "--junitxml=" + xml, "tests"], repo)
    ok = set()
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if not [c for c in tc if c.tag in ("failure", "error", "skipped")]:
            ok.add((tc.get("classname"), tc.get("name")))
    return ok


def base_ok():
    p = "/tmp/d/base_ok.json"
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
    if os.path.exists(p):
        j = json.load(open(p))
        if j[0] == head:
            return set(map(tuple, j[1]))
    d = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(d, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    ok = tests(repo, d)
    shutil.rmtree(d)
    json.dump([head, sorted(ok)], open(p, "w"))
    return ok


def one(sid, s, base):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        out = os.path.join(VERIF, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(PRE + s["demo"].strip() + "\n")
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"],
                       "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        demo = os.path.join(out, "demo.sh")
        r0 = sh([demo], repo)
        for fn, old, new in s["edits"]:
            p = os.path.join(repo, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, "edit matches %d times: %s" % (t.count(old), old[:50])
            open(p, "w").write(t.replace(old, new))
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(sh(["git", "diff"], repo).stdout)
        r1 = sh([demo], repo)
        msg = []
        if r0.returncode:
            msg.append("DEMO FAILS UNPATCHED:\n" + r0.stdout[-1500:])
        if not r1.returncode:
            msg.append("DEMO PASSES PATCHED")
        elif os.environ.get("V"):
            msg.append("demo says: " + r1.stdout[-400:])
        if not os.environ.get("NOTEST"):
            lost = base - tests(repo, d)
            if lost:
                msg.append("TESTS FAIL: %s" % sorted(lost)[:4])
        b = sh(["git", "blame", "-s", "HEAD", "--"] if False else ["true"], repo)
        v = os.path.join(d, "verif")
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        for prop in s.get("also", "").split() + [s["property"]]:
            r = subprocess.run([sys.executable, os.path.join(v, "run.py"), prop],
                               env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            msg.append("%s rc=%d %s" % (prop, r.returncode,
                                        "caught" if r.returncode == 1 else "MISSED"))
            if os.environ.get("V") or r.returncode != 1:
                msg.append(r.stdout[-1200:])
        return sid, "; ".join(msg)
    finally:
        shutil.rmtree(d)


def main():
    from seeds import SEEDS
    names = sys.argv[1:]
    todo = [(n, s) for n, s in SEEDS.items()
            if not names or any(n.startswith(x) for x in names)]
    base = base_ok()
    with ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(lambda a: one(a[0], a[1], base), todo):
            print(sid, msg, flush=True)


main()
