#!/usr/bin/env python3
"""Development tool: run checks on variants of the sources.

mut.py NAME...   variants of variants.py by name or prefix; prints which checks fire
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def run(name, spec):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "tests"))
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if old not in s:
                return name, None, "edit doesn't apply: " + old[:60]
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        v = os.path.join(d, "verif")
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        out = []
        for prop in spec["props"]:
            p = subprocess.run([sys.executable, os.path.join(v, "run.py"), prop],
                               env=dict(os.environ, VERIF_REPO=repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True)
            out.append((prop, p.returncode, p.stdout))
        return name, out, ""
    finally:
        shutil.rmtree(d)


def main():
    from variants import VARIANTS
    names = sys.argv[1:]
    todo = [(n, s) for n, s in VARIANTS.items()
            if not names or any(n.startswith(x) for x in names)]
    with ThreadPoolExecutor(3) as ex:
        for name, out, err in ex.map(lambda a: run(*a), todo):
            want = VARIANTS[name].get("want", 1)
            if out is None:
                print("??", name, err)
                continue
            for prop, rc, text in out:
                ok = rc == want
                print("%s %-34s %s rc=%d want=%s" % ("ok " if ok else "BAD", name, prop, rc, want))
                if not ok or os.environ.get("V"):
                    print("    " + text[-1800:].replace("\n", "\n    "))


main()
