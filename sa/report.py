"""Obligations, violations and evidence of a check."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from .core import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Res(object):
    """what one scenario contributes (plain data: it crosses processes)"""

    def __init__(self):
        self.obl = {}          # (rule, key) -> [ok, where, msg]
        self.counts = {}
        self.funcs = set()
        self.notes = []

    def ob(self, rule, key, ok, where="", msg=""):
        """an obligation: construct `key` must satisfy `rule`"""
        k = (rule, str(key))
        old = self.obl.get(k)
        if old is None:
            self.obl[k] = [bool(ok), where, msg]
        elif old[0] and not ok:
            self.obl[k] = [False, where, msg]
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, I):
        self.funcs |= set(I.stats["functions"])
        for k in ("calls", "branches", "loops"):
            self.count("analysed_" + k, I.stats[k])

    def merge(self, o):
        for (r, k), (ok, w, m) in o.obl.items():
            self.ob(r, k, ok, w, m)
        for k, n in o.counts.items():
            self.count(k, n)
        self.funcs |= o.funcs
        self.notes += o.notes


def _job(a):
    fn, args = a
    sys.setrecursionlimit(30000)
    try:
        return fn(*args)
    except AnalysisError as e:
        return ("error", "%s%r: %s" % (fn.__name__, args, e))
    except Exception:
        return ("error", "%s%r: %s" % (fn.__name__, args, traceback.format_exc()))


def pmap(fn, arglist):
    """the scenarios, in parallel; a scenario that fails is an error"""
    res = Res()
    arglist = [(fn, a) for a in arglist]
    if len(arglist) == 1 or os.environ.get("VERIF_SERIAL"):
        outs = [_job(a) for a in arglist]
    else:
        with multiprocessing.Pool(min(8, len(arglist))) as p:
            outs = p.map(_job, arglist, 1)
    errors = [o[1] for o in outs if isinstance(o, tuple)]
    for o in outs:
        if not isinstance(o, tuple):
            res.merge(o)
    if errors:
        # what the other scenarios found is reported first
        if all(v[0] for v in res.obl.values()):
            raise AnalysisError("; ".join(errors))
        res.notes += errors
    res.count("scenarios", len(arglist))
    return res


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=X key=<rule>|<construct> :: text
                    head, _, text = line[8:].partition("::")
                    prop = head.split("property=")[1].split()[0]
                    key = head.split("key=")[1].strip()
                    out[(prop, key)] = text.strip()
    return out


def finish(prop, res, t0, explanation, level="other", assumptions=(), floors=None):
    """write the evidence, print the verdict, return the exit code"""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings()
    bad = []
    found = []
    for (rule, key), (ok, where, msg) in sorted(res.obl.items()):
        if ok:
            continue
        k = (prop, rule + "|" + key)
        if k in known:
            found.append((rule, key, where, known[k] or msg))
        else:
            bad.append((rule, key, where, msg))
    rules = {}
    for (rule, key), (ok, where, msg) in sorted(res.obl.items()):
        rules.setdefault(rule, []).append(
            {"construct": key, "where": where, "ok": ok})
    problem = None
    for rule, n in (floors or {}).items():
        have = len(rules.get(rule, ()))
        if have < n:
            problem = "rule %s matched %d constructs, at least %d expected" % (
                rule, have, n)
    cov = {"explanation": explanation,
           "obligations": len(res.obl),
           "discharged": sum(1 for v in res.obl.values() if v[0]),
           "functions_analysed": len(res.funcs),
           "rules": {r: {"constructs": len(v),
                         "samples": v[:12]} for r, v in rules.items()},
           "known_findings": len(found)}
    cov.update(res.counts)
    if res.notes:
        cov["notes"] = res.notes[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for rule, key, where, msg in found:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, msg, rule, key))
    if bad:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            for rule, key, where, msg in bad:
                f.write("%s: rule %s: %s\n    construct: %s\n" % (where, rule, msg, key))
        for rule, key, where, msg in bad[:20]:
            print("  %s: [%s] %s (%s)" % (where, rule, msg, key))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if problem:
        print("ERROR property=%s: %s" % (prop, problem))
        return 2
    print("OK property=%s obligations=%d functions=%d %.1fs" % (
        prop, len(res.obl), len(res.funcs), time.time() - t0))
    return 0
