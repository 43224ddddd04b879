"""What the installed libraries provide: asked of the interpreter they're installed for.

Only the libraries are loaded, never the repository's code."""
import json
import os
import subprocess
import sys

SCRIPT = r'''
import sys, json, importlib, inspect, warnings
warnings.simplefilter("ignore")
req = json.load(sys.stdin)
out = {"modules": {}, "chains": {}, "names": [], "sigs": {}}
for m in req["modules"]:
    try:
        importlib.import_module(m)
        out["modules"][m] = True
    except ImportError as e:
        missing = getattr(e, "name", None)
        top = m.split(".")[0]
        # the library isn't there at all: nothing's known about it
        try:
            importlib.import_module(top)
            out["modules"][m] = False if missing in (None, m) or m.startswith(str(missing) + ".") else None
        except Exception:
            out["modules"][m] = None
    except Exception:
        out["modules"][m] = None

def sig(o):
    try:
        s = inspect.signature(o)
    except Exception:
        return None
    pos, names, req_, va, vk = 0, [], [], False, False
    for p in s.parameters.values():
        if p.kind == p.VAR_POSITIONAL: va = True
        elif p.kind == p.VAR_KEYWORD: vk = True
        else:
            if p.kind != p.KEYWORD_ONLY: pos += 1
            names.append([p.name, p.kind != p.POSITIONAL_ONLY, p.kind != p.KEYWORD_ONLY, p.default is p.empty])
    return {"params": names, "varargs": va, "varkw": vk}

for c in req["chains"]:
    parts = c.split(".")
    o, i = None, 0
    for n in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:n])); i = n
            break
        except Exception:
            continue
    if o is None:
        out["chains"][c] = None
        continue
    bad = None
    for k in range(i, len(parts)):
        try:
            o = getattr(o, parts[k])
        except AttributeError:
            bad = ".".join(parts[:k + 1]); break
        except Exception:
            o = None; break
        if not (inspect.ismodule(o) or inspect.isclass(o) or callable(o)):
            if k + 1 < len(parts):
                # attributes of an object
                continue
    out["chains"][c] = bad or True
    if not bad and o is not None and callable(o):
        s = sig(o)
        if s and s["params"] is not None:
            out["sigs"][c] = s
names = set()
for m in list(sys.modules.values()):
    top = getattr(m, "__name__", "").split(".")[0]
    if top not in req["tops"] and top not in ("builtins", "re", "io", "subprocess", "tempfile", "argparse", "_io"):
        continue
    for o in list(vars(m).values()):
        if inspect.isclass(o):
            names.update(dir(o))
        elif inspect.isfunction(o) or inspect.isbuiltin(o):
            pass
for o in ("", b"", [], {}, (), set(), 1, 1.0, None, sys, type, print):
    names.update(dir(o))
out["names"] = sorted(n for n in names if isinstance(n, str))
print("\n@@" + json.dumps(out))
'''

PYTHONS = ("/opt/venv/bin/python", sys.executable)


def ask(modules, chains, tops):
    """{"modules":, "chains":, "names":, "sigs":} or None"""
    req = json.dumps({"modules": sorted(modules), "chains": sorted(chains), "tops": sorted(tops)})
    for py in PYTHONS:
        if not os.path.exists(py):
            continue
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        try:
            r = subprocess.run([py, "-W", "ignore", "-c", SCRIPT], input=req, cwd="/", env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               universal_newlines=True, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            continue
        i = r.stdout.rfind("\n@@")
        if i >= 0:
            return json.loads(r.stdout[i + 3:])
    return None
