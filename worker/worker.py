"""Executes the code under test inside the project's own interpreter.

Protocol: one JSON document per line on stdin, one per line on the original
stdout.  Everything the code under test prints goes to /dev/null.
"""
import io
import json
import math
import os
import sys
import traceback

_out = os.fdopen(os.dup(1), "w", encoding="utf-8")
_devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(_devnull, 1)
sys.stdout = open(os.devnull, "w")

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

# never trust byte code that is lying around next to the sources
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, REPO)
sys.path.append(os.path.join(os.path.dirname(HERE), "standins"))
sys.path.insert(0, HERE)


def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return {"~": "nan"}
        if math.isinf(x):
            return {"~": "inf" if x > 0 else "-inf"}
        return x
    if isinstance(x, list):
        return [enc(e) for e in x]
    if isinstance(x, tuple):
        return {"~": "t", "v": [enc(e) for e in x]}
    if isinstance(x, (set, frozenset)):
        return {"~": "s", "v": sorted((enc(e) for e in x), key=repr)}
    if isinstance(x, dict):
        return {"~": "d", "v": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, pd.DataFrame):
        return {
            "~": "df",
            "cols": [str(c) for c in x.columns],
            "rows": [[enc(v) for v in row] for row in x.values.tolist()],
        }
    if isinstance(x, (pd.Series, np.ndarray)):
        return [enc(e) for e in x.tolist()]
    if hasattr(x, "isoformat"):
        return {"~": "dt", "v": x.isoformat()}
    return {"~": "repr", "v": type(x).__name__}


def call(fn, *a, **k):
    try:
        return {"ok": enc(fn(*a, **k))}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit included: it is an outcome too
        return {
            "exc": type(e).__name__,
            "msg": str(e)[:300],
            "tb": "".join(traceback.format_tb(e.__traceback__)[-3:]),
        }


_MODS = {}


def ops():
    if "ops" not in _MODS:
        import wops

        _MODS["ops"] = wops
    return _MODS["ops"]


def main():
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        req = json.loads(line)
        try:
            res = {"res": getattr(ops(), "op_" + req["op"])(**req.get("args", {}))}
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            res = {
                "harness_error": "%s: %s\n%s"
                % (type(e).__name__, e, traceback.format_exc()[-3000:])
            }
        _out.write(json.dumps(res) + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
