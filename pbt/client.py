"""Talks to the interpreter that runs the code under test."""
import json
import math
import os
import select
import shutil
import subprocess
import tempfile
from datetime import datetime

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    """something is wrong with the checking machinery, not with the project"""


class Repr(str):
    """stands for a value of a type the channel does not carry"""


class Frame:
    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows

    def records(self):
        return [dict(zip(self.cols, r)) for r in self.rows]


def _h(x):
    if isinstance(x, list):
        return tuple(_h(e) for e in x)
    if isinstance(x, dict):
        return tuple((_h(k), _h(v)) for k, v in x.items())
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(e) for e in x]
    if isinstance(x, dict):
        k = x["~"]
        if k == "nan":
            return math.nan
        if k == "inf":
            return math.inf
        if k == "-inf":
            return -math.inf
        if k == "t":
            return tuple(dec(e) for e in x["v"])
        if k == "s":
            return set(_h(dec(e)) for e in x["v"])
        if k == "d":
            return {_h(dec(a)): dec(b) for a, b in x["v"]}
        if k == "df":
            return Frame(x["cols"], [[dec(v) for v in r] for r in x["rows"]])
        if k == "dt":
            return datetime.fromisoformat(x["v"])
        if k == "repr":
            return Repr(x["v"])
        raise HarnessError("cannot decode %r" % (x,))
    return x


class Outcome:
    """what one call into the code under test did: a value or an exception"""

    def __init__(self, d):
        self.ok = "ok" in d
        self.value = dec(d["ok"]) if self.ok else None
        self.exc = d.get("exc")
        self.msg = d.get("msg", "")
        self.tb = d.get("tb", "")

    def __repr__(self):
        if self.ok:
            return "returned %r" % (self.value,)
        return "raised %s(%s)\n%s" % (self.exc, self.msg, self.tb)


class Worker:
    def __init__(self, timeout=120):
        self.timeout = timeout
        self.p = None
        self.dir = None
        self.buf = b""

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="vp-worker-")
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            VERIF_REPO=REPO,
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            TZ="UTC",
            LC_ALL="C.UTF-8",
        )
        env.pop("PYTHONPATH", None)
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")
        self.p = subprocess.Popen(
            [PY, os.path.join(VERIF, "worker", "worker.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            cwd=self.dir,
            env=env,
        )
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None
            self.err.close()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def _readline(self):
        fd = self.p.stdout.fileno()
        import time

        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                self.err.seek(0)
                tail = self.err.read()[-2000:].decode("utf-8", "replace")
                raise HarnessError("the worker ended unexpectedly: " + tail)
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def raw(self, op, **args):
        if self.p is None:
            self.start()
        self.p.stdin.write((json.dumps({"op": op, "args": args}) + "\n").encode())
        self.p.stdin.flush()
        line = self._readline()
        if line is None:
            self.stop()
            return None
        res = json.loads(line)
        if "harness_error" in res:
            raise HarnessError(res["harness_error"])
        return res["res"]
