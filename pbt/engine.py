"""Runs one property: generation, shrinking, replay files, evidence."""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback
import types

from .client import HarnessError, Worker, VERIF

SAMPLES = 4


class Violation(Exception):
    """the property does not hold on this case

    kind: short stable name of what failed (used to match known findings)
    """

    def __init__(self, kind, text):
        super().__init__("%s: %s" % (kind, text))
        self.kind = kind
        self.text = text


class Property:
    """one property; subclasses fill in the blanks

    strategy(ctx)      -> hypothesis strategy giving a JSON-able case
    check(ctx, case)   -> dict of class labels -> bool; raises Violation
    nontrivial(labels) -> bool
    """

    id = None
    rule = ""
    quick = 200  # cases over all shards
    thorough = 2000
    shards = 8
    assumptions = []

    def prepare(self, ctx):
        pass

    def strategy(self, ctx):
        raise NotImplementedError

    def check(self, ctx, case):
        raise NotImplementedError

    def nontrivial(self, labels):
        return any(labels.values())

    def fixed_cases(self, ctx):
        """cases that are run in addition to the generated ones"""
        return []


class Ctx:
    def __init__(self):
        self.worker = Worker()
        self.data = {}
        self.classes = {}

    def close(self):
        self.worker.stop()

    def call(self, op, **args):
        r = self.worker.raw(op, **args)
        if r is None:
            raise Violation("does not finish", "operation %s ran into the time limit" % op)
        return r


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    out.append(json.loads(line))
    return out


def case_hash(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True, ensure_ascii=True).encode()
    ).hexdigest()[:16]


def judge(prop, ctx, case):
    """prop.check(); a result that cannot even be read the way a result of this kind is read
    is a violation, an error anywhere else (models, generators, machinery) stays an error"""
    try:
        return prop.check(ctx, case)
    except (TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
        if isinstance(getattr(e, "obj", None), types.ModuleType):
            raise  # a function that is not there
        here = os.path.join(VERIF, "pbt") + os.sep
        own = [f.filename for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(here)]
        if not own[-1].startswith(os.path.join(here, "props") + os.sep):
            raise
        raise Violation("result of another form", "reading it: %s: %s" % (type(e).__name__, str(e)[:300])) from e


def run_shard(prop, tier, seed, shard, out_path):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as hce

    hce.MAX_SHRINKING_SECONDS = 60 if tier == "quick" else 150
    total = prop.quick if tier == "quick" else prop.thorough
    n = max(1, -(-total // prop.shards))
    limit = 420 if tier == "quick" else 700
    t0 = time.time()
    ctx = Ctx()
    ctx.tier = tier
    known = [k for k in known_findings() if k["property"] == prop.id]
    st = {
        "evaluations": 0,
        "nontrivial": [],
        "classes": {},
        "samples": [],
        "violation": None,
        "known": {},
        "skipped": 0,
    }
    seen = set()
    failing = {}

    def one(case, count=True):
        if time.time() - t0 > limit and not failing:
            st["skipped"] += 1
            return
        try:
            labels = judge(prop, ctx, case)
        except Violation as v:
            for k in known:
                if k["kind"] == v.kind:
                    st["known"][v.kind] = k.get("what", v.kind)
                    st["evaluations"] += count
                    return
            failing.update(case=case, kind=v.kind, text=v.text)
            raise
        if not count:
            return
        st["evaluations"] += 1
        for k, val in (labels or {}).items():
            if val:
                st["classes"][k] = st["classes"].get(k, 0) + 1
        if prop.nontrivial(labels or {}):
            h = case_hash(case)
            if h not in seen:
                seen.add(h)
                st["nontrivial"].append(h)
                if len(st["samples"]) < SAMPLES:
                    st["samples"].append(
                        {"case": case, "classes": sorted(k for k, v in (labels or {}).items() if v)}
                    )

    try:
        try:
            prop.prepare(ctx)
            # fixed cases are dealt out over the shards
            for i, case in enumerate(prop.fixed_cases(ctx)):
                if i % prop.shards == shard:
                    one(case)
            sub = int(
                hashlib.sha256(
                    ("%s/%s/%d" % (prop.id, seed, shard)).encode()
                ).hexdigest()[:12],
                16,
            )

            @hypothesis.seed(sub)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                print_blob=False,
            )
            @given(prop.strategy(ctx))
            def test(case):
                one(case)

            test()
        except Violation:
            st["violation"] = dict(failing)
        except HarnessError:
            raise
        except Exception as e:
            from hypothesis.errors import Flaky

            if failing and isinstance(e, (Flaky, BaseExceptionGroup)):
                st["violation"] = dict(failing)
                st["violation"]["text"] += " [not reproduced on a second run of the case]"
            else:
                raise
    finally:
        ctx.close()
    st["wall"] = time.time() - t0
    with open(out_path, "w") as f:
        json.dump(st, f)


def write_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(obj, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, path)


def run(prop, tier, seed):
    import tempfile
    import shutil

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop.id)
    procs = []
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", TZ="UTC")
    try:
        for s in range(prop.shards):
            out = os.path.join(tmp, "%d.json" % s)
            log = open(os.path.join(tmp, "%d.log" % s), "wb")
            procs.append(
                (
                    s,
                    out,
                    log,
                    subprocess.Popen(
                        [sys.executable, "-m", "pbt.run", prop.id, "--tier", tier,
                         "--seed", str(seed), "--shard", str(s), "--out", out],
                        cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT,
                    ),
                )
            )
        res, errors = [], []
        deadline = t0 + 860
        for s, out, log, p in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    res.append(json.load(f))
            else:
                with open(os.path.join(tmp, "%d.log" % s), errors="replace") as f:
                    errors.append("shard %d (exit %s):\n%s" % (s, p.returncode, f.read()[-3000:]))
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

    nontrivial = set()
    classes, samples, known, violations = {}, [], {}, []
    for r in res:
        nontrivial.update(r["nontrivial"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        known.update(r["known"])
        if r["violation"]:
            violations.append(r["violation"])
    for i in range(SAMPLES):
        for r in res:
            if i < len(r["samples"]) and len(samples) < SAMPLES:
                samples.append(r["samples"][i])
    evaluations = sum(r["evaluations"] for r in res)
    skipped = sum(r["skipped"] for r in res)

    replay = None
    lines = []
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, case_hash(v["case"])))
        write_json(replay, {"property": prop.id, "kind": v["kind"], "what": v["text"], "case": v["case"]})
        lines.append("%s: %s" % (v["kind"], v["text"][:2000]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": int(seed),
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples,
            "classes": dict(sorted(classes.items())),
            "skipped_for_time": skipped,
            "known_findings_met": sorted(known),
            "violation_details": [
                {"kind": v["kind"], "what": v["text"][:1000], "replay": replay if i == 0 else None}
                for i, v in enumerate(violations)
            ],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(prop.assumptions),
        "violations": len(violations),
    }
    write_json(os.path.join(VERIF, "evidence", prop.id + ".json"), ev)
    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, what))
    for line in lines:
        print(line)
    print("%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s"
          % (prop.id, evaluations, len(nontrivial), skipped, time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        return 1
    if errors:
        for e in errors:
            print("CHECK ERROR " + e, file=sys.stderr)
        return 3
    if not evaluations:
        print("CHECK ERROR no case was evaluated", file=sys.stderr)
        return 3
    return 0


def replay(prop, path):
    with open(path, encoding="utf-8") as f:
        doc = json.load(f)
    ctx = Ctx()
    ctx.tier = "quick"
    try:
        prop.prepare(ctx)
        judge(prop, ctx, doc["case"])
    except Violation as v:
        print("%s: %s" % (v.kind, v.text))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    finally:
        ctx.close()
    print("the case in %s passes" % path)
    return 0
