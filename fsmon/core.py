"""Running a check: cases, oracles' verdicts, evidence, exit status.

A check is a module in /verif/checks with a function ``run(ctx)`` (executed in
several fresh worker processes, "shards", with different random streams) and
the constants RULE, LEVEL, ASSUMPTIONS and REQUIRE.

Verdicts are three-valued: a violation (exit 1, a VIOLATION line and a replay
file), held on everything observed (exit 0), or inconclusive, when a counter
named in REQUIRE shows that the deciding monitor was not reached (exit 3).
"""
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time as _time
import traceback

from . import boot

VERIF = boot.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines 'known: property=C05 key=<mechanism> <what fails>'."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            for line in fp:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                parts = line[len("known:"):].strip().split(" ", 2)
                p = parts[0].split("=", 1)[1]
                k = parts[1].split("=", 1)[1]
                if p == prop:
                    res[k] = parts[2] if len(parts) > 2 else ""
    return res


class TooManyFailures(Exception):
    pass


class Hang(BaseException):
    pass


CASE_CPU_S = 30         # a case takes milliseconds, the longest ones some seconds


def _hang(*_):
    raise Hang()


class Case:
    def __init__(self, ctx, family, index, rng):
        self.ctx, self.family, self.index, self.rng = ctx, family, index, rng
        self.data = {}
        self.failed = False

    def count(self, name, k=1):
        self.ctx.count(name, k)

    def observed(self, signature, nontrivial=True, sample=None):
        """One evaluation of the oracle, on the case described by signature."""
        self.ctx.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(f"{self.family}|{signature}".encode(), digest_size=8).hexdigest()
            self.ctx.distinct.add(h)
        if sample is not None and len(self.ctx.samples) < 12 and \
                sum(1 for s in self.ctx.samples if s["family"] == self.family) < 2:
            self.ctx.samples.append({"family": self.family, "index": self.index,
                                     "case": _jsonable(sample)})

    def fail(self, mechanism, detail):
        self.failed = True
        self.ctx.fail(self, mechanism, detail)

    def check(self, cond, mechanism, detail):
        """detail: str or a function returning one."""
        if not cond:
            self.fail(mechanism, detail() if callable(detail) else detail)
        return cond


def _jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str) and len(x) > 600:
            return x[:600] + "..."
        return x
    if depth > 7:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (set, frozenset)):
        return sorted(str(v) for v in x)[:60]
    return str(x)[:300]


def from_repo(tb):
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(boot.SRC + "/"):
            return True
    return False


def of_the_result(err):
    """Whether this exception, raised in the oracle, is due to a value of the wrong kind
    (and not to a lack of resources or an interface that has been renamed)."""
    if isinstance(err, AttributeError):
        return str(err).startswith(tuple(f"'{t}' object" for t in (
            "NoneType", "dict", "list", "str", "tuple", "bool", "int", "set", "bytes")))
    if isinstance(err, TypeError):
        return "argument" not in str(err) or "NoneType" in str(err)
    return isinstance(err, (LookupError, ValueError, AssertionError))


class Ctx:
    def __init__(self, prop, tier, seed, shard, shards, replay=None, soft_s=0):
        self.prop, self.tier, self.seed, self.shard, self.shards = prop, tier, seed, shard, shards
        self.replay = replay
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.failures = []
        self.known_seen = {}
        self.known = known_findings(prop)
        self.t0 = _time.monotonic()
        self.soft_s = soft_s
        self.truncated = []
        self.longest = 0

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def fail(self, case, mechanism, detail):
        detail = str(detail)
        if mechanism in self.known:
            self.known_seen.setdefault(mechanism, detail[:500])
            return
        if sum(1 for f in self.failures if f["mechanism"] == mechanism) < 2:
            self.failures.append({
                "property": self.prop, "mechanism": mechanism, "detail": detail[:6000],
                "family": case.family if case else "", "index": case.index if case else -1,
                "seed": self.seed, "shard": self.shard, "tier": self.tier,
            })
        if len(self.failures) >= 12:
            raise TooManyFailures()

    def cases(self, family, quick, thorough, fn, once=False):
        """Run fn(case) this many times in this shard (once: only in shard 0)."""
        if once and self.shard != 0 and not self.replay:
            return
        n = quick if self.tier == "quick" else thorough
        for i in range(n):
            if self.replay and (family, i) != (self.replay["family"], self.replay["index"]):
                continue
            if self.soft_s and _time.monotonic() - self.t0 > self.soft_s:
                self.truncated.append([family, i, n])
                break
            rng = random.Random(f"{self.prop}/{self.seed}/{self.shard}/{family}/{i}")
            case = Case(self, family, i, rng)
            boot.clock.set(boot.BASE_TIME)
            from .net import net
            net.reset()
            cpu = _time.process_time()
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
            try:
                fn(case)
            except TooManyFailures:
                raise
            except Hang as err:
                case.fail("no-end", f"no end after {CASE_CPU_S} s of processor time\n"
                          + "".join(traceback.format_tb(err.__traceback__)[-12:]))
                raise TooManyFailures()
            except Exception as err:  # noqa
                if from_repo(err.__traceback__):
                    case.fail(f"crash:{type(err).__name__}",
                              "unexpected exception out of the code under test\n"
                              + traceback.format_exc()[-4000:])
                elif of_the_result(err):
                    case.fail(f"unusable:{type(err).__name__}",
                              "what the code under test returned can't be interpreted\n"
                              + traceback.format_exc()[-4000:])
                else:
                    raise
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                self.longest = max(self.longest, _time.process_time() - cpu)

    def result(self):
        return {"evaluations": self.evaluations, "distinct": sorted(self.distinct),
                "samples": self.samples, "counters": self.counters,
                "failures": self.failures, "known_seen": self.known_seen,
                "truncated": self.truncated, "longest": self.longest}


def load_check(prop):
    import importlib
    return importlib.import_module(f"checks.{prop.lower()}")


def worker(prop, tier, seed, shard, shards, out, replay=None, soft_s=0):
    boot.setup()
    mod = load_check(prop)
    signal.signal(signal.SIGPROF, _hang)
    ctx = Ctx(prop, tier, seed, shard, shards, replay=replay, soft_s=soft_s)
    try:
        mod.run(ctx)
    except TooManyFailures:
        pass
    except Exception as err:
        # set-up code of a check calls the code under test as well
        if from_repo(err.__traceback__):
            ctx.fail(None, f"crash:{type(err).__name__}", traceback.format_exc()[-4000:])
        else:
            raise
    with open(out, "w") as fp:
        json.dump(ctx.result(), fp)


def _spawn(prop, tier, seed, shard, shards, out, soft_s, replay=None):
    cmd = [sys.executable, os.path.join(VERIF, "check.py"), "--worker", prop, "--tier", tier,
           "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--out", out,
           "--soft", str(soft_s)]
    if replay:
        cmd += ["--replay", replay]
    return subprocess.Popen(cmd, env=boot.child_env(shard), cwd=VERIF,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def main(prop, tier, seed, replay=None):
    import tempfile
    t0 = _time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    sys.path.insert(0, VERIF)
    src = os.path.join(VERIF, "checks", f"{prop.lower()}.py")
    consts = {}
    import ast
    for node in ast.parse(open(src).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in ("RULE", "LEVEL", "ASSUMPTIONS", "REQUIRE", "SHARDS"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    rep = None
    if replay:
        rep = json.load(open(replay))
        tier, seed = rep["tier"], rep["seed"]
        shard_ids, shards = [rep["shard"]], 8
    else:
        shards = consts.get("SHARDS", 8)
        shard_ids = list(range(shards))
    soft, hard = (240, 600) if tier == "quick" else (700, 860)
    rc, results, problems = 0, [], []
    with tempfile.TemporaryDirectory(prefix="fsmon-") as tmp:
        procs = []
        for s in shard_ids:
            out = os.path.join(tmp, f"{s}.json")
            procs.append((s, out, _spawn(prop, tier, seed, s, shards, out, soft, replay)))
        deadline = _time.monotonic() + hard
        for s, out, p in procs:
            try:
                text, _ = p.communicate(timeout=max(1, deadline - _time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                text, _ = p.communicate()
                problems.append(f"shard {s}: watchdog ({hard}s) fired")
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                problems.append(f"shard {s}: rc={p.returncode}\n{text.decode(errors='replace')[-3000:]}")

    counters, distinct, samples, failures, known_seen, truncated = {}, set(), [], [], {}, []
    evaluations = 0
    for r in results:
        evaluations += r["evaluations"]
        distinct.update(r["distinct"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        failures.extend(r["failures"])
        known_seen.update(r["known_seen"])
        truncated.extend(r["truncated"])
        for s in r["samples"]:
            if sum(1 for x in samples if x["family"] == s["family"]) < 2:
                samples.append(s)
    missing = [] if replay else [
        f"{k}: {counters.get(k, 0)} < {v}" for k, v in consts.get("REQUIRE", {}).items()
        if counters.get(k, 0) < v]

    seen, replays = set(), []
    for f in failures:
        if f["mechanism"] in seen:
            continue
        seen.add(f["mechanism"])
        slug = "".join(c if c.isalnum() else "_" for c in f["mechanism"])[:60]
        path = os.path.join(EVIDENCE, f"replay-{prop}-{slug}.json")
        with open(path, "w") as fp:
            json.dump(f, fp, indent=1)
        replays.append(path)

    for k, what in known_findings(prop).items():
        if k in known_seen:
            print(f"KNOWN-FINDING: property={prop} {k}: {what}")
    for path, m in zip(replays, [m for m in dict.fromkeys(f["mechanism"] for f in failures)]):
        d = next(f for f in failures if f["mechanism"] == m)
        print(f"--- {m} [{d['family']}#{d['index']} shard {d['shard']}]")
        print("    " + d["detail"].replace("\n", "\n    ")[:2500])
        print(f"VIOLATION property={prop} replay={path}")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": consts.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(distinct),
            "rule": consts.get("RULE", ""), "samples": samples[:10],
            "observed": dict(sorted(counters.items())), "shards": len(results),
            "required": consts.get("REQUIRE", {}), "known_findings_seen": sorted(known_seen),
            "cut_short": truncated,
            "longest_case_cpu_s": round(max([r["longest"] for r in results] or [0]), 2),
        },
        "assumptions": consts.get("ASSUMPTIONS", []),
        "wall_s": round(_time.time() - t0, 2),
        "violations": len(replays),
    }
    if not replay:
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fp:
            json.dump(evidence, fp, indent=1)
    if replays:
        return 1
    if problems:
        print(f"ERROR property={prop}: " + "\n".join(problems))
        return 2
    if missing or (not replay and not evaluations):
        print(f"INCONCLUSIVE property={prop}: monitors not reached: {missing}")
        return 3
    print(f"HELD property={prop} tier={tier} seed={seed}: {evaluations} evaluations, "
          f"{len(distinct)} distinct, {evidence['wall_s']} s"
          + (f" (cut short: {truncated})" if truncated else ""))
    return 0
