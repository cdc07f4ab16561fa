"""Runner: generates cases with Hypothesis in forked workers and reports.

A check module defines PROPERTY, SUBS (list of Sub) and optionally warmup().  Every case
is a plain JSON value ("spec"); Sub.run(spec) executes the real code and raises Violation
(any other exception raised while a generated case runs also counts as a violation: on
the unchanged tree there are none).  A replay file holds one spec and is executed
without Hypothesis.
"""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_WALL_S = {"quick": 60, "thorough": 300}
MAX_SAMPLES = 3


class Violation(Exception):
    """The property does not hold for this case."""


class Info:
    """What a case covered: its class labels and whether it counts as non-trivial."""

    def __init__(self, nontrivial=True, classes=()):
        self.nontrivial = bool(nontrivial)
        self.classes = list(classes)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(
        self, name, strategy, run, quick, thorough, rule, corpus=(), cpu_limit=120.0
    ):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.corpus = list(corpus)
        self.cpu_limit = cpu_limit


class _Abort(BaseException):
    pass


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == prop and e["status"] == "known"]


def report_known(prop):
    """Run the inputs that are listed as known findings and say which still fail."""
    mod = importlib.import_module(f"pbt.checks.{prop.lower()}")
    for entry in load_known(prop):
        try:
            mod.KNOWN[entry["sub"]](norm(entry["spec"]))
        except Violation:
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
        else:
            print(f"note: this no longer fails: {entry['what']}")


def norm(spec):
    return json.loads(json.dumps(spec))


def digest(sub, spec):
    raw = (sub + json.dumps(spec, sort_keys=True)).encode()
    return hashlib.blake2b(raw, digest_size=8).digest()


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if "tranquilo" in f.filename] or list(tb)
    f = where[-1]
    return (
        f"unexpected {type(exc).__name__}: {str(exc)[:300]} "
        f"(at {os.path.basename(f.filename)}:{f.lineno} in {f.name})"
    )


# --------------------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------------------


class Worker:
    def __init__(self, prop, subs, tier, seed, shard, n_shards, workdir, beat):
        self.prop, self.subs, self.tier, self.seed = prop, subs, tier, seed
        self.shard, self.n_shards, self.dir, self.beat = shard, n_shards, workdir, beat
        self.count = 0
        self.stats = {}
        self.cur = open(os.path.join(workdir, f"current.{shard}"), "w")
        self.fail = None
        self.fail_time = None

    def _beat(self, sub_idx, text):
        self.count += 1
        self.cur.seek(0)
        self.cur.write(text)
        self.cur.truncate()
        self.cur.flush()
        struct.pack_into("qq", self.beat, self.shard * 16, self.count, sub_idx)

    def one(self, sub_idx, spec, st):
        sub = self.subs[sub_idx]
        text = json.dumps(spec)
        spec = json.loads(text)
        self._beat(sub_idx, text)
        try:
            info = sub.run(spec)
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            self.record(sub, spec, text, describe(e))
            raise
        if self.fail is not None:
            return
        st["evaluations"] += 1
        for c in info.classes:
            st["classes"][c] = st["classes"].get(c, 0) + 1
        if info.nontrivial:
            st["hashes"].add(digest(sub.name, spec))
            if len(st["samples"]) < MAX_SAMPLES and len(text) < 1500:
                st["samples"].append(spec)

    def record(self, sub, spec, text, msg):
        now = time.monotonic()
        if self.fail is None:
            self.fail_time = now
        if self.fail is None or len(text) <= self.fail["size"]:
            self.fail = {
                "size": len(text),
                "property": self.prop,
                "sub": sub.name,
                "message": msg,
                "spec": spec,
            }
            tmp = os.path.join(self.dir, f"fail.{self.shard}.tmp")
            with open(tmp, "w") as f:
                json.dump(self.fail, f)
            os.replace(tmp, os.path.join(self.dir, f"fail.{self.shard}"))
        if now - self.fail_time > SHRINK_WALL_S[self.tier]:
            raise _Abort

    def main(self):
        from hypothesis import HealthCheck, Phase, given, seed, settings
        from hypothesis import errors as herr

        for idx, sub in enumerate(self.subs):
            st = self.stats.setdefault(
                sub.name,
                {"evaluations": 0, "hashes": set(), "samples": [], "classes": {}},
            )
            for k, spec in enumerate(sub.corpus):
                if k % self.n_shards == self.shard:
                    try:
                        self.one(idx, spec, st)
                    except Exception:
                        if self.fail is None:
                            raise
                        return
            total = sub.n[self.tier]
            n = total // self.n_shards + (self.shard < total % self.n_shards)
            if n == 0:
                continue
            value = (
                self.seed * 1_000_003
                + self.shard * 7919
                + zlib.crc32(sub.name.encode())
            )

            def test(spec):
                self.one(idx, spec, st)

            test.__qualname__ = test.__name__ = f"{self.prop}_{sub.name}"
            wrapped = given(sub.strategy(self.tier))(test)
            wrapped = settings(
                max_examples=n,
                deadline=None,
                database=None,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
            )(wrapped)
            wrapped = seed(value)(wrapped)
            try:
                wrapped()
            except _Abort:
                return
            except herr.FlakyFailure:
                if self.fail is None:
                    raise
                return
            except Exception:
                if self.fail is None:
                    raise
                return
            if self.fail is not None:
                return


def _worker_entry(worker):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    err = os.open(
        os.path.join(worker.dir, f"stderr.{worker.shard}"),
        os.O_WRONLY | os.O_CREAT,
        0o600,
    )
    os.dup2(err, 2)
    code = 0
    try:
        worker.main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        code = 3
    out = {
        s: {
            "evaluations": d["evaluations"],
            "hashes": [h.hex() for h in d["hashes"]],
            "samples": d["samples"],
            "classes": d["classes"],
        }
        for s, d in worker.stats.items()
    }
    tmp = os.path.join(worker.dir, f"stats.{worker.shard}.tmp")
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, os.path.join(worker.dir, f"stats.{worker.shard}"))
    os._exit(code)


def _cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def _read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


# --------------------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------------------


def run_check(mod, tier, seed, only=None, n_shards=8, scale=1.0):
    prop = mod.PROPERTY
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    if scale != 1.0:
        for s in subs:
            s.n = {k: max(1, int(v * scale)) for k, v in s.n.items()}
    t0 = time.monotonic()
    if hasattr(mod, "warmup"):
        fail = _guarded_warmup(mod)
        if fail:
            return finish(prop, tier, seed, subs, [], [fail], t0, [])
    t_warm = time.monotonic() - t0

    workdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    beat = mmap.mmap(-1, 16 * n_shards)
    pids = {}
    try:
        for shard in range(n_shards):
            worker = Worker(prop, subs, tier, seed, shard, n_shards, workdir, beat)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                for s in (signal.SIGTERM, signal.SIGINT):
                    signal.signal(s, signal.SIG_DFL)
                os.setpgid(0, 0)
                _worker_entry(worker)
            pids[pid] = shard
        fails, errors = _supervise(
            prop, subs, tier, pids, workdir, beat, time.monotonic()
        )
        stats = [
            s
            for s in (
                _read_json(os.path.join(workdir, f"stats.{k}")) for k in range(n_shards)
            )
            if s
        ]
    finally:
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(workdir, ignore_errors=True)
    return finish(prop, tier, seed, subs, stats, fails, t0, errors, t_warm)


def _guarded_warmup(mod):
    """Compile in the parent; a failure of the library here is a violation."""
    try:
        mod.warmup()
    except Violation as e:
        return {"sub": "warmup", "message": str(e), "spec": None}
    except (ImportError, AttributeError):
        raise
    except Exception as e:
        return {"sub": "warmup", "message": describe(e), "spec": None}
    return None


def _supervise(prop, subs, tier, pids, workdir, beat, t_start):
    alive = dict(pids)
    last = {s: (0, 0.0, time.monotonic()) for s in pids.values()}
    fails, errors = [], []
    wall_cap = {"quick": 780, "thorough": 6 * 3600}[tier]
    first_fail = None
    while alive:
        time.sleep(0.1)
        now = time.monotonic()
        for pid, shard in list(alive.items()):
            got, status = os.waitpid(pid, os.WNOHANG)
            if got:
                del alive[pid]
                fail = _read_json(os.path.join(workdir, f"fail.{shard}"))
                if fail:
                    fails.append(fail)
                elif os.WIFSIGNALED(status):
                    spec = _read_json(os.path.join(workdir, f"current.{shard}"))
                    _, si = struct.unpack_from("qq", beat, shard * 16)
                    fails.append(
                        {
                            "sub": subs[si].name,
                            "spec": spec,
                            "message": "the process was ended by signal "
                            f"{os.WTERMSIG(status)} while this case ran",
                        }
                    )
                elif os.WEXITSTATUS(status):
                    try:
                        with open(os.path.join(workdir, f"stderr.{shard}")) as f:
                            errors.append(f.read()[-3000:])
                    except OSError:
                        errors.append(f"worker {shard} failed")
                continue
            count, si = struct.unpack_from("qq", beat, shard * 16)
            cpu = _cpu(pid)
            if cpu is None:
                continue
            if count != last[shard][0]:
                last[shard] = (count, cpu, now)
            elif count and not os.path.exists(os.path.join(workdir, f"fail.{shard}")):
                if cpu - last[shard][1] > subs[si].cpu_limit:
                    spec = _read_json(os.path.join(workdir, f"current.{shard}"))
                    fails.append(
                        {
                            "sub": subs[si].name,
                            "spec": spec,
                            "message": "does not terminate: no result after "
                            f"{subs[si].cpu_limit:.0f} s of CPU time",
                        }
                    )
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del alive[pid]
            elif cpu - last[shard][1] > SHRINK_WALL_S[tier] + subs[si].cpu_limit:
                fail = _read_json(os.path.join(workdir, f"fail.{shard}"))
                fails.append(fail)
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del alive[pid]
        if fails and first_fail is None:
            first_fail = now
        # once a failure has been shrunk by one worker the others only get a short grace
        if first_fail is not None and now - first_fail > 2:
            for pid, shard in list(alive.items()):
                fail = _read_json(os.path.join(workdir, f"fail.{shard}"))
                if fail:
                    fails.append(fail)
                _kill(pid)
                del alive[pid]
        if now - t_start > wall_cap:
            for pid, shard in list(alive.items()):
                fail = _read_json(os.path.join(workdir, f"fail.{shard}"))
                if fail:
                    fails.append(fail)
                _kill(pid)
                del alive[pid]
            print(f"note: {prop} stopped after its wall-clock cap of {wall_cap} s")
    return fails, errors


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def finish(prop, tier, seed, subs, stats, fails, t0, errors, t_warm=0.0):
    evaluations, distinct, samples, per_sub = 0, 0, [], {}
    for sub in subs:
        hashes, ev, classes, smp = set(), 0, {}, []
        for s in stats:
            d = s.get(sub.name)
            if d:
                ev += d["evaluations"]
                hashes.update(d["hashes"])
                smp += d["samples"]
                for k, v in d["classes"].items():
                    classes[k] = classes.get(k, 0) + v
        evaluations += ev
        distinct += len(hashes)
        samples += [{"sub": sub.name, "spec": x} for x in smp[:2]]
        per_sub[sub.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": sub.rule,
            "classes": dict(sorted(classes.items())),
        }
    wall = time.monotonic() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples[:8],
            "per_sub_check": per_sub,
            "warmup_s": round(t_warm, 1),
        },
        "assumptions": [
            "numba-compiled code is exercised with compiler optimisation level "
            + os.environ.get("NUMBA_OPT", "default"),
            "explores generated inputs only; absence of violations is not a proof",
        ],
        "wall_s": round(wall, 1),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    report_known(prop)
    for name, d in per_sub.items():
        print(
            f"{prop}.{name}: {d['evaluations']} cases, "
            f"{d['distinct_nontrivial']} distinct non-trivial"
        )
    print(f"{prop}: tier={tier} seed={seed} wall={wall:.1f}s warmup={t_warm:.1f}s")
    if fails:
        fails.sort(key=lambda f: f.get("size", 10**9))
        best = fails[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        name = hashlib.blake2b(
            json.dumps(best["spec"]).encode(), digest_size=6
        ).hexdigest()
        path = os.path.join(ROOT, "replays", f"{prop}-{best['sub']}-{name}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "sub": best["sub"],
                    "message": best["message"],
                    "spec": best["spec"],
                },
                f,
                indent=1,
            )
        print(f"{prop}.{best['sub']}: {best['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    return 0


def replay(mod, path):
    with open(path) as f:
        data = json.load(f)
    sub = {s.name: s for s in mod.SUBS}.get(data["sub"])
    try:
        if sub is None:
            mod.warmup()
        else:
            sub.run(norm(data["spec"]))
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        print(f"{mod.PROPERTY}.{data['sub']}: {describe(e)}")
        print(f"VIOLATION property={mod.PROPERTY} replay={os.path.abspath(path)}")
        return 1
    print("the recorded case satisfies the property")
    return 0


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--sub", action="append")
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--shards", type=int, default=8)
    a = p.parse_args(argv)
    mod = importlib.import_module(f"pbt.checks.{a.property.lower()}")
    if a.replay:
        return replay(mod, a.replay)
    return run_check(mod, a.tier, a.seed, a.sub, a.shards, a.scale)
