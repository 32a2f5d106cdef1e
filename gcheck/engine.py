"""Generated-input search: runs one property's strata in worker processes, shrinks failures, writes evidence."""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from gcheck import boot

SHRINK_SECONDS = 40
WORKERS = 8
MEMORY_LIMIT = 2 * 2**30
MEMORY_NEEDED = 5 * 2**29  # by one worker
REPLACEMENTS = 4
SOFT_LIMIT = {"quick": 420, "thorough": 5400}


class Violation(Exception):
    """The property is broken by the code under test."""


class Refused(Exception):
    """The code under test refused something."""

    def __init__(self, error):
        super().__init__(f"{type(error).__name__}: {str(error)[:300]}")
        self.error = error


@contextlib.contextmanager
def sut(what):
    """Exceptions raised inside come from the code under test, where it should not raise any."""
    try:
        yield
    except (Violation, Refused):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:600]}") from e


def attempt(fn, *args, **kwargs):
    """(True, result) or (False, exception)."""
    try:
        return True, fn(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        return False, e


def judge(prop, spec):
    """prop.run, where an exception other than of the environment means the code under test gave something that no
    check could make sense of (on the unchanged tree there are none)."""
    try:
        return prop.run(spec) or {}
    except (Violation, MemoryError, OSError, ImportError):
        raise
    except Exception as e:  # noqa: BLE001
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            f"{type(e).__name__}: {str(e)[:500]} ({os.path.basename(where.filename)}:{where.lineno})"
        ) from e


def load(pid):
    return importlib.import_module(f"gcheck.props.{pid.lower()}")


def spec_key(spec):
    return json.dumps(spec, sort_keys=True)


def load_json(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return default


def regress_specs(pid):
    path = os.path.join(boot.VERIF, "regress", f"{pid}.jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def known_findings(pid):
    data = load_json(os.path.join(boot.VERIF, "known_findings.json"), {"findings": []})
    return [f for f in data["findings"] if f["property"] == pid]


# ------------------------------------------------------------------------------------------- worker


class Worker:
    def __init__(self, pid, tier, seed, index, count, claims):
        self.claims = claims
        self.pid, self.tier, self.seed, self.index, self.count = pid, tier, seed, index, count
        self.prop = load(pid)
        self.start = float(os.environ.get("GCHECK_STARTED") or time.time())
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.history = []
        self.failures = []
        self.known = []
        self.truncated = False

    def claim(self, position):
        """Whether this worker is the first to ask for this stratum."""
        try:
            mark = os.open(os.path.join(self.claims, f"stratum-{position}"), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
        except FileExistsError:
            return False
        os.write(mark, str(self.index).encode())
        os.close(mark)
        return True

    def over_time(self):
        return time.time() - self.start > SOFT_LIMIT[self.tier]

    def save_memory(self):
        """Drop JAX's compiled functions when they take too much."""
        with open("/proc/self/statm") as f:
            resident = int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
        if resident > MEMORY_LIMIT:
            import gc

            import jax

            jax.clear_caches()
            gc.collect()

    def evaluate(self, spec):
        self.evaluations += 1
        if self.evaluations % 16 == 0:
            self.save_memory()
        key = hashlib.sha1(spec_key(spec).encode()).hexdigest()
        self.history.append(spec)
        del self.history[:-30]
        info = judge(self.prop, spec)
        if key not in self.seen:
            self.seen.add(key)
            if info.get("nontrivial", True):
                if key not in self.nontrivial:
                    self.nontrivial.add(key)
                    if len(self.samples) < 4 or (len(self.samples) < 12 and len(self.nontrivial) % 23 == 0):
                        self.samples.append(spec)
            for label in info.get("labels", ()):
                self.labels[label] += 1

    def fail(self, spec, error, minimal):
        self.failures.append(
            {"spec": spec, "message": str(error), "minimal": minimal, "history": self.history[:-1]}
        )

    def run_stratum(self, position, stratum, examples):
        import hypothesis as hy
        from hypothesis import HealthCheck, Phase, settings

        first_failure = [None]
        failing = {}
        last = [None, None]

        @hy.seed(int(hashlib.sha1(f"{self.seed}/{self.pid}/{position}".encode()).hexdigest()[:12], 16))
        @settings(
            max_examples=examples,
            database=None,
            deadline=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            verbosity=hy.Verbosity.quiet,
        )
        @hy.given(self.prop.strategy(stratum))
        def search(spec):
            key = spec_key(spec)
            if first_failure[0] is None and self.over_time():
                self.truncated = True
                return
            if first_failure[0] is not None and time.time() - first_failure[0] > SHRINK_SECONDS:
                if key in failing:
                    raise failing[key]
                return
            try:
                self.evaluate(spec)
            except Violation as v:
                if first_failure[0] is None:
                    first_failure[0] = time.time()
                v = Violation(str(v))
                failing[key] = v
                last[0], last[1] = spec, v
                raise v from None

        try:
            search()
        except Violation:
            self.fail(last[0], last[1], True)
        except Exception:
            if last[0] is None:
                raise
            # observed, but not reproduced in the same way (it depends on what ran before)
            self.fail(last[0], last[1], False)

    def run(self):
        for i, finding in enumerate(known_findings(self.pid)):
            if i % self.count != self.index:
                continue
            try:
                judge(self.prop, finding["spec"])
            except Violation as v:
                self.known.append({"what": finding["what"], "message": str(v)})
        for i, spec in enumerate(regress_specs(self.pid)):
            if i % self.count != self.index:
                continue
            try:
                self.evaluate(spec)
                self.labels["regression spec"] += 1
            except Violation as v:
                self.fail(spec, v, True)
                return
        strata = list(self.prop.strata(self.tier))
        examples = self.prop.EXAMPLES[self.tier]
        # the last strata tend to be the costliest, so they go first; every stratum has its own seed, so it does not
        # matter which worker takes it
        for position, stratum in reversed(list(enumerate(strata))):
            if not self.claim(position):
                continue
            n = max(1, int(examples * stratum.get("weight", 1)))
            self.run_stratum(position, stratum, n)
            if self.failures:
                return

    def result(self):
        return {
            "evaluations": self.evaluations,
            "distinct": len(self.seen),
            "distinct_nontrivial": len(self.nontrivial),
            "labels": dict(self.labels),
            "samples": self.samples,
            "failures": self.failures,
            "known": self.known,
            "truncated": self.truncated,
            "wall": time.time() - self.start,
        }


def worker_main(argv):
    pid, tier, seed, index, count, out = argv
    boot.import_hypothesis()
    boot.import_groco(load_doc(pid)["backend"])
    w = Worker(pid, tier, int(seed), int(index), int(count), os.path.dirname(out))
    w.run()
    with open(out + ".tmp", "w") as f:
        json.dump(w.result(), f)
    os.rename(out + ".tmp", out)


# ------------------------------------------------------------------------------------------- parent


def write_replay(pid, failure, seed, tier):
    directory = os.path.join(boot.VERIF, "replays")
    os.makedirs(directory, exist_ok=True)
    digest = hashlib.sha1(spec_key(failure["spec"]).encode()).hexdigest()[:10]
    path = os.path.join(directory, f"{pid}-{digest}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": pid,
                "spec": failure["spec"],
                "message": failure["message"],
                "reproduced_alone": failure["minimal"],
                "history": [] if failure["minimal"] else failure["history"],
                "seed": seed,
                "tier": tier,
                "run": f"python3 /verif/check.py {pid} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def replay_main(pid, path):
    boot.import_hypothesis()
    boot.import_groco(load_doc(pid)["backend"])
    prop = load(pid)
    data = load_json(path, None)
    for spec in data.get("history", []) + [data["spec"]]:
        try:
            judge(prop, spec)
        except Violation as v:
            print(f"violated: {v}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    print(f"{pid}: the replayed case passes")
    return 0


def memory_available():
    with open("/proc/meminfo") as f:
        for line in f:
            if line.startswith("MemAvailable:"):
                return int(line.split()[1]) * 1024
    return WORKERS * MEMORY_NEEDED


def give_back(scratch, index):
    """Put the strata that a worker had taken back on the pile, as its results are lost."""
    for name in os.listdir(scratch):
        if name.startswith("stratum-"):
            path = os.path.join(scratch, name)
            with open(path) as f:
                owner = f.read()
            if owner in ("", str(index)):
                os.unlink(path)


def check_main(pid, tier, seed):
    import tempfile

    started = time.time()
    boot.unpack_deps()
    scratch = tempfile.mkdtemp(prefix=f"gcheck-{pid}-")
    count = int(os.environ.get("GCHECK_WORKERS") or max(1, min(WORKERS, memory_available() // MEMORY_NEEDED)))

    def begin(i):
        out = os.path.join(scratch, f"{i}.json")
        log = open(os.path.join(scratch, f"{i}.log"), "w")
        cmd = [boot.interpreter(), "-m", "gcheck.worker", pid, tier, str(seed), str(i), str(count), out]
        env = boot.worker_env()
        env["TMPDIR"] = scratch
        env["GCHECK_STARTED"] = str(started)
        return subprocess.Popen(cmd, env=env, cwd=boot.VERIF, stdout=log, stderr=log), out, log

    results, broken = [], []
    pending = {i: begin(i) for i in range(count)}
    replacements = REPLACEMENTS
    while pending:
        for i, (p, out, log) in list(pending.items()):
            if p.poll() is None:
                continue
            del pending[i]
            log.close()
            if p.returncode == 0 and os.path.exists(out):
                results.append(load_json(out, None))
                if results[-1]["failures"]:
                    for q, _, _ in pending.values():
                        q.terminate()
                    for j, (q, _, qlog) in list(pending.items()):
                        q.wait()
                        qlog.close()
                    pending.clear()
                    break
            elif p.returncode == -signal.SIGKILL and replacements:
                # nothing here does that, so the memory of the machine ran out: what it was at is done again
                replacements -= 1
                give_back(scratch, i)
                pending[i] = begin(i)
            else:
                with open(log.name) as f:
                    broken.append(f"worker {i} ended with {p.returncode}:\n" + f.read()[-3000:])
        time.sleep(0.05)
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)

    prop_doc = load_doc(pid)
    labels = collections.Counter()
    samples = []
    for r in results:
        labels.update(r["labels"])
    for k in range(12):
        for r in results:
            if k < len(r["samples"]) and len(samples) < 12:
                samples.append(r["samples"][k])
    failures = [f for r in results for f in r["failures"]]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": prop_doc["rule"],
            "samples": samples,
            "distribution": dict(sorted(labels.items())),
            "stopped_early": any(r["truncated"] for r in results),
            "known_findings_confirmed": [k["what"] for r in results for k in r["known"]],
        },
        "assumptions": prop_doc["assumptions"],
        "wall_s": round(time.time() - started, 1),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for r in results:
        for k in r["known"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if failures:
        for failure in failures[:3]:
            path = write_replay(pid, failure, seed, tier)
            print(f"violated: {failure['message'][:1500]}")
            print(f"  by: {json.dumps(failure['spec'])[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if broken:
        print("\n".join(broken))
        return 2
    cov = evidence["coverage"]
    print(
        f"{pid}: held on {cov['evaluations']} generated cases ({cov['distinct_nontrivial']} distinct and "
        f"non-trivial), seed {seed}, {evidence['wall_s']} s"
    )
    return 0


def load_doc(pid):
    """RULE, ASSUMPTIONS and BACKEND of a property module, without importing it (the parent has no Hypothesis)."""
    import ast

    with open(os.path.join(boot.HERE, "props", f"{pid.lower()}.py")) as f:
        tree = ast.parse(f.read())
    doc = {"rule": "", "assumptions": [], "backend": "jax"}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "BACKEND"):
            doc[node.targets[0].id.lower()] = ast.literal_eval(node.value)
    return doc


def main(argv):
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in SOFT_LIMIT else "quick"
    try:
        if args.replay:
            env = boot.worker_env()
            if os.environ.get("GCHECK_IN_REPLAY") != "1":
                env["GCHECK_IN_REPLAY"] = "1"
                cmd = [boot.interpreter(), os.path.join(boot.VERIF, "check.py"), args.property, "--replay", args.replay]
                return subprocess.call(cmd, env=env, cwd=boot.VERIF)
            return replay_main(args.property, args.replay)
        return check_main(args.property, tier, args.seed)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
