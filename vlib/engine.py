"""
Runner: drives the sub-checks of a property with hypothesis, in parallel shards, and writes the evidence.

A sub-check is a hypothesis strategy that builds a *recipe* (plain data) and a function judging that recipe against the
real code. Recipes being plain data, the shrunk failing recipe is the replay file.
"""
import argparse
import base64
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

import boot

EXIT_OK, EXIT_VIOLATION, EXIT_HARNESS = 0, 1, 3
CASE_TIMEOUT = 120
BUDGET = {"quick": 420.0, "thorough": 3000.0}


class Violation(AssertionError):
    """ The code under test broke the property on this case. """


class CaseTimeout(BaseException):
    """ A single case did not terminate. """


def expect(condition, message):
    """ Oracle assertion. The message may be a callable, only evaluated on failure. """
    if not condition:
        raise Violation(message() if callable(message) else message)


class Ctx:
    """ Given to the judging function to record what the case exercised. """

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, *names):
        """ Mark the case as non-trivial. """
        self.nontrivial = True
        self.labels.update(names)


class Sub:
    """ One generated check: `strategy` draws recipes, `judge(case, ctx)` raises on a broken property. """

    def __init__(self, name, strategy, judge, quick=300, thorough=None, shards=1, rule=""):
        self.name = name
        self.strategy = strategy
        self.judge = judge
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.rule = rule


class Finding:
    """ A recorded (unrepaired) defect: a fixed input, shown to fail on the real code on every run. """

    def __init__(self, ident, probe):
        self.ident = ident
        self.probe = probe


def _short(value, limit=600):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + f"... ({len(text)} chars)"


def _run_case(judge, case):
    ctx = Ctx()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    previous = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    sink = io.StringIO()
    stdout = sys.stdout
    sys.stdout = sink
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            judge(case, ctx)
    except CaseTimeout:
        raise Violation(f"did not terminate within {CASE_TIMEOUT} s") from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)
        sys.stdout = stdout
    return ctx


def _describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.relpath(f.filename, boot.REPO)}:{f.lineno} {f.name}" for f in frames
             if f.filename.startswith(boot.REPO + os.sep)]
    last = frames[-1] if frames else None
    spot = where[-1] if where else (f"{last.filename}:{last.lineno} {last.name}" if last else "?")
    return f"unexpected {type(exc).__name__}: {str(exc)[:400]} (at {spot})"


def _worker(sub, n_examples, seed, deadline, queue):
    """ One shard of one sub-check, in its own process. """
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    try:
        import hypothesis.internal.conjecture.engine as conjecture
        conjecture.MAX_SHRINKING_SECONDS = 90
    except (ImportError, AttributeError):
        pass

    stats = {"sub": sub.name, "evaluations": 0, "nontrivial": {}, "labels": {}, "samples": [], "failure": None,
             "error": None, "stopped": False}
    last_failure = {}

    class _Stop(BaseException):
        pass

    def test(case):
        if time.time() > deadline and not last_failure:
            stats["stopped"] = True
            raise _Stop()
        stats["evaluations"] += 1
        try:
            ctx = _run_case(sub.judge, case)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as exc:
            last_failure["case"] = case
            last_failure["message"] = _describe(exc)
            last_failure["type"] = type(exc).__name__
            raise
        for label in ctx.labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if ctx.nontrivial:
            digest = hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
            stats["nontrivial"][digest] = 1
            if len(stats["samples"]) < 40:
                stats["samples"].append(_short(case))

    runner = settings(max_examples=n_examples, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                      print_blob=False)(hypothesis.given(sub.strategy)(test))
    runner = hypothesis.seed(seed)(runner)
    stderr = sys.stderr
    try:
        sys.stderr = io.StringIO()
        runner()
    except _Stop:
        pass
    except (MemoryError, OSError) as exc:
        stats["error"] = f"{type(exc).__name__}: {exc}" if not last_failure else None
        if last_failure:
            stats["failure"] = dict(last_failure)
    except BaseException as exc:
        if last_failure:
            stats["failure"] = dict(last_failure)
        else:
            stats["error"] = "".join(traceback.format_exception(exc))[-4000:]
    finally:
        sys.stderr = stderr
    failure = stats["failure"]
    if failure is not None:
        failure["case_repr"] = _short(failure["case"], 20000)
        failure["case_pickle"] = base64.b64encode(pickle.dumps(failure.pop("case"))).decode()
    queue.put(stats)


def _shard_seed(seed, name, shard):
    digest = hashlib.blake2b(f"{seed}/{name}/{shard}".encode(), digest_size=6).digest()
    return int.from_bytes(digest, "big")


def _load_findings(prop):
    path = os.path.join(boot.ROOT, "known_findings.txt")
    findings = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file:
            for line in file:
                # "open: property=<id> finding=<name> <what fails>"; "fixed:" lines suppress nothing.
                parts = line.strip().split(" ", 3)
                if len(parts) == 4 and parts[0] == "open:" and parts[1] == f"property={prop}":
                    findings[parts[2].split("=", 1)[1]] = {"what": parts[3]}
    return findings


def _write_replay(prop, failure, sub_name, seed, tier):
    folder = os.path.join(boot.ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    digest = hashlib.blake2b((sub_name + failure["case_pickle"]).encode(), digest_size=5).hexdigest()
    path = os.path.join(folder, f"{prop}-{sub_name}-{digest}.json")
    with open(path, "w", encoding="utf-8") as file:
        json.dump({"property": prop, "sub": sub_name, "seed": seed, "tier": tier, "message": failure["message"],
                   "case": failure["case_repr"], "case_pickle": failure["case_pickle"],
                   "rerun": f"python3 run.py {prop} --replay {os.path.relpath(path, boot.ROOT)}"},
                  file, indent=1, ensure_ascii=True)
    return path


def _write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    folder = os.path.join(boot.ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{prop}.json"), "w", encoding="utf-8") as file:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, file, indent=1)


def _replay(module, path):
    with open(path, encoding="utf-8") as file:
        data = json.load(file)
    case = pickle.loads(base64.b64decode(data["case_pickle"]))
    sub = {s.name: s for s in module.SUBS}[data["sub"]]
    try:
        _run_case(sub.judge, case)
    except Exception as exc:
        traceback.print_exc()
        print(f"case: {data['case']}")
        print(f"VIOLATION property={data['property']} replay={path}")
        print(_describe(exc))
        return EXIT_VIOLATION
    print(f"replay of {path}: the property holds on this case")
    return EXIT_OK


def main(argv):
    if argv[:1] == ["--self-check"]:
        import hypothesis
        import dessia_common.core
        print(f"hypothesis {hypothesis.__version__}, {dessia_common.core.__file__}")
        boot.cleanup()
        return EXIT_OK
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--replay")
    parser.add_argument("--only", help="run a single sub-check")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--jobs", type=int, default=0)
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args(argv)
    replay = os.path.abspath(os.path.join(boot.ROOT, args.replay)) if args.replay else None
    try:
        return _main(args, replay)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR: the check could not run")
        return EXIT_HARNESS
    finally:
        boot.cleanup()


def _main(args, replay):
    start = time.time()
    if args.seed is None:
        try:
            args.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            args.seed = 1
    prop = args.property
    warnings.simplefilter("ignore")
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        module = importlib.import_module(f"checks.{prop.lower()}")
    finally:
        sys.stdout = stdout
    if replay:
        return _replay(module, replay)

    # Known findings: shown on every run, they never hide another violation.
    known = _load_findings(prop)
    for finding in getattr(module, "FINDINGS", []):
        if finding.ident in known:
            try:
                _run_case(lambda case, ctx: finding.probe(), None)
            except Exception as exc:
                print(f"KNOWN-FINDING: property={prop} {finding.ident}: {known[finding.ident]['what']} "
                      f"[{_describe(exc)[:200]}]")

    context = multiprocessing.get_context("fork")
    queue = context.Queue()
    deadline = start + BUDGET[args.tier]
    jobs = []
    for sub in module.SUBS:
        if args.only and sub.name != args.only:
            continue
        total = sub.quick if args.tier == "quick" else sub.thorough
        more = getattr(module, "QUICK", 1) if args.tier == "quick" else 1
        total = max(1, int(total * more * args.scale))
        shards = max(1, min(sub.shards * more if args.tier == "quick" else max(sub.shards, 8), total))
        base, extra = divmod(total, shards)
        for shard in range(shards):
            jobs.append((sub, base + (shard < extra), _shard_seed(args.seed, prop + sub.name, shard)))
    jobs.sort(key=lambda j: -j[1])
    parallel = args.jobs or min(8, os.cpu_count() or 1)
    results, running, pending = [], [], list(jobs)
    hard_limit = deadline + 150
    while pending or running:
        while pending and len(running) < parallel:
            sub, count, seed = pending.pop(0)
            process = context.Process(target=_worker, args=(sub, count, seed, deadline, queue))
            process.start()
            running.append(process)
        try:
            stats = queue.get(timeout=0.5)
            results.append(stats)
        except Exception:
            pass
        alive = []
        for process in running:
            if process.is_alive():
                alive.append(process)
            else:
                process.join()
        running = alive
        if time.time() > hard_limit:
            for process in running:
                process.kill()
            break
    while True:
        try:
            results.append(queue.get(timeout=0.3))
        except Exception:
            break

    wall = time.time() - start
    errors = [r for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]
    evaluations = sum(r["evaluations"] for r in results)
    distinct = {}
    per_sub = {}
    for result in results:
        entry = per_sub.setdefault(result["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        entry["evaluations"] += result["evaluations"]
        for digest in result["nontrivial"]:
            distinct[(result["sub"], digest)] = 1
        for label, count in result["labels"].items():
            entry["labels"][label] = entry["labels"].get(label, 0) + count
    for name, _ in distinct:
        per_sub[name]["distinct_nontrivial"] += 1
    samples = []
    for result in sorted(results, key=lambda r: r["sub"]):
        picked = result["samples"][-2:]
        samples.extend({"sub": result["sub"], "case": case} for case in picked)
    rules = "; ".join(f"{s.name}: {s.rule}" for s in module.SUBS if s.rule)
    coverage = {"evaluations": evaluations, "distinct_nontrivial": len(distinct),
                "rule": "Recipes drawn by hypothesis strategies, seeded by VERIF_SEED. Non-trivial: " + rules,
                "samples": samples[:24], "sub_checks": per_sub,
                "budget_stopped": sum(1 for r in results if r["stopped"])}
    _write_evidence(prop, args.tier, args.seed, coverage, wall, len(failures),
                    getattr(module, "ASSUMPTIONS", []))
    if args.verbose:
        print(json.dumps(per_sub, indent=1))
    for result in failures:
        path = _write_replay(prop, result["failure"], result["sub"], args.seed, args.tier)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  sub-check: {result['sub']}")
        print(f"  case: {_short(result['failure']['case_repr'], 1500)}")
        print(f"  what: {result['failure']['message'][:1500]}")
    if failures:
        return EXIT_VIOLATION
    if errors or len(results) != len(jobs):
        for result in errors:
            print(f"HARNESS-ERROR in {result['sub']}: {result['error']}")
        if len(results) != len(jobs):
            print(f"HARNESS-ERROR: {len(jobs) - len(results)} shard(s) gave no result")
        return EXIT_HARNESS
    print(f"OK property={prop} tier={args.tier} seed={args.seed} evaluations={evaluations} "
          f"distinct_nontrivial={len(distinct)} wall={wall:.1f}s")
    return EXIT_OK
