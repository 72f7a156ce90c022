"""Bounded exhaustive explorer shared by every check.

A check is a Python module `checks/<ID>.py` that exposes

    SPACES = [Space(name, gen, step, bound_text), ...]
    ASSUMPTIONS = [...]

`gen(tier)` enumerates, in a fixed simplest-first order, *every* case of a finite
space (an operation history, an input shape, a sequence of environment answers);
a case is a JSON value.  `step(ctx, case)` executes the case on the real code of
/repo next to a small reference model and raises `Violation` when they differ.
The runner partitions the cases over worker processes; nothing is sampled.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT_LIMIT = {"quick": 600.0, "thorough": 840.0}
CASE_LIMIT = 100  # seconds; an ordinary case takes far less than one


DIED = "a worker process was ended by the code it ran"


class Violation(Exception):
    """The real code left the behaviour the property allows."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(BaseException):
    pass


Space = collections.namedtuple("Space", "name gen step bound")


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big"
    )


class Ctx:
    """Counters and assertions for one worker."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = collections.Counter()
        self.scratch = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def state(self, key):
        """Record a (canonical) state; True when it was not seen by this worker."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        """n transitions: real operations executed and compared with the model."""
        self.transitions += n

    def outcome(self, what):
        self.outcomes[str(what)] += 1

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        self.evaluations += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what, key=None):
        self.evaluations += 1
        if not (got == want):
            raise Violation(f"{what}: got {got!r}, expected {want!r}", key)

    def raises(self, fn, what, exc=Exception, key=None):
        self.evaluations += 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(f"{what}: expected an error, got {r!r}", key)


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def match_known(known, space, case, key):
    for k in known:
        if k["space"] == space and (
            ("case" in k and k["case"] == json.loads(json.dumps(case, default=_json_default)))
            or ("key" in k and key is not None and k["key"] == key)
        ):
            return k["what"]
    return None


def _alarm(signum, frame):
    raise CaseTimeout()


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:]]
    return f"{type(exc).__name__}: {exc} [{' < '.join(reversed(frames))}]"


def from_repo(exc):
    """the error arose inside the code under test"""
    tb = traceback.extract_tb(exc.__traceback__)
    return any("/repo/" in f.filename for f in tb)


def import_failed(pid, tier, seed, exc):
    """Importing or setting up the public interface failed inside /repo."""
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-0.json")
    msg = "unexpected " + _describe(exc)
    with open(path, "w") as f:
        json.dump({"property": pid, "space": None, "message": msg,
                   "replay": f"cd /verif && ./run.sh {pid} quick"}, f, indent=1)
    print(f"  [setting up the interface] {msg}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def run_case(ctx, space, case):
    """Execute one case; returns None or (msg, key)."""
    signal.alarm(CASE_LIMIT)
    try:
        space.step(ctx, case)
        return None
    except Violation as v:
        return (v.msg, v.key)
    except CaseTimeout:
        return (f"did not finish within {CASE_LIMIT} s", "timeout")
    except MemoryError:
        return ("ran out of memory", "timeout")
    except KeyboardInterrupt:
        raise
    except (Exception, SystemExit) as e:  # the real code (or the model) failed unexpectedly
        return ("unexpected " + _describe(e), f"exc:{type(e).__name__}")
    finally:
        signal.alarm(0)


def _worker(args):
    module, tier, w, nw, deadline, scratch, budget, only = args
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.RLIM_INFINITY))
    ctx = Ctx(module.ID, tier)
    ctx.scratch = os.path.join(scratch, f"w{w}")
    os.makedirs(ctx.scratch, exist_ok=True)
    os.chdir(ctx.scratch)
    known = [k for k in load_known() if k.get("property") == module.ID]
    known_hit = set()
    violations = []
    per_space = {}
    samples = []
    capped = []
    for space in module.SPACES:
        if only and space.name not in only:
            continue
        n = 0
        t0 = time.time()
        cases = enumerate(space.gen(tier))
        while True:
            try:
                i, case = next(cases)
            except StopIteration:
                break
            except Exception as e:
                # enumerating never fails on a tree where the property holds
                violations.append((space.name, -1, None, "unexpected " + _describe(e), None))
                break
            if i % nw != w:
                continue
            if time.time() > deadline:
                capped.append(space.name)
                break
            n += 1
            r = run_case(ctx, space, case)
            ctx.traces += 1
            if n <= 2 and len(samples) < 6:
                samples.append({"space": space.name, "case": case})
            if r is not None:
                what = match_known(known, space.name, case, r[1])
                if what is not None:
                    known_hit.add(what)
                    continue
                violations.append((space.name, i, case, r[0], r[1]))
                if len(violations) >= budget or r[1] == "timeout":
                    budget = len(violations)
                    break
        per_space[space.name] = (n, round(time.time() - t0, 2))
        if len(violations) >= budget:
            break
    return dict(
        states=ctx.states,
        transitions=ctx.transitions,
        traces=ctx.traces,
        evaluations=ctx.evaluations,
        outcomes=dict(ctx.outcomes),
        violations=violations,
        per_space=per_space,
        samples=samples,
        capped=capped,
        known_hit=known_hit,
    )


def _json_default(o):
    try:
        import numpy as np

        if isinstance(o, (np.integer,)):
            return int(o)
        if isinstance(o, (np.floating,)):
            return float(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
    except Exception:
        pass
    return repr(o)


def run(module, tier, seed, only=None, workers=None):
    pid = module.ID
    t0 = time.time()
    nw = workers or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    deadline = t0 + SOFT_LIMIT[tier]
    try:
        jobs = [
            (module, tier, w, nw, deadline, scratch, 25, only) for w in range(nw)
        ]
        if nw == 1:
            results = [_worker(jobs[0])]
        else:
            procs = []
            ctxm = multiprocessing.get_context("fork")
            for job in jobs:
                parent, child = ctxm.Pipe(duplex=False)
                p = ctxm.Process(target=_child, args=(job, child))
                p.start()
                child.close()
                procs.append((p, parent))
            results = []
            for p, parent in procs:
                try:
                    r = parent.recv()
                except EOFError:
                    r = DIED
                p.join()
                results.append(r)
            for r in results:
                if isinstance(r, str):
                    sys.stderr.write(r + "\n")
                    if r != DIED:
                        return 2
            if DIED in results:
                return import_failed(pid, tier, seed, RuntimeError(DIED))
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)

    states = set()
    transitions = traces = evaluations = 0
    outcomes = collections.Counter()
    per_space = collections.OrderedDict()
    samples, violations, capped = [], [], set()
    for r in results:
        states |= r["states"]
        transitions += r["transitions"]
        traces += r["traces"]
        evaluations += r["evaluations"]
        outcomes.update(r["outcomes"])
        for k, (n, s) in r["per_space"].items():
            o = per_space.get(k, (0, 0.0))
            per_space[k] = (o[0] + n, max(o[1], s))
        samples += r["samples"]
        violations += r["violations"]
        capped |= set(r["capped"])
    order = {s.name: k for k, s in enumerate(module.SPACES)}
    violations.sort(key=lambda v: (order[v[0]], v[1]))

    reported = violations
    for what in sorted(set().union(*[r["known_hit"] for r in results])):
        print(f"KNOWN-FINDING: property={pid} {what}")

    wall = time.time() - t0
    bounds = {s.name: s.bound for s in module.SPACES}
    seen_spaces, picked = set(), []
    for s in samples:
        if s["space"] not in seen_spaces:
            seen_spaces.add(s["space"])
            picked.append(s)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "evaluations": evaluations,
            "samples": picked[:8] or samples[:3],
            "exhaustive": not capped and not only,
            "capped_spaces": sorted(capped),
            "cases_per_space": {k: v[0] for k, v in per_space.items()},
            "seconds_per_space": {k: v[1] for k, v in per_space.items()},
            "bounds": bounds,
            "distinct_outcomes": len(outcomes),
            "outcomes": dict(outcomes.most_common(20)),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=_json_default)
        f.write("\n")

    print(
        f"{pid} {tier}: cases={traces} states={len(states)} transitions={transitions} "
        f"comparisons={evaluations} outcomes={len(outcomes)} wall={wall:.1f}s"
        + (f" CAPPED {sorted(capped)}" if capped else "")
    )
    for k, (n, s) in per_space.items():
        print(f"  space {k}: cases={n} slowest-worker={s:.1f}s")
    if not reported and (traces == 0 or not states):
        sys.stderr.write("vacuous exploration: no case was executed\n")
        return 2
    if not reported:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (space, i, case, msg, key) in enumerate(reported[:3]):
        path = os.path.join(rdir, f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "space": space, "index": i, "case": case,
                 "message": msg, "key": key,
                 "replay": f"cd /verif && ./run.sh {pid} --replay {path}"},
                f, indent=1, default=_json_default)
            f.write("\n")
        print(f"  [{space}#{i}] {msg[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1


def _child(job, conn):
    try:
        r = _worker(job)
    except BaseException as e:
        r = "worker failed: " + "".join(
            traceback.format_exception(type(e), e, e.__traceback__)
        )
    conn.send(r)
    conn.close()
    os._exit(0)


def replay(module, path):
    with open(path) as f:
        rec = json.load(f)
    space = next(s for s in module.SPACES if s.name == rec["space"])
    signal.signal(signal.SIGALRM, _alarm)
    # regenerate the case from its position, so that tuples etc. are the originals
    case = None
    for tier in ("quick", "thorough"):
        for i, c in enumerate(space.gen(tier)):
            if i == rec["index"]:
                if json.loads(json.dumps(c, default=_json_default)) == rec["case"]:
                    case = c
                break
        if case is not None:
            break
    if case is None:
        sys.stderr.write("replay file does not name a case of this space\n")
        return 2
    ctx = Ctx(module.ID, "quick")
    ctx.scratch = tempfile.mkdtemp(prefix=f"mc-replay-{module.ID}-")
    os.chdir(ctx.scratch)
    try:
        r1 = run_case(ctx, space, case)
        r2 = run_case(ctx, space, case)
    finally:
        os.chdir(VERIF)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if (r1 is None) != (r2 is None):
        sys.stderr.write("replay diverged between two runs of the same case\n")
        return 2
    if r1 is None:
        print("case holds")
        return 0
    print(f"[{space.name}] {r1[0]}")
    print(f"VIOLATION property={module.ID} replay={path}")
    return 1
