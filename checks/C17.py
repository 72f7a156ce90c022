"""C17: backends run every circuit with the requested shots and count what they run."""
import itertools
import math

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from mc.rng import closed
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import RX, Circuit
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.bitstring_distribution import BitstringDistribution
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C17"
ASSUMPTIONS = ["backends override the documented methods and call the base implementation for validation and counting, as the interface asks"]
TECHNIQUE = "exhaustive exploration of call histories on every kind of backend next to a counting model"

# circuits with a single possible outcome, then superpositions
def g(name, *q, p=()):
    return ["g", name, list(p), list(q), []]


CIRCS = [
    ([g("X", 0)], 2), ([g("X", 1), g("CNOT", 1, 2)], 3), ([], 1), ([g("I", 0), g("X", 2)], 4), ([g("H", 0), g("H", 0), g("X", 0)], 1),
    ([g("H", 0), g("CNOT", 0, 1)], 2), ([g("X", 1), ["m", 2, 1], g("H", 0)], 2), ([["m", 1, 2]], 1), ([["m", 2, 1], ["m", 2, 2], g("X", 0), g("X", 0), g("X", 0), ["m", 2, 3]], 2),
]
_cache = {}


def circ(i):
    if i not in _cache:
        ds, n = CIRCS[i]
        psi = ref.run([zq.ref_op(d) for d in ds], n)
        probs = [abs(x) ** 2 for x in psi]
        _cache[i] = (zq.real_circuit(ds, n), n, {ref.bits(k, n): p for k, p in enumerate(probs) if p > 1e-9}, ds)
    return _cache[i]


class Plain(QuantumBackend):
    """a device without batching: answers from the ideal distribution, more shots than asked when `extra`"""

    def __init__(self, extra=0):
        super().__init__()
        self.extra, self.log = extra, []
        self.fail_on = None

    def answer(self, circuit, n):
        for i in range(len(CIRCS)):
            c, _, dist, _ = circ(i)
            if c == circuit:
                outs = sorted(dist)
                self.log.append((i, n))
                return Measurements([outs[k % len(outs)] for k in range(n + self.extra)])
        raise AssertionError("unknown circuit reached the device")

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return self.answer(circuit, n_samples)


def batching(size):
    class Batch(Plain):
        supports_batching = True
        batch_size = size

        def run_circuitset_and_measure(self, circuits, n_samples):
            super().run_circuitset_and_measure(circuits, n_samples)
            return [self.answer(c, n) for c, n in zip(circuits, n_samples)]

    return Batch


class Sim(QuantumSimulator):
    """a simulator whose native operations are given by a predicate"""

    def __init__(self, pred):
        super().__init__()
        self.pred, self.native = pred, []

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        dist = self.get_measurement_outcome_distribution(circuit).distribution_dict
        outs = sorted(k for k, v in dist.items() if v > 1e-9)
        return Measurements([tuple(outs[k % len(outs)]) for k in range(n_samples)])

    def _get_wavefunction_from_native_circuit(self, circuit, state):
        self.native.append(len(circuit.operations))
        for op in circuit.operations:
            state = op.apply(state)
        return state

    def is_natively_supported(self, op):
        return self.pred(op)


GATEONLY = lambda op: hasattr(op, "gate")
KINDS = {
    "mock": (lambda: MockQuantumBackend(), 1, None),
    "symbolic": (lambda: SymbolicSimulator(seed=7), 1, None),
    "symbolic-unseeded": (lambda: SymbolicSimulator(), 1, None),
    "plain": (lambda: Plain(), 1, None),
    "plain-extra": (lambda: Plain(extra=2), 1, None),
    "batch1": (lambda: batching(1)(), 1, 1), "batch2": (lambda: batching(2)(), 1, 2), "batch3": (lambda: batching(3)(), 1, 3), "batch100": (lambda: batching(100)(), 1, 100),
    "sim-gates": (lambda: Sim(GATEONLY), 1, None), "sim-x": (lambda: Sim(lambda op: getattr(getattr(op, "gate", None), "name", "") == "X"), 1, None),
}


def native_runs(kind, ds):
    """number of maximal native runs"""
    if kind.startswith("symbolic") :
        f = lambda d: True
    elif kind == "sim-gates":
        f = lambda d: d[0] != "m"
    else:
        f = lambda d: d[0] == "g" and d[1] == "X"
    return sum(1 for k, _ in itertools.groupby(ds, f) if k)


# history steps
STEPS = [["run", 0, 3], ["run", 1, 1], ["run", 8, 2], ["run", 2, 0], ["run", 3, -1], ["set", [0, 1, 2], [2, 1, 3]], ["set", [], []], ["set", [5, 4, 3, 1, 0], [4, 1, 1, 2, 5]],
         ["set", [0, 1], [2]], ["set", [0], [2, 3]], ["set", [0, 2, 1], [1, 0, 1]], ["set", [6, 6], [2, 2]], ["dist", 5, 4], ["bits", 1, 2], ["dist", 6, None], ["wf", 8, None], ["exact", 6, None], ["dist", 0, 0],
         ["settuple", [3, 4], [1, 7]], ["bits", 7, None]]


def gen(tier):
    depth = 2 if tier == "quick" else 3
    for kind in KINDS:
        steps = [s for s in range(len(STEPS)) if allowed(kind, STEPS[s])]
        for d in range(1, depth + 1):
            for h in itertools.product(steps, repeat=d):
                yield [kind, list(h)]


def is_sim(kind):
    return kind.startswith("s")


def allowed(kind, s):
    if s[0] in ("wf", "exact") or (s[0] in ("dist", "bits") and s[2] is None):
        return is_sim(kind)
    return True


def step_hist(ctx, case):
    kind, hist = case
    from mc.ref import Chooser
    with closed(Chooser([])):
        b = KINDS[kind][0]()
        bs = KINDS[kind][2]
        want_c = want_j = 0
        ctx.eq((b.number_of_circuits_run, b.number_of_jobs_run), (0, 0), f"{kind}: counters of a new backend")
        log = []
        for s in hist:
            op, a, n = STEPS[s]
            what = f"{kind}, history {[STEPS[k] for k in hist]}, step {STEPS[s]}"
            before = (b.number_of_circuits_run, b.number_of_jobs_run)

            def one(i, shots):
                """work of running circuit i once"""
                ds = circ(i)[3]
                if kind.startswith("symbolic"):
                    return (native_runs(kind, ds),) * 2
                if kind.startswith("sim"):
                    k = native_runs(kind, ds)
                    return (1 + k,) * 2
                return 1, 1

            def verify(i, shots, m):
                c, nq, dist, _ = circ(i)
                extra = b.extra if hasattr(b, "extra") else 0
                ctx.check(isinstance(m, Measurements) and len(m.bitstrings) == shots + extra, lambda: f"{what}: {len(m.bitstrings)} shots for circuit {i}, requested {shots}")
                ctx.check(all(tuple(x) in dist for x in m.bitstrings), lambda: f"{what}: circuit {i} cannot give {m.bitstrings}")

            if op == "run":
                if n < 1:
                    ctx.raises(lambda: b.run_circuit_and_measure(circ(a)[0], n), what, ValueError)
                    if kind.startswith("symbolic"):  # simulates (and counts) before it samples
                        want_c, want_j = b.number_of_circuits_run, b.number_of_jobs_run
                        ctx.check(want_c - before[0] in (0, one(a, n)[0]), f"{what}: counters")
                else:
                    verify(a, n, b.run_circuit_and_measure(circ(a)[0], n))
                    c, j = one(a, n)
                    want_c, want_j = want_c + c, want_j + j
                    log.append((a, n))
            elif op in ("set", "settuple"):
                cs = [circ(i)[0] for i in a]
                ns = list(n)
                if op == "settuple":
                    cs, ns = tuple(cs), tuple(ns)
                if len(a) != len(n):
                    ctx.raises(lambda: b.run_circuitset_and_measure(cs, ns), what, ValueError)
                elif any(k < 1 for k in n) and bs is None:
                    ctx.raises(lambda: b.run_circuitset_and_measure(cs, ns), what, ValueError)
                    # whatever ran before the rejection is counted, nothing else
                    done = list(itertools.takewhile(lambda p: p[1] >= 1, zip(a, n)))
                    opts = [(sum(one(*p)[0] for p in done[:k]), sum(one(*p)[1] for p in done[:k])) for k in range(len(done) + 1)]
                    bad = next(p for p in zip(a, n) if p[1] < 1)
                    if kind.startswith("symbolic"):
                        opts.append((opts[-1][0] + one(*bad)[0],) * 2)
                    got = (b.number_of_circuits_run - before[0], b.number_of_jobs_run - before[1])
                    ctx.check(got in opts, lambda: f"{what}: counters moved by {got}, allowed {opts}")
                    if hasattr(b, "log"):
                        ctx.eq((len(b.log) - len(log),) * 2, got, f"{what}: counters against circuits the device ran")
                        log = list(b.log)
                    want_c, want_j = b.number_of_circuits_run, b.number_of_jobs_run
                else:
                    res = b.run_circuitset_and_measure(cs, ns)
                    ctx.check(isinstance(res, list) and len(res) == len(a), lambda: f"{what}: {len(res)} records")
                    for i, k, m in zip(a, n, res):
                        verify(i, k, m)
                        log.append((i, k))
                    if bs is not None:
                        want_c += len(a)
                        want_j += -(-len(a) // bs)
                    else:
                        for i, k in zip(a, n):
                            want_c += one(i, k)[0]
                            want_j += one(i, k)[1]
                ctx.check(list(cs) == [circ(i)[0] for i in a] and list(ns) == list(n), f"{what}: inputs changed")
            elif op in ("dist", "bits"):
                f = b.get_measurement_outcome_distribution if op == "dist" else b.get_bitstring_distribution
                if n == 0:
                    ctx.raises(lambda: f(circ(a)[0], n), what, ValueError)
                    if kind.startswith("symbolic"):
                        want_c, want_j = b.number_of_circuits_run, b.number_of_jobs_run
                else:
                    d = f(circ(a)[0]) if n is None else f(circ(a)[0], n)
                    ctx.check(isinstance(d, MeasurementOutcomeDistribution) and isinstance(d, BitstringDistribution) == (op == "bits"), f"{what}: type {type(d)}")
                    dd = {tuple(k): v for k, v in d.distribution_dict.items() if v > 1e-12}
                    ideal = circ(a)[2]
                    ctx.check(set(dd) <= set(ideal) and abs(sum(dd.values()) - 1) < 1e-9, lambda: f"{what}: {dd}")
                    if n is None:
                        ctx.check(all(abs(dd.get(k, 0) - v) < 1e-9 for k, v in ideal.items()), lambda: f"{what}: {dd} expected {ideal}")
                        k = native_runs(kind, circ(a)[3])
                        want_c, want_j = want_c + k, want_j + k
                    else:
                        k = n + (b.extra if hasattr(b, "extra") else 0)
                        ctx.check(all(abs(v * k - round(v * k)) < 1e-9 for v in dd.values()), lambda: f"{what}: {dd} is not a frequency of {k} shots")
                        c, j = one(a, n)
                        want_c, want_j = want_c + c, want_j + j
                        log.append((a, n))
            else:
                if op == "wf":
                    b.get_wavefunction(circ(a)[0])
                else:
                    b.get_exact_expectation_values(circ(a)[0], QubitOperator("Z0") + QubitOperator("X0 X1", 2.0))
                k = native_runs(kind, circ(a)[3])
                want_c, want_j = want_c + k, want_j + k
            ctx.step()
            ctx.eq((b.number_of_circuits_run, b.number_of_jobs_run), (want_c, want_j), f"{what}: counters of circuits and jobs")
            if hasattr(b, "log"):
                ctx.eq(b.log, log, f"{what}: circuits and shots the device received")
            ctx.state((kind, s, want_c, want_j))


def gen_sizes(tier):
    for kind in ("mock", "symbolic", "symbolic-unseeded"):
        for n in [1, 2, 3, 7, 10, 33, 64, 100, 101, 1000] + ([20000] if tier == "thorough" else []):
            for i in range(len(CIRCS)):
                yield [kind, n, i]
    for size in range(1, 9):
        for L in range(0, 20):
            yield ["batch", size, L]
    for bad in (None, 0, -1, 2.0, "2", True):
        yield ["badbatch", bad, 0]


def step_sizes(ctx, case):
    kind, n, i = case
    ctx.state(tuple(case))
    ctx.step()
    if kind == "batch":
        b = batching(n)()
        ids = [k % len(CIRCS) for k in range(i)]
        for rep in (1, 2):
            res = b.run_circuitset_and_measure([circ(k)[0] for k in ids], [k + 1 for k in ids])
            ctx.eq([len(m.bitstrings) for m in res], [k + 1 for k in ids], f"batches of {n}, {i} circuits: shots")
            ctx.eq((b.number_of_circuits_run, b.number_of_jobs_run), (rep * i, rep * -(-i // n)), f"batches of {n}, {i} circuits, repetition {rep}: counters")
        return
    if kind == "badbatch":
        if n is True:
            return
        ctx.raises(lambda: batching(n)(), f"batch size {n!r}", (AssertionError, TypeError, ValueError))
        return
    b = KINDS[kind][0]()
    m = b.run_circuit_and_measure(circ(i)[0], n)
    ctx.eq(len(m.bitstrings), n, f"{kind}: shots for circuit {i}")
    ctx.check(all(tuple(x) in circ(i)[2] for x in m.bitstrings), lambda: f"{kind}: impossible outcome in {set(map(tuple, m.bitstrings))} of circuit {i}")
    ms = b.run_circuitset_and_measure([circ(i)[0]] * 3, [n, 1, n + 1])
    ctx.eq([len(x.bitstrings) for x in ms], [n, 1, n + 1], f"{kind}: shots for a set of circuit {i}")


def gen_long(tier):
    """histories that repeat a short pattern"""
    for kind in KINDS:
        ok = [s for s in (0, 1, 5, 6, 7, 10, 12, 15, 18, 8) if allowed(kind, STEPS[s])]
        for pat in itertools.product(ok, repeat=2):
            if tier == "quick" and (pat[0] + pat[1]) % 2:
                continue
            yield [kind, (list(pat) * 20)[: 23 if tier == "quick" else 40]]


def gen_big(tier):
    for size in (1, 7, 10, 11, 32, 50, 64, 99, 100, 101, 128, 1000):
        for L in (20, 21, 50, 63, 64, 65, 99, 100, 101, 200, 257):
            yield [size, L]


def step_big(ctx, case):
    size, L = case
    ctx.state((size, L))
    ctx.step()
    for extra in (0, 1):
        b = batching(size)(extra)
        ids = [(k * 5 + k // 9) % len(CIRCS) for k in range(L)]
        ns = [1 + (k * 3) % 17 for k in range(L)]
        for rep in (1, 2, 3):
            res = b.run_circuitset_and_measure([circ(k)[0] for k in ids], ns)
            ctx.eq([len(m.bitstrings) for m in res], [n + extra for n in ns], f"batches of {size}, {L} circuits: shots")
            ctx.check(all(set(map(tuple, m.bitstrings)) <= set(circ(i)[2]) for m, i in zip(res, ids)), f"batches of {size}, {L} circuits: order of the records")
            ctx.eq((b.number_of_circuits_run, b.number_of_jobs_run), (rep * L, rep * -(-L // size)), f"batches of {size}, {L} circuits, repetition {rep}: counters")
        ctx.eq(b.log, list(zip(ids, ns)) * 3, f"batches of {size}, {L} circuits: circuits and shots the device received")
    p = Plain()
    res = p.run_circuitset_and_measure([circ(k)[0] for k in ids], ns)
    ctx.eq(p.log, list(zip(ids, ns)), f"{L} circuits on a plain backend")
    ctx.eq((p.number_of_circuits_run, p.number_of_jobs_run), (L, L), f"{L} circuits on a plain backend: counters")


def gen_wide(tier):
    n = 11
    for kind in ("symbolic", "sim-gates", "mock"):
        for i in range(n):
            for j in range(i, n):
                if tier == "quick" and (i + j) % 3:
                    continue
                yield [kind, n, i, j]


def step_wide(ctx, case):
    """a basis state of 11 qubits: every record and distribution shows exactly its flipped qubits"""
    kind, n, i, j = case
    ctx.state(tuple(case))
    c = Circuit([zq.real_op(g("X", i))] + ([zq.real_op(g("X", j))] if i != j else []), n_qubits=n)
    want = tuple(int(k in (i, j)) for k in range(n))
    b = KINDS[kind][0]()
    ctx.step()
    shots = 7 + 30000 * (i == j)
    ms = b.run_circuitset_and_measure([c, c], [shots, 3])
    ctx.check([len(m.bitstrings) for m in ms] == [shots, 3] and all(set(map(tuple, m.bitstrings)) == {want} for m in ms), lambda: f"{case}: {[set(map(tuple, m.bitstrings)) for m in ms]}, expected {want}")
    d = b.get_measurement_outcome_distribution(c, 5)
    ctx.check({tuple(k): v for k, v in d.distribution_dict.items() if v} == {want: 1.0}, f"{case}: distribution from shots")
    if kind != "mock":
        d = b.get_measurement_outcome_distribution(c)
        ctx.check({tuple(k) for k, v in d.distribution_dict.items() if abs(v - 1) < 1e-9} == {want} and all(v < 1e-9 or abs(v - 1) < 1e-9 for v in d.distribution_dict.values()), f"{case}: exact distribution")
        op = QubitOperator()
        for q in range(n):
            op += QubitOperator(((q, "Z"),), q + 1.0)
        op += QubitOperator(((i, "Z"), ((i + 1) % n, "Z")) if i + 1 < n else (((i + 1) % n, "Z"), (i, "Z")), 0.5)
        e = b.get_exact_expectation_values(c, op)
        sg = [(-1) ** x for x in want]
        w = [(q + 1.0) * sg[q] for q in range(n)] + [0.5 * sg[i] * sg[(i + 1) % n]]
        ctx.check(np.allclose(np.asarray(e.values, dtype=complex), w), lambda: f"{case}: exact values {e.values}, expected {w}")


# ---- circuits with parameters, bound when they are run --------------------------------------------
def gen_params(tier):
    for k in (1, 2, 3):
        for bits in itertools.product((0, 1), repeat=k):
            for form in ("full", "extra", "missing", "none", "bound", "empty"):
                for shots in (1, 3) if tier == "quick" else (1, 2, 3, 50):
                    yield [list(bits), form, shots]


def step_params(ctx, case):
    bits, form, shots = case
    ctx.state(repr(case))
    k = len(bits)
    syms = [sympy.Symbol("theta_%d" % i) for i in range(k)]
    c = Circuit([RX(syms[i])(i) for i in range(k)] + [RX(-syms[0] / 2)(k), RX(syms[0] / 2)(k)])
    keep = Circuit(c.operations, c.n_qubits)
    values = {s: math.pi * b for s, b in zip(syms, bits)}
    sim = SymbolicSimulator(seed=5)
    if form == "extra":
        values[sympy.Symbol("unused")] = 0.3
    elif form == "missing":
        del values[syms[-1]]
    given = dict(values)
    call = {"none": lambda: sim.run_circuit_and_measure(c, shots), "bound": lambda: sim.run_circuit_and_measure(c.bind(values), shots), "empty": lambda: sim.run_circuit_and_measure(c, shots, {})}.get(
        form, lambda: sim.run_circuit_and_measure(c, shots, symbol_map=values))
    ctx.step()
    if form in ("none", "missing", "empty"):
        ctx.raises(call, "running a circuit with free symbols", ValueError)
    else:
        m = call()
        ctx.check(isinstance(m, Measurements) and m.bitstrings == [tuple(bits) + (0,)] * shots, lambda: "%s: shots %s" % (case, m.bitstrings))
        ctx.eq([sim.number_of_circuits_run, sim.number_of_jobs_run], [1, 1], "counters")
        m = sim.run_circuit_and_measure(c, shots + 1, {s: math.pi * (1 - b) for s, b in zip(syms, bits)})
        ctx.check(m.bitstrings == [tuple(1 - b for b in bits) + (0,)] * (shots + 1), "shots of the same circuit with other values")
    ctx.check(c == keep and values == given, "running changed the circuit or the values")


FRESH = zqfresh.Fresh(zqfreshlist.C17)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("histories", gen, step_hist, "all call histories of depth 2 (thorough 3) over 20 calls on 11 kinds of backend (bundled, plain, four batch sizes, partially native simulators)"),
    Space("sizes", gen_sizes, step_sizes, "all shot numbers of a list, 8 batch sizes with sets of 0-19 circuits, invalid batch sizes"),
    Space("long", gen_long, step_hist, "histories of 23 (thorough 40) calls that repeat every pair of 10 calls, on 11 kinds of backend"),
    Space("big-sets", gen_big, step_big, "12 batch sizes to 1000 with sets of 20-257 circuits, three rounds each, records with and without extra shots"),
    Space("wide", gen_wide, step_wide, "basis states of 11 qubits with one or two flipped, three backends, to 30007 shots"),
    Space("parameters", gen_params, step_params, "circuits with up to 3 parameters bound when they are run: all bit patterns, complete, missing, superfluous and empty maps"),
]
