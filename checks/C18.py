"""C18: tracking measurements is transparent and loses nothing."""
import itertools
import json
import os

import sympy

from mc.core import Space
from mc.ref import Chooser
from mc.rng import closed
from checks import zq
from zquantum.core.bitstring_distribution import BitstringDistribution
from zquantum.core.circuits import Circuit, RX, X, circuit_from_dict
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.mock_objects import MockQuantumBackend
from zquantum.core.measurement import Measurements
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.trackers import MeasurementTrackingBackend
from zquantum.core.utils import SCHEMA_VERSION

ID = "C18"
ASSUMPTIONS = ["circuits consist of gates (other operations have no serialized form)", "the session starts when the wrapper is created"]
TECHNIQUE = "exhaustive exploration of call histories on tracked backends next to a model of the whole session's records"


def g(name, *q, p=()):
    return ["g", name, list(p), list(q), []]


CIRCS = [
    ([g("X", 0)], 2), ([g("X", 1), g("CNOT", 1, 2)], 3), ([], 1), ([g("H", 0), ["g", "RX", [0.3], [2], [1, "d"][:0] + ["d"]], ["g", "RX", [-1.25], [3, 1], [1]]], 4),
    ([["c", "CU2", [1, 0], []], ["c", "CU1", [2, 0], [1, "d"]]], 3), ([g("H", 0), g("CNOT", 0, 1)], 2),
]


def circ(i):
    return zq.real_circuit(*CIRCS[i])


class Device(QuantumBackend):
    """answers made of a running number, so that every shot of a session is distinguishable; keeps what it returned"""

    def __init__(self):
        super().__init__()
        self.returned, self.serial, self.calls = [], 0, []

    def shots(self, circuit, n):
        out = []
        for _ in range(n):
            self.serial = (self.serial * 5 + 3) % 97
            out.append(tuple((self.serial >> k) & 1 for k in range(circuit.n_qubits)))
        m = Measurements(out)
        self.returned.append(m)
        return m

    def run_circuit_and_measure(self, circuit, n_samples):
        self.calls.append(("run", circuit, n_samples))
        super().run_circuit_and_measure(circuit, n_samples)
        return self.shots(circuit, n_samples)

    def run_circuitset_and_measure(self, circuits, n_samples):
        self.calls.append(("set", list(circuits), list(n_samples)))
        if any(n < 1 for n in n_samples):
            raise ValueError("no shots")
        return [self.shots(c, n + (1 if self.noisy else 0)) for c, n in zip(circuits, n_samples)]

    noisy = False

    def get_measurement_outcome_distribution(self, circuit, n_samples):
        self.calls.append(("dist", circuit, n_samples))
        if n_samples is not None and n_samples < 1:
            raise ValueError("no shots")
        d = MeasurementOutcomeDistribution({(0,) * circuit.n_qubits: 0.25 + (len(self.calls) % 3) / 8, (1,) * circuit.n_qubits: 0.75 - (len(self.calls) % 3) / 8})
        self.returned.append(d)
        return d

    def get_bitstring_distribution(self, circuit, n_samples):
        self.calls.append(("bits", circuit, n_samples))
        if n_samples is not None and n_samples < 1:
            raise ValueError("no shots")
        d = BitstringDistribution({(0,) * circuit.n_qubits: 0.5 - (len(self.calls) % 5) / 16, (1,) * circuit.n_qubits: 0.5 + (len(self.calls) % 5) / 16})
        self.returned.append(d)
        return d


class GenerousDevice(Device):
    noisy = True
    supports_batching = True
    batch_size = 2


INNER = [Device, GenerousDevice, lambda: SymbolicSimulator(seed=3), MockQuantumBackend]
STEPS = [["run", 0, 2], ["run", 3, 5], ["run", 2, 1], ["run", 4, 0], ["set", [0, 1, 4], [1, 2, 3]], ["set", [], []], ["set", [5, 5], [2, 1]], ["set", [0, 1], [1, 0]], ["dist", 1, 4], ["dist", 3, None], ["dist", 0, 0], ["bits", 5, 3],
         ["bits", 2, None], ["settuple", [3, 0], [1, 1]]]


def gen(tier):
    depth = 2 if tier == "quick" else 3
    for inner in range(len(INNER)):
        for rec in (False, True, None):
            for d in range(1, depth + 1):
                if d == 3 and rec is None:
                    continue
                for h in itertools.product([k for k, s in enumerate(STEPS) if not (s[2] is None and inner == 3)], repeat=d):
                    yield [inner, rec, list(h), d % 2]
    # long sessions: every call repeated, in both directions
    for inner in range(len(INNER)):
        ok = [k for k, s in enumerate(STEPS) if not (s[2] is None and inner == 3)]
        for rec in (False, True):
            yield [inner, rec, ok + ok[::-1], 1]
            for k in ok:
                yield [inner, rec, [k] * 6, 0]


def load(path):
    with open(path) as f:
        return json.load(f)


def counts(bitstrings):
    out = {}
    for b in bitstrings:
        k = "".join(str(int(x)) for x in b)
        out[k] = out.get(k, 0) + 1
    return out


def same_entry(ctx, what, got, want):
    kind, dev, c, res, shots, rec = want
    ctx.eq(got["data_type"], {"m": "measurement", "dist": "measurement outcome distribution", "bits": "bitstring distribution"}[kind], f"{what}: type")
    ctx.eq(got["device"], dev, f"{what}: device")
    ctx.check(circuit_from_dict(got["circuit"]) == c, lambda: f"{what}: circuit {got['circuit']} for {c}")
    ctx.eq(got["number_of_gates"], len(c.operations), f"{what}: gates")
    ctx.eq(got["number_of_shots"], shots, f"{what}: shots")
    if kind == "m":
        ctx.eq(got["counts"], counts(res), f"{what}: counts")
        ctx.eq("bitstrings" in got, bool(rec), f"{what}: presence of the individual shots")
        if rec:
            ctx.eq(got["bitstrings"], [list(map(int, b)) for b in res], f"{what}: individual shots")
    else:
        ctx.eq(got["distribution"], res, f"{what}: distribution")


def step_hist(ctx, case):
    inner_id, rec, hist, dirty = case
    with closed(Chooser([])):
        inner = INNER[inner_id]()
        name = type(inner).__name__
        path = os.path.join(ctx.scratch, f"track-{os.getpid()}")
        other = path + "-other"
        for p in (path, other):
            if os.path.exists(p):
                os.remove(p)
        if dirty:
            with open(path, "w") as f:
                f.write("left over from " + "an older session " * 200)
        kw = {} if rec is None else {"record_bitstrings": rec}
        t = MeasurementTrackingBackend(inner, path, **kw)
        bystander = MeasurementTrackingBackend(Device(), other, **kw)
        bystander.run_circuit_and_measure(circ(0), 1)
        snapshot = load(other)
        model, saved = [], False
        fake = isinstance(inner, Device)
        for pos, s in enumerate(hist):
            op, a, n = STEPS[s]
            what = f"{name}, shots kept {rec}, history {[STEPS[k] for k in hist]}, call {pos + 1}"
            k0 = len(inner.returned) if fake else 0
            nc = len(inner.calls) if fake else 0
            ctx.step()
            bad = n == 0 or (isinstance(n, list) and 0 in n)
            if op == "run":
                c = circ(a)
                if bad:
                    ctx.raises(lambda: t.run_circuit_and_measure(c, n), what, ValueError)
                else:
                    m = t.run_circuit_and_measure(c, n)
                    model.append(("m", name, c, list(m.bitstrings), len(m.bitstrings), rec))
                    ctx.check(not fake or (m is inner.returned[-1] and inner.calls[nc:] == [("run", c, n)]), f"{what}: result or calls of the wrapped backend differ")
                    ctx.check(len(m.bitstrings) == n, f"{what}: shots")
            elif op in ("set", "settuple"):
                cs = [circ(i) for i in a]
                ns = list(n)
                if op == "settuple":
                    cs, ns = tuple(cs), tuple(ns)
                if bad:
                    ctx.raises(lambda: t.run_circuitset_and_measure(cs, ns), what, ValueError)
                else:
                    ms = t.run_circuitset_and_measure(cs, ns)
                    ctx.eq(len(ms), len(a), f"{what}: records")
                    for c, m in zip(cs, ms):
                        model.append(("m", name, c, list(m.bitstrings), len(m.bitstrings), rec))
                    ctx.check(not fake or (len(ms) == len(inner.returned) - k0 and all(x is y for x, y in zip(ms, inner.returned[k0:]))
                                           and inner.calls[nc:] == [("set", list(cs), list(ns))]), f"{what}: result or calls of the wrapped backend differ")
            else:
                c = circ(a)
                f = t.get_measurement_outcome_distribution if op == "dist" else t.get_bitstring_distribution
                if bad:
                    ctx.raises(lambda: f(c, n), what, ValueError)
                else:
                    d = f(c, n)
                    model.append((op, name, c, repr(d), n, rec))
                    ctx.check(not fake or (d is inner.returned[-1] and inner.calls[nc:] == [(op, c, n)]), f"{what}: result or calls of the wrapped backend differ")
                    ctx.eq(type(d), MeasurementOutcomeDistribution if op == "dist" else BitstringDistribution, f"{what}: type")
            saved = saved or not bad
            if saved:
                ctx.check(os.path.exists(path), f"{what}: no data file")
                data = load(path)
                ctx.eq(data["schema"], SCHEMA_VERSION + "-raw-data", f"{what}: schema")
                ctx.eq(len(data["raw-data"]), len(model), f"{what}: number of entries in the file")
                for i, (got, want) in enumerate(zip(data["raw-data"], model)):
                    same_entry(ctx, f"{what}, entry {i}", got, want)
            ctx.state((inner_id, rec, s, len(model)))
        ctx.check(load(other) == snapshot, f"{case}: the file of another session changed")


def gen_long(tier):
    for inner in range(len(INNER)):
        for rec in (False, True):
            for L, size in ((12, 1), (12, 12), (33, 3), (101, 1)) if tier == "quick" else itertools.product((12, 33, 101), (1, 3, 12)):
                for edit in (0, 1):
                    yield [inner, rec, L, size, edit]
            for shots in (33000, 70000):
                yield [inner, rec, -1, shots, 0]


def step_long(ctx, case):
    """sessions of many calls, large sets, many shots; results edited by the caller after the call"""
    inner_id, rec, L, size, edit = case
    with closed(Chooser([])):
        inner = INNER[inner_id]()
        name = type(inner).__name__
        path = os.path.join(ctx.scratch, f"track-long-{os.getpid()}")
        if os.path.exists(path):
            os.remove(path)
        t = MeasurementTrackingBackend(inner, path, record_bitstrings=rec)
        model = []
        ctx.state(tuple(case))
        if L < 0:
            c = circ(5)
            m = t.run_circuit_and_measure(c, size)
            model.append(("m", name, c, list(m.bitstrings), len(m.bitstrings), rec))
            ctx.eq(len(m.bitstrings), size, f"{case}: shots")
        for k in range(max(L, 0)):
            ctx.step()
            if k % 4 == 3 and inner_id != 3:
                c = circ(k % 6)
                d = t.get_measurement_outcome_distribution(c, 4)
                model.append(("dist", name, c, repr(d), 4, rec))
                continue
            ids = [(k + j * 5) % 6 for j in range(1 + (k * 3) % size)]
            ns = [1 + (k * j) % 4 for j in range(len(ids))]
            if len(ids) == 1 and k % 2:
                ms = [t.run_circuit_and_measure(circ(ids[0]), ns[0])]
            else:
                ms = t.run_circuitset_and_measure([circ(i) for i in ids], ns)
            ctx.eq(len(ms), len(ids), f"{case}: records of call {k}")
            for i, m in zip(ids, ms):
                model.append(("m", name, circ(i), list(m.bitstrings), len(m.bitstrings), rec))
            if edit:
                for m in ms:
                    m.bitstrings.append((1, 1))
                if isinstance(ms, list):
                    ms.append(None)
        data = load(path)
        ctx.eq(len(data["raw-data"]), len(model), f"{case}: number of entries in the file")
        for i, (got, want) in enumerate(zip(data["raw-data"], model)):
            same_entry(ctx, f"{case}, entry {i}", got, want)


SPACES = [
    Space("histories", gen, step_hist, "all call histories of depth 2 (thorough 3) over 14 calls, plus repeated and palindromic long sessions, on four wrapped backends, with and without recording of shots, on new and reused files"),
    Space("long", gen_long, step_long, "sessions of 12, 33 and 101 calls with sets of up to 12 circuits, results edited afterwards; single calls of 33000 and 70000 shots; four wrapped backends"),
]
