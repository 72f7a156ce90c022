"""C14: one correct estimation result per task, in task order."""
import collections
import itertools
import math

import numpy as np
import sympy

from mc import ref, rng
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import estimation as E
from zquantum.core.circuits import Circuit
from zquantum.core.interfaces.backend import QuantumBackend, QuantumSimulator
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C14"
ASSUMPTIONS = ["a non-constant task with zero shots yields the single value 0, as documented",
               "operators act inside the register of their circuit; coefficients of measured terms are real and not negligible (operator arithmetic drops terms below 1e-8)"]
TECHNIQUE = "exhaustive enumeration of task lists with every measured outcome, against estimators computed from each task's own shots"

CIRC = [[["g", "X", [], [1], []]], [["g", "RY", [0.7], [0], []], ["g", "CNOT", [], [0, 1], []]], [["g", "H", [], [0], []], ["g", "RX", [1.1], [1], []]]]
OPS = [
    ("const", [((), 2.5)]),
    ("empty", []),
    ("z0", [((0,), -1.5)]),
    ("mix", [((1,), 1.0), ((), 0.75), ((0, 1), -2.0)]),
    ("neg", [((0, 1), -0.25), ((1,), 0.5)]),
    ("nconst", [((), -1.0)]),
    ("two", [((0,), 1.0), ((1,), 1.0)]),
]


def op_of(i, ising):
    out = (IsingOperator if ising else QubitOperator)()
    for t, c in OPS[i][1]:
        out += (IsingOperator if ising else QubitOperator)(tuple((q, "Z") for q in t), c)
    return out


def circ(i):
    return Circuit([zq.real_op(d) for d in CIRC[i]], n_qubits=2)


class Backend(QuantumBackend):
    """Answers a run with shots decided by `answer(circuit, n)` and remembers what it was asked."""

    def __init__(self, answer):
        super().__init__()
        self.answer = answer
        self.asked = []

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        bs = self.answer(circuit, n_samples, len(self.asked))
        self.asked.append((circuit, n_samples, list(bs)))
        return Measurements(list(bs))


class Batching(Backend):
    supports_batching = True
    batch_size = 2

    def run_circuitset_and_measure(self, circuits, n_samples):
        super().run_circuitset_and_measure(circuits, n_samples)
        return [Backend.run_circuit_and_measure(self, c, n) for c, n in zip(circuits, n_samples)]


def estimator(terms, shots):
    N = len(shots)
    return [c * sum((-1) ** sum(b[q] for q in t) for b in shots) / N for t, c in terms]


def unmeasured(oi, shots):
    terms = OPS[oi][1]
    return shots == 0 or (len(terms) == 1 and terms[0][0] == ())


def check_tasks(ctx, tasks, res, asked, what):
    """tasks: (circuit index, operator index, shots)"""
    ctx.eq(len(res), len(tasks), f"{what}: number of results")
    run = [t for t in tasks if not unmeasured(t[1], t[2])]
    ctx.eq(len(asked), len(run), f"{what}: number of circuits run")
    # every measured task has its own run, identified by circuit and shots, in any order of running
    left = list(asked)
    for j, (t, r) in enumerate(zip(tasks, res)):
        terms = OPS[t[1]][1]
        vals = [complex(v) for v in r.values]
        if unmeasured(t[1], t[2]):
            want = [terms[0][1]] if len(terms) == 1 and terms[0][0] == () else [0.0]
            ctx.check(len(vals) == 1 and abs(vals[0] - want[0]) < 1e-12, lambda: f"{what}: task {j} gives {vals}, expected {want}")
            ctx.check(len(r.correlations) == 1 and np.all(np.asarray(r.estimator_covariances[0]) == 0), f"{what}: task {j} has no uncertainty")
            continue
        for k, (c, n, bs) in enumerate(left):
            if c == circ(t[0]) and n == t[2]:
                want = estimator(terms, bs)
                if len(vals) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(vals, want)):
                    del left[k]
                    break
        else:
            ctx.fail(f"{what}: result {vals} of task {j} is not the estimate from a run of its own circuit (runs {[(n, b) for _, n, b in asked]})")
        ctx.check(all(not isinstance(v, complex) for v in r.values), f"{what}: complex values")


def shots_for(circuit, n, call):
    """distinct deterministic shots per call"""
    seq = [(0, 0), (0, 1), (1, 1), (1, 0), (1, 1), (0, 1), (0, 1)]
    return [seq[(call * 2 + k * (call + 1)) % 7] for k in range(n)]


def gen_lists(tier):
    alpha = [(c, o, s) for c in (0, 1) for o in range(len(OPS)) for s in (0, 1, 3)]
    yield []
    for a in alpha:
        yield [list(a)]
    for p in itertools.product(alpha, repeat=2):
        yield [list(x) for x in p]
    small = [(0, 0, 2), (0, 2, 2), (1, 3, 3), (1, 2, 0), (0, 1, 1), (0, 6, 2)] + ([] if tier == "quick" else [(1, 5, 1), (1, 4, 2)])
    for L in (3, 4) if tier == "quick" else (3, 4, 5):
        for p in itertools.product(small, repeat=L):
            yield [list(x) for x in p]


def step_lists(ctx, case):
    tasks = [tuple(x) for x in case]
    ctx.state(tuple(tasks))
    for kind in (Backend, Batching):
        for ising in (True, False):
            if kind is Batching and not ising:
                continue
            real = [EstimationTask(op_of(o, ising), circ(c), s) for c, o, s in tasks]
            before = [(dict(t.operator.terms), str(t.circuit), t.number_of_shots) for t in real]
            keep = list(real)
            b = kind(shots_for)
            res = E.estimate_expectation_values_by_averaging(b, real)
            ctx.step()
            what = f"tasks {tasks} on {kind.__name__}"
            check_tasks(ctx, tasks, res, b.asked, what)
            ctx.check(len(real) == len(keep) and all(x is y for x, y in zip(real, keep)), f"{what}: list of tasks changed")
            ctx.eq([(dict(t.operator.terms), str(t.circuit), t.number_of_shots) for t in real], before, f"{what}: tasks changed")
    # splitting
    m, nm, im, inm = E.split_estimation_tasks_to_measure(real)
    ctx.eq(im, [i for i, t in enumerate(tasks) if not unmeasured(t[1], t[2])], f"{what}: indices to measure")
    ctx.eq(inm, [i for i, t in enumerate(tasks) if unmeasured(t[1], t[2])], f"{what}: indices not to measure")
    ctx.check(all(a is real[i] for a, i in zip(m, im)) and len(m) == len(im) and all(a is real[i] for a, i in zip(nm, inm)) and len(nm) == len(inm),
              f"{what}: tasks after splitting")


def gen_out(tier):
    for c in range(len(CIRC)):
        for o in range(len(OPS)):
            for s in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                yield [c, o, s]


def step_out(ctx, case):
    """a single task and a pair, for every outcome of the measurement"""
    c, o, s = case
    ctx.state(tuple(case))
    outs = [(0, 0), (0, 1), (1, 0), (1, 1)]

    def body(ch):
        b = Backend(lambda circuit, n, call: [outs[ch.choose(4)] for _ in range(n)])
        tasks = [(c, o, s)] if s > 2 else [(c, o, s), (1, 2, 1)]
        r = E.estimate_expectation_values_by_averaging(b, [EstimationTask(op_of(y, False), circ(x), z) for x, y, z in tasks])
        return tasks, r, b.asked

    for ch, (tasks, r, asked) in ref.explore_choices(body):
        ctx.step()
        check_tasks(ctx, tasks, r, asked, f"tasks {tasks} with outcomes {[a[2] for a in asked]}")


POPS = [[], [((), 2.0)], [(((0, "X"),), 1.5)], [(((0, "Z"), (1, "Y")), -0.5), ((), 1.0)], [(((1, "X"),), 1.0), (((0, "Y"), (1, "X")), 2.0), (((0, "Z"),), -3.0)],
        [(((0, "Z"),), 1.0), (((0, "X"), (1, "X")), 1e-3)]]


def gen_exact(tier):
    for L in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for p in itertools.product(itertools.product(range(3), range(len(POPS))), repeat=L):
            yield [list(x) for x in p]


def pop(i):
    out = QubitOperator()
    for t, c in POPS[i]:
        out += QubitOperator(t, c)
    return out


def step_exact(ctx, case):
    ctx.state(tuple(map(tuple, case)))
    tasks = [EstimationTask(pop(o), circ(c), [None, 5, 0][c]) for c, o in case]
    res = E.calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    ctx.step()
    ctx.eq(len(res), len(tasks), f"{case}: number of results")
    for (c, o), r in zip(case, res):
        v = zq_state(c)
        want = [ref.expect(ref.pauli_term(t, 2, cf), v) for t, cf in POPS[o]]
        ctx.check(len(r.values) == len(want) and all(abs(complex(a) - b) < 1e-9 for a, b in zip(r.values, want)),
                  lambda: f"{case}: exact values {r.values}, expected {want}")
    ising = [EstimationTask(op_of(o, True), circ(c), None) for c, o in case]
    for (c, o), r in zip(case, E.calculate_exact_expectation_values(SymbolicSimulator(), ising)):
        v = zq_state(c)
        want = [ref.expect(ref.pauli_term(tuple((q, "Z") for q in t), 2, cf), v) for t, cf in OPS[o][1]]
        ctx.check(len(r.values) == len(want) and all(abs(complex(a) - b) < 1e-9 for a, b in zip(r.values, want)), lambda: f"{case}: exact diagonal values {r.values}, expected {want}")


_st = {}


def zq_state(i):
    if i not in _st:
        v = [1, 0, 0, 0]
        for d in CIRC[i]:
            v = ref.run([zq.ref_op(d)], 2, v)
        _st[i] = v
    return _st[i]


TH = sympy.symbols("theta_0:2")
MAPS = [{TH[0]: 0.3, TH[1]: -1.1}, {TH[0]: 2.0}, {TH[1]: 0.5}, {}, {TH[0]: 0.9, TH[1]: 0.1, sympy.Symbol("z"): 4}]


def pcirc(k):
    from zquantum.core.circuits import RX, RY, CNOT
    return [Circuit([RX(TH[0])(0), CNOT(0, 1), RY(TH[1])(1)]), Circuit([RY(TH[0] * 2)(1)]), Circuit([], n_qubits=2)][k]


def gen_pre(tier):
    for L in range(0, 4):
        for cs in itertools.product(range(3), repeat=L):
            for ms in itertools.product(range(len(MAPS)), repeat=L) if L < 3 or tier == "thorough" else [(0, 1, 2), (4, 3, 0), (2, 2, 1), (1, 0, 4)]:
                yield ["bind", list(cs), list(ms)]
            for m in range(len(MAPS)):
                yield ["one", list(cs), m]
            yield ["group", list(cs)]
            yield ["uniform", list(cs)]


def step_pre(ctx, case):
    kind, cs = case[0], case[1]
    ctx.step()
    ctx.state(tuple(map(str, case)))
    ops = [pop((i + c) % len(POPS)) for i, c in enumerate(cs)]
    tasks = [EstimationTask(o, pcirc(c), 10 + i) for i, (o, c) in enumerate(zip(ops, cs))]
    keep = [(t.operator, dict(t.operator.terms), t.circuit, pcirc(c), t.number_of_shots) for t, c in zip(tasks, cs)]
    orig = list(tasks)
    if kind in ("bind", "one"):
        if kind == "bind":
            maps = [MAPS[m] for m in case[2]]
            snap = [dict(m) for m in maps]
            new = E.evaluate_estimation_circuits(tasks, maps)
            ctx.eq(maps, snap, f"{case}: maps changed")
        else:
            maps = [MAPS[case[2]]] * len(tasks)
            new = E.evaluate_estimation_circuits(tasks, [MAPS[case[2]]])
        ctx.eq(len(new), len(tasks), f"{case}: number of tasks")
        for n, t, c, m in zip(new, tasks, cs, maps):
            ctx.check(n.circuit == pcirc(c).bind(m) and n.operator == t.operator and n.number_of_shots == t.number_of_shots, f"{case}: bound task {n}")
    elif kind == "group":
        new = E.group_individually(tasks)
        want = [((k, v), c, t.number_of_shots) for t, c in zip(tasks, cs) for k, v in t.operator.terms.items()]
        ctx.eq(len(new), len(want), f"{case}: number of tasks")
        for n, ((k, v), c, s) in zip(new, want):
            ctx.check(dict(n.operator.terms) == {k: v} and n.circuit == pcirc(c) and n.number_of_shots == s, f"{case}: individual task {n}")
    else:
        for n_shots in (1, 7):
            new = E.allocate_shots_uniformly(tasks, n_shots)
            ctx.check(len(new) == len(tasks) and all(n.number_of_shots == n_shots and n.operator == t.operator and n.circuit == t.circuit for n, t in zip(new, tasks)),
                      f"{case}: tasks with {n_shots} shots")
        for bad in (0, -1):
            ctx.raises(lambda: E.allocate_shots_uniformly(tasks, bad), f"{bad} shots", ValueError)
    ctx.check(len(tasks) == len(orig) and all(a is b for a, b in zip(tasks, orig)), f"{case}: list of tasks changed")
    for t, (o, terms, c, pc, s) in zip(tasks, keep):
        ctx.check(t.operator is o and dict(o.terms) == terms and t.circuit is c and c == pc and t.number_of_shots == s, f"{case}: input task changed")


def gen_sim(tier):
    for o in range(len(OPS)):
        for c in range(len(CIRC)):
            yield [c, o]


def step_sim(ctx, case):
    """averaging on the bundled simulator: the mean over all answers of the generator is the exact value"""
    c, o = case
    ctx.state(tuple(case))
    terms = OPS[o][1]
    tot = [0.0] * max(1, len(terms))
    mass = 0.0

    def body(ch):
        with rng.closed(ch) as (g, p):
            r = E.estimate_expectation_values_by_averaging(SymbolicSimulator(), [EstimationTask(op_of(o, True), circ(c), 2)])
        return r, None if g.weight is None or p.weight is None else g.weight * p.weight

    for ch, (r, w) in ref.explore_choices(body):
        ctx.step()
        if w is None:
            return
        mass += w
        for i, v in enumerate(r[0].values):
            tot[i] += w * v
    v = zq_state(c)
    want = [ref.expect(ref.pauli_term(tuple((q, "Z") for q in t), 2, cf), v).real for t, cf in terms]
    ctx.check(abs(mass - 1) < 1e-9 and all(abs(a - b) < 1e-9 for a, b in zip(tot, want)), f"{case}: mean estimate {tot}, expected {want}")


def gen_long(tier):
    alpha = [(0, 0, 2), (0, 2, 2), (1, 3, 3), (1, 2, 0), (0, 1, 1), (0, 6, 2)]
    for L in (9, 10, 11, 12, 33) if tier == "quick" else (9, 10, 11, 12, 16, 17, 33, 101):
        for pat in itertools.product(range(6), repeat=2 if tier == "quick" else 3):
            yield [L, [list(alpha[x]) for x in pat]]


def step_long(ctx, case):
    """long lists that repeat a short pattern; the tasks are equal but distinct objects"""
    L, pat = case
    tasks = [tuple(pat[i % len(pat)]) if i % 7 else tuple(pat[-1]) for i in range(L)]
    ctx.state((L, tuple(map(tuple, pat))))
    for kind in (Backend, Batching):
        real = [EstimationTask(op_of(o, True), circ(c), s) for c, o, s in tasks]
        b = kind(shots_for)
        res = E.estimate_expectation_values_by_averaging(b, real)
        ctx.step()
        what = f"{L} tasks repeating {pat} on {kind.__name__}"
        check_tasks(ctx, tasks, res, b.asked, what)
        runs = [t for t in tasks if not unmeasured(t[1], t[2])]
        vals = [r.values for t, r in zip(tasks, res) if not unmeasured(t[1], t[2])]
        if all(c == circ(t[0]) and n == t[2] for (c, n, _), t in zip(b.asked, runs)):
            for (c, n, bs), t, v in zip(b.asked, runs, vals):
                want = estimator(OPS[t[1]][1], bs)
                ctx.check(len(v) == len(want) and all(abs(a - w) < 1e-9 for a, w in zip(v, want)), lambda: f"{what}: {v} for shots {bs} of {t}")
    m, nm, im, inm = E.split_estimation_tasks_to_measure(real)
    ctx.eq(im, [i for i, t in enumerate(tasks) if not unmeasured(t[1], t[2])], f"{what}: indices to measure")
    ctx.eq(inm, [i for i, t in enumerate(tasks) if unmeasured(t[1], t[2])], f"{what}: indices not to measure")
    if m:
        ctx.raises(lambda: E.evaluate_non_measured_estimation_tasks(nm + [m[0]]), f"{what}: a task with shots treated as not measured", RuntimeError)


def gen_wide(tier):
    n = 12
    for q in range(n):
        for shots in (1, 40, 33000) if tier == "quick" else (1, 40, 1000, 33000, 70000):
            yield [n, q, shots]


def step_wide(ctx, case):
    """registers of 12 qubits, operators of many terms, many shots"""
    n, q, shots = case
    ctx.state(tuple(case))
    terms = [((), 0.5)] + [((q, (q + d) % n), 1.0 / d) for d in range(1, n)] + [((k,), 0.25 + k) for k in range(n)] + [(tuple(range(n)), -3.0)]
    op = QubitOperator()
    for t, c in terms:
        op += QubitOperator(tuple((k, "Z") for k in sorted(t)), c)
    circuit = Circuit([zq.real_op(["g", "X", [], [q], []])], n_qubits=n)
    pats = [tuple((i >> k) & 1 for k in range(n)) for i in (0, 1 << q, 3 << max(q - 1, 0), 4095, 2730)]
    weight = [shots // 5 + (1 if i < shots % 5 else 0) for i in range(5)]
    if shots > 1000:
        weight = [shots - 10, 4, 3, 2, 1]
    b = Backend(lambda c, m, call: [p for p, w in zip(pats, weight) for _ in range(w)])
    r = E.estimate_expectation_values_by_averaging(b, [EstimationTask(op, circuit, shots)])[0]
    ctx.step()
    want = [cf * sum(w * (-1) ** sum(p[k] for k in t) for p, w in zip(pats, weight)) / shots for t, cf in terms]
    ctx.check(len(r.values) == len(want) and all(abs(a - w) < 1e-9 for a, w in zip(r.values, want)), lambda: f"{case}: values {list(r.values)}, expected {want}")


FRESH = zqfresh.Fresh(zqfreshlist.C14)


# ---- constants ---------------------------------------------------------------------------------
CONSTS = [2.5, -1.0, 1e-6, 1e12, 1 / 3, 1 + 2j, -0.5j, 7, 0.1 + 0.2]


def gen_const(tier):
    for i in range(len(CONSTS)):
        for j in range(len(CONSTS)):
            for other in (0, 1):
                for s in (0, 1, 4, 10000):
                    yield [i, j, other, s]


def step_const(ctx, case):
    """a constant operator has its coefficient as value, whatever the shots and the other tasks"""
    i, j, other, s = case
    ctx.state(tuple(case))
    for cls in (QubitOperator, IsingOperator):
        tasks = [EstimationTask(cls((), CONSTS[i]), circ(0), s), EstimationTask(cls((), CONSTS[j]), circ(1), 2 * s)]
        if other:
            tasks.insert(1, EstimationTask(cls(((0, "Z"),), 1.5), circ(0), 3))
        for values in ([r.values for r in E.estimate_expectation_values_by_averaging(Backend(shots_for), tasks)],
                       [r.values for r in E.evaluate_non_measured_estimation_tasks(tasks[::2 if other else 1])]):
            ctx.step()
            ctx.check(len(values[0]) == 1 and abs(complex(values[0][0]) - CONSTS[i]) <= 1e-12 * abs(CONSTS[i]), lambda: "constant %s gives %s" % (CONSTS[i], values[0]))
            ctx.check(len(values[-1]) == 1 and abs(complex(values[-1][0]) - CONSTS[j]) <= 1e-12 * abs(CONSTS[j]), lambda: "constant %s gives %s" % (CONSTS[j], values[-1]))


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("lists", gen_lists, step_lists, "all task lists of up to 2 tasks over 42 tasks, of 3-4 (thorough 5) over 6 (thorough 8), plain and batching backend, two operator types"),
    Space("outcomes", gen_out, step_out, "3 circuits, 7 operators, 1-3 (thorough 4) shots, every outcome of every shot, alone and with a second task"),
    Space("exact", gen_exact, step_exact, "all lists of up to 2 (thorough 3) tasks over 3 circuits, 6 Pauli and 7 diagonal operators"),
    Space("preprocessing", gen_pre, step_pre, "all lists of up to 3 tasks with 5 symbol maps, per task or shared; individual grouping; uniform shots"),
    Space("simulator", gen_sim, step_sim, "3 circuits, 7 operators, 2 shots, every answer of the generator"),
    Space("long", gen_long, step_long, "lists of 9-33 (thorough 101) tasks repeating every pattern of 2 (thorough 3) tasks, plain and batching backend"),
    Space("wide", gen_wide, step_wide, "12 qubits, operators of 25 terms centred on every qubit, up to 33000 (thorough 70000) shots"),
        Space("constants", gen_const, step_const, "all pairs of 9 constant operators (complex, tiny and huge coefficients) with 4 numbers of shots, with and without a measured task between them"),
]
