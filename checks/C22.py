"""C22: cost functions evaluate exactly the bound operator on the bound circuit."""
import itertools
import logging
import math
import warnings

import numpy as np
import sympy
from overrides import overrides

from checks import zqfresh, zqfreshlist
from mc import ref
from mc.core import Space
from zquantum.core.circuits import Circuit, CNOT, RX, RY, RZ, H, natural_key
from zquantum.core.cost_function import (AnsatzBasedCostFunction, add_normal_noise, create_cost_function, dynamic_circuit_estimation_tasks_factory,
                                         expectation_value_estimation_tasks_factory, fix_parameters, get_ground_state_cost_function, substitution_based_estimation_tasks_factory,
                                         sum_expectation_values)
from zquantum.core.cost_function_augmentations import ConditionalSideEffect, FunctionLogger, augment_cost_function, function_logger
from zquantum.core.estimation import (allocate_shots_uniformly, calculate_exact_expectation_values, estimate_expectation_values_by_averaging, group_individually)
from zquantum.core.gradients import finite_differences_gradient
from zquantum.core.history.save_conditions import always, every_nth
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.interfaces.functions import FunctionWithGradient, FunctionWithGradientStoringArtifacts, function_with_gradient
from zquantum.core.measurement import ExpectationValues, Measurements
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.utils import ValueEstimate

ID = "C22"
ASSUMPTIONS = ["parameters are one-dimensional numpy arrays", "operators contain no negligible coefficients", "gradients of a callable are given by its gradient attribute"]
TECHNIQUE = "exhaustive enumeration of cost-function configurations, parameter vectors and call histories of augmented functions against dense expectation values and counting models"

S = [sympy.Symbol(n) for n in ("theta_0", "theta_1", "theta_2", "theta_10")]
# circuits over k symbols: list of (gate, expression in the symbols, qubit)
CIRCS = {
    0: [("H", None, 0), ("CX", None, 0)],
    1: [("RX", lambda p: p[0], 0), ("CX", None, 0), ("RY", lambda p: 0.3, 1)],
    2: [("RX", lambda p: p[1], 0), ("RY", lambda p: p[0], 1), ("CX", None, 0), ("RY", lambda p: p[1] * 2 - p[0], 0)],
    3: [("RY", lambda p: p[2], 0), ("RX", lambda p: p[0] + p[1], 1), ("CX", None, 0), ("RX", lambda p: p[1], 1), ("RZ", lambda p: p[0], 0), ("H", None, 0)],
}


def real_circuit(k, syms):
    c = Circuit(n_qubits=2)
    for g, f, q in CIRCS[k]:
        if g == "CX":
            c += CNOT(0, 1)
        elif f is None:
            c += H(q)
        else:
            c += {"RX": RX, "RY": RY, "RZ": RZ}[g](f(syms))(q)
    return c


_state = {}


def ref_state(k, vals):
    key = (k, tuple(vals))
    if key not in _state:
        seq = []
        for g, f, q in CIRCS[k]:
            if g == "CX":
                seq.append((ref.gate("CNOT"), (0, 1)))
            elif f is None:
                seq.append((ref.gate("H"), (q,)))
            else:
                seq.append((ref.gate(g, float(f(vals))), (q,)))
        _state[key] = ref.run(seq, 2)
    return _state[key]


OPS = [[(((0, "Z"),), 1.0)], [(((0, "X"), (1, "Z")), -0.5), ((), 2.0), (((1, "Y"),), 0.25)], [((), 3.0)], [(((0, "Z"), (1, "Z")), 1.5 + 0j), (((1, "Z"),), -1.0)], [(((0, "Y"),), 2), (((1, "X"),), 1)]]


def mk(i, ising=False):
    op = IsingOperator() if ising else QubitOperator()
    for t, c in OPS[i]:
        op += type(op)(t, c)
    return op


def value(i, vec):
    return sum(c * ref.expect(ref.pauli_term(t, 2), vec) for t, c in OPS[i]).real


class Ans(Ansatz):
    supports_parametrized_circuits = True

    def __init__(self, k, order):
        super().__init__(1)
        self.k, self.order = k, order

    @property
    @overrides
    def number_of_qubits(self):
        return 2

    @property
    @overrides
    def symbols_sort_key(self):
        return self.order

    @overrides
    def _generate_circuit(self, params=None):
        if params is None:
            return real_circuit(self.k, [S[j] for j in SYMS[self.k]])
        vals = dict(zip(sorted([S[j] for j in SYMS[self.k]], key=self.order), params))
        return real_circuit(self.k, [vals[S[j]] for j in SYMS[self.k]])


SYMS = {0: [], 1: [1], 2: [2, 3], 3: [3, 0, 2]}
ORDERS = {"str": str, "natural": natural_key, "reverse": lambda s: [-ord(c) for c in s.name]}


def gen(tier):
    for form in ("expectation", "substitution", "dynamic", "ground", "ansatz"):
        for k in CIRCS:
            for order in (("str",) if k < 2 else tuple(ORDERS)):
                for nfix in range(0, k + 1):
                    for noise in (0, 1, 2) if tier == "thorough" or form in ("expectation", "ground", "ansatz") else (0, 1):
                        for o in range(len(OPS)) if (k == 2 or tier == "thorough") else (1, 3):
                            for prep in (0, 1):
                                yield [form, k, order, nfix, noise, o, prep]


VALUES = [0.3, -1.1, 2.0, 0.7, -0.4]


class Spy:
    """an estimation method that counts its calls"""

    def __init__(self):
        self.calls = []

    def __call__(self, backend, estimation_tasks):
        self.calls.append((backend, list(estimation_tasks)))
        return calculate_exact_expectation_values(backend, estimation_tasks)


def step_values(ctx, case):
    form, k, order, nfix, noise, o, prep = case
    warnings.simplefilter("ignore")
    ctx.state(tuple(case))
    key = ORDERS[order]
    if form in ("substitution", "dynamic", "ansatz"):
        pass
    circuit = real_circuit(k, [S[j] for j in SYMS[k]])
    op = mk(o, ising=(o == 3 and nfix == 1))
    backend = SymbolicSimulator()
    spy = Spy()
    fixed = np.array([0.9, -0.2, 1.7][:nfix]) if nfix else None
    seen = []

    def tag(name):
        def f(tasks):
            seen.append((name, [t.operator for t in tasks]))
            return group_individually(tasks) if name == "split" else [EstimationTask(t.operator, t.circuit, 17) for t in tasks]
        return f

    preps = [tag("split"), tag("shots")] if prep else None
    sigma, seed = 0.05, 11 + noise
    pre = []
    if noise == 2:
        pre.append(add_normal_noise(sigma, seed))  # noise on the free parameters only
    if nfix:
        pre.append(fix_parameters(fixed))
    if noise == 1:
        pre.append(add_normal_noise(sigma, seed))
    ans = Ans(k, key)
    if form == "ground":
        cf = get_ground_state_cost_function(op, circuit, backend, spy, preps, fixed, sigma if noise else None, seed if noise else None, symbols_sort_key=key)
    elif form == "ansatz":
        cf = AnsatzBasedCostFunction(op, ans, backend, spy, preps, fixed, sigma if noise else None, seed if noise else None)
    else:
        if form == "expectation":
            fac = expectation_value_estimation_tasks_factory(op, circuit, preps, key)
        elif form == "substitution":
            fac = substitution_based_estimation_tasks_factory(op, ans, preps)
        else:
            fac = dynamic_circuit_estimation_tasks_factory(op, ans, preps)
        cf = create_cost_function(backend, fac, spy, iter(pre) if noise == 1 else (pre or None))
    free = k - nfix
    rng = np.random.default_rng(seed)
    ordered = sorted([S[j] for j in SYMS[k]], key=key)
    for rep, shift in enumerate((0, 1, 0, 2)):
        x = np.array([VALUES[(i + shift) % 5] for i in range(free)])
        if rep == 3:
            x = np.array([i + 1 for i in range(free)], dtype=int)
        snap = x.copy()
        spy.calls.clear()
        got = cf(x)
        ctx.step()
        if noise == 1 and form in ("ground", "ansatz") or noise == 2 and form in ("ground", "ansatz"):
            full = list(np.concatenate([fixed if nfix else [], x]) + np.random.default_rng(seed).normal(0.0, sigma, k))
        elif noise == 1:
            full = list(np.concatenate([fixed if nfix else [], x]) + rng.normal(0.0, sigma, k))
        elif noise == 2:
            full = list(np.concatenate([fixed if nfix else [], x + rng.normal(0.0, sigma, free)]))
        else:
            full = list(np.concatenate([fixed if nfix else [], x]))
        by_sym = dict(zip(ordered, full))
        vec = ref_state(k, [float(by_sym[S[j]]) for j in SYMS[k]])
        want = value(o, vec)
        what = f"{form}: circuit {k}, order {order}, {nfix} fixed, noise {noise}, operator {op}, preprocessors {prep}, call {rep + 1} at {x}"
        ctx.check(isinstance(got, ValueEstimate) and isinstance(got, float) and abs(got - want) < 1e-8, lambda: f"{what}: got {got!r}, expected {want}")
        ctx.check((x == snap).all(), f"{what}: parameters were modified")
        ctx.check(got.precision is None, lambda: f"{what}: precision {got.precision} of an exact value")
        ctx.eq(len(spy.calls), 1, f"{what}: number of estimations")
        b, tasks = spy.calls[0]
        ctx.check(b is backend, f"{what}: another backend was used")
        ctx.check(not any(t.circuit.free_symbols for t in tasks), f"{what}: unbound symbols")
        ctx.check([t.number_of_shots for t in tasks] == ([17] * len(OPS[o]) if prep else [None]), lambda: f"{what}: shots {[t.number_of_shots for t in tasks]}")
        terms = {}
        for t in tasks:
            for a, c in t.operator.terms.items():
                terms[a] = terms.get(a, 0) + c
        ctx.check(terms == dict(OPS[o]), lambda: f"{what}: terms estimated {terms}")
    for bad in (free + 1, free - 1):
        if bad >= 0 and form != "dynamic":
            ctx.raises(lambda: cf(np.zeros(bad)), f"{form}: {bad} parameters instead of {free}", ValueError)
    if noise == 0 and form != "ansatz" and free:
        # gradient: central differences of the exact value
        x = np.array(VALUES[:free])
        g = cf.gradient(x)
        h = 1e-5
        for i in range(free):
            v = []
            for s in (h, -h):
                y = x.copy()
                y[i] += s
                by_sym = dict(zip(ordered, list(np.concatenate([fixed if nfix else [], y]))))
                v.append(value(o, ref_state(k, [float(by_sym[S[j]]) for j in SYMS[k]])))
            ctx.check(abs(g[i] - (v[0] - v[1]) / (2 * h)) < 1e-6, lambda: f"{form}: gradient {g}, coordinate {i} should be {(v[0] - v[1]) / (2 * h)}")
        ctx.eq(len(g), free, "length of gradient")
        ctx.check((x == np.array(VALUES[:free])).all(), "gradient changed the parameters")


# ---- sampled cost functions: a device with fixed answers

class Device(QuantumBackend):
    def __init__(self, answers):
        super().__init__()
        self.answers = answers

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return Measurements([self.answers[i % len(self.answers)] for i in range(n_samples)])


def gen_sampled(tier):
    outs = list(itertools.product((0, 1), repeat=2))
    for L in (1, 2, 3):
        for a in itertools.product(range(4), repeat=L):
            for n in (1, 2, 3, 5):
                yield [list(a), n]


def step_sampled(ctx, case):
    ids, n = case
    warnings.simplefilter("ignore")
    ctx.state((tuple(ids), n))
    outs = [tuple((i >> k) & 1 for k in (1, 0)) for i in ids]
    shots = [outs[i % len(outs)] for i in range(n)]
    z = [[(-1) ** s[q] for s in shots] for q in (0, 1)]
    terms = [(((0, "Z"),), 1.5), (((1, "Z"),), -1.0), (((0, "Z"), (1, "Z")), 0.5), ((), 2.0)]
    col = [np.array(z[0]), np.array(z[1]), np.array(z[0]) * np.array(z[1]), np.ones(n)]
    for sub in ([0], [0, 1], [0, 1, 2, 3], [3, 0], [1, 2], [2]):
        op = QubitOperator()
        for i in sub:
            op += QubitOperator(*terms[i])
        cf = create_cost_function(Device(outs), expectation_value_estimation_tasks_factory(op, real_circuit(1, [S[1]]), [lambda t: allocate_shots_uniformly(t, n)]), estimate_expectation_values_by_averaging)
        got = cf(np.array([0.2]))
        ctx.step()
        want = sum(terms[i][1] * np.mean(col[i]) for i in sub)
        var = np.var(sum(terms[i][1] * col[i] for i in sub))
        what = f"operator {op}, shots {shots}"
        ctx.check(abs(got - want) < 1e-9, lambda: f"{what}: {got}, expected {want}")
        ctx.check(got.precision is not None and np.isfinite(got.precision), lambda: f"{what}: precision {got.precision}")
        # the variance of the sum is that of the summed column, over n or n - 1
        opts = [math.sqrt(max(var, 0) / m) for m in ((n, n - 1) if n > 1 else (n,))]
        ctx.check(any(abs(got.precision - x) < 1e-6 for x in opts), lambda: f"{what}: precision {got.precision}, expected {opts}")
    # summation of given values
    vals = np.array([0.5 * i - 1 for i in ids])
    cov = [np.array([[0.5, 0.1], [0.1, 0.25]]), np.array([[1.0]])]
    r = sum_expectation_values(ExpectationValues(vals))
    ctx.check(isinstance(r, ValueEstimate) and abs(r - sum(vals)) < 1e-12 and r.precision is None, f"sum of {vals}: {r}")
    r = sum_expectation_values(ExpectationValues(np.array([1.0, 2.0, -0.5]), estimator_covariances=cov, correlations=cov))
    ctx.check(abs(r - 2.5) < 1e-12 and abs(r.precision - math.sqrt(1.95)) < 1e-9, f"sum with covariances: {r}")


# ---- augmentations: call histories on stacks of augmentations

class Target:
    def __init__(self):
        self.calls, self.gcalls, self.tag = [], [], "t"

    def __call__(self, params):
        self.calls.append(np.array(params))
        return float(np.sum(params ** 2))


class TargetG(Target):
    def gradient(self, params):
        self.gcalls.append(np.array(params))
        return 2 * params


class Effect(ConditionalSideEffect):
    def __init__(self, function, predicate, sink, name):
        super().__init__(function, predicate)
        self.sink, self.name = sink, name

    def _act(self, result, params):
        self.sink.append((self.name, self.call_number, float(np.sum(result)), tuple(params)))


AUGS = {"log": "log", "all": "all", "even": "even", "big": "big", "neg": "neg"}
PRED = {"log": lambda v, p, n: n != 1, "all": always, "even": every_nth(2), "big": lambda v, p, n: np.sum(v) > 2}


class Handler(logging.Handler):
    def __init__(self, sink):
        super().__init__()
        self.sink = sink

    def emit(self, record):
        self.sink.append(("log", record.levelno, record.getMessage()))


def make_aug(name, sink, logger):
    if name == "log":
        return function_logger(PRED["log"], logger, logging.WARNING, "call %d gave %s")
    if name == "neg":
        return lambda f: (lambda p: -f(p))
    return lambda f: Effect(f, PRED[name], sink, name)


CALLS = [("f", 0), ("f", 1), ("g", 0), ("g", 1), ("f", 2), ("attr", 0)]
POINTS = [np.array([0.5, 1.0]), np.array([-2.0, 0.25]), np.array([1, 2])]


def gen_aug(tier):
    stacks = [[]] + [[a] for a in AUGS] + [list(x) for x in itertools.permutations(AUGS, 2)] + [["all", "all"], ["neg", "neg"], ["even", "log", "neg"]]
    gstacks = [None, [], ["all"], ["log"], ["neg"], ["even", "all"]]
    depth = 3 if tier == "quick" else 4
    hist = [list(h) for h in itertools.product(range(len(CALLS)), repeat=depth)]
    for grad in (0, 1, 2):
        for st in stacks:
            for gs in gstacks if grad else gstacks[:3]:
                # all histories are run on one configuration in one case
                yield [grad, st, gs, depth]


def step_aug(ctx, case):
    grad, st, gs, depth = case
    ctx.state((grad, tuple(st), None if gs is None else tuple(gs)))
    for h in itertools.product(range(len(CALLS)), repeat=depth):
        if not grad and any(CALLS[c][0] == "g" for c in h):
            continue
        t = TargetG() if grad else Target()
        base = FunctionWithGradient(t, t.gradient) if grad == 2 else t
        sink, gsink = [], []
        logger, glogger = logging.Logger("f"), logging.Logger("g")
        logger.addHandler(Handler(sink))
        glogger.addHandler(Handler(gsink))
        args = [[make_aug(a, sink, logger) for a in st]]
        args.append(None if gs is None else [make_aug(a, gsink, glogger) for a in gs])
        if not st:
            args[0] = None if gs is None else []
        f = augment_cost_function(base, *args)
        what = f"gradient {grad}, augmentations {st} / {gs}, calls {[CALLS[c] for c in h]}"
        if not st and not gs:
            ctx.check(f is base, f"{what}: not the same function")
        exp, gexp, nf, ng = [], [], 0, 0
        fc, gc = [], []
        for c in h:
            kind, i = CALLS[c]
            if kind == "attr":
                f.tag = ("new", len(fc))
                ctx.check(f.tag == t.tag == ("new", len(fc)), f"{what}: attribute not propagated")
                continue
            x = POINTS[i]
            snap = x.copy()
            v = float(np.sum(x ** 2)) if kind == "f" else 2 * x
            calls, stack, out = (fc, st, exp) if kind == "f" else (gc, gs or [], gexp)
            n = len(calls)
            calls.append(x)
            for a in stack:
                if a == "neg":
                    v = -v
                elif PRED[a](v, x, n):
                    out.append(("log", logging.WARNING, "call %d gave %s" % (n, v)) if a == "log" else (a, n, float(np.sum(v)), tuple(x)))
            got = f(x) if kind == "f" else f.gradient(x)
            ctx.check(np.array_equal(got, v), lambda: f"{what}: {kind} returned {got}, expected {v}")
            ctx.check((x == snap).all(), f"{what}: parameters changed")
        ctx.step(len(h))
        ctx.check(len(t.calls) == len(fc) and all((a == b).all() for a, b in zip(t.calls, fc)), lambda: f"{what}: wrapped function called with {t.calls}")
        ctx.check(len(t.gcalls) == len(gc) and all((a == b).all() for a, b in zip(t.gcalls, gc)), lambda: f"{what}: wrapped gradient called with {t.gcalls}")
        ctx.eq(sink, exp, f"{what}: effects of the function's augmentations")
        ctx.eq(gsink, gexp, f"{what}: effects of the gradient's augmentations")


# ---- finite differences

def gen_fd(tier):
    for n in range(0, 5):
        for h in (1e-5, 1e-3, 0.5, 1e-7):
            for dtype in ("float", "int", "float32"):
                for pt in range(4):
                    yield [n, h, dtype, pt]


def step_fd(ctx, case):
    n, h, dtype, pt = case
    ctx.state(tuple(case))
    x = np.array([[1, -2, 3, 4], [0, 0, 0, 0], [5, 1, -1, 2], [-3, 2, 2, -7]][pt][:n], dtype={"float": float, "int": int, "float32": np.float32}[dtype])
    if dtype == "float":
        x = x + 0.25
    calls = []

    def f(p):
        calls.append((np.array(p), p))
        v = float(sum((i + 1) * a ** 3 + a * b for i, (a, b) in enumerate(zip(p, list(p)[1:] + [1.0]))))
        return ValueEstimate(v) if pt % 2 else v

    def plain(p):
        return float(sum((i + 1) * a ** 3 + a * b for i, (a, b) in enumerate(zip(p, list(p)[1:] + [1.0]))))

    snap = x.copy()
    for args in ((f, h), (f,)) if h == 1e-5 else ((f, h),):
        calls.clear()
        g = finite_differences_gradient(*args)(x)
        ctx.step()
        what = f"finite differences of step {h} at {x}"
        ctx.check(isinstance(g, np.ndarray) and g.shape == (n,), lambda: f"{what}: shape {g.shape}")
        ctx.check((x == snap).all() and x.dtype == snap.dtype, f"{what}: parameters changed")
        base = [float(v) for v in snap]
        for i in range(n):
            up, dn = list(base), list(base)
            up[i] += h
            dn[i] -= h
            want = (plain(up) - plain(dn)) / (2 * h)
            ctx.check(abs(g[i] - want) <= 1e-9 * max(1, abs(want)), lambda: f"{what}: coordinate {i} is {g[i]}, the quotient is {want}")
        ctx.check(len(calls) == 2 * n, f"{what}: {len(calls)} evaluations")
        ctx.check(all(p is not x for _, p in calls), f"{what}: the caller's array was handed out")


# ---- many parameters: symbols beyond ten, several registers, several fixed parameters

M_REF = {}


def m_names(m, scheme):
    return {"plain": [f"theta_{i}" for i in range(m)], "padded": [f"a{i:02d}" for i in range(m)], "mixed": [f"{'ab'[i % 2]}_{i}" for i in range(m)]}[scheme]


def m_layout(m, nq):
    """(gate, symbol index, qubit) of every rotation; symbols appear out of order, some more than once"""
    idx = [(7 * i + 3) % m for i in range(m)] if m % 7 else list(range(m))[::-1]
    out = []
    for n, i in enumerate(idx):
        out.append((("RX", "RY", "RZ")[n % 3], i, n % nq))
        if n % nq == nq - 1:
            out.extend(("CX", q, q + 1) for q in range(nq - 1))
    out.append(("RY", idx[0], 0))
    return out


def m_circuit(layout, syms, nq):
    c = Circuit(n_qubits=nq)
    for g, a, b in layout:
        c += CNOT(a, b) if g == "CX" else {"RX": RX, "RY": RY, "RZ": RZ}[g](syms[a])(b)
    return c


def m_state(layout, vals, nq):
    return ref.run([(ref.gate("CNOT"), (a, b)) if g == "CX" else (ref.gate(g, float(vals[a])), (b,)) for g, a, b in layout], nq)


class Wide(Ansatz):
    supports_parametrized_circuits = True

    def __init__(self, layout, names, nq, order):
        super().__init__(1)
        self.layout, self.names, self.nq, self.order = layout, names, nq, order

    @property
    @overrides
    def number_of_qubits(self):
        return self.nq

    @property
    @overrides
    def symbols_sort_key(self):
        return self.order

    @overrides
    def _generate_circuit(self, params=None):
        syms = [sympy.Symbol(n) for n in self.names]
        if params is not None:
            vals = dict(zip(sorted(syms, key=self.order), params))
            syms = [vals[s] for s in syms]
        return m_circuit(self.layout, syms, self.nq)


def gen_many(tier):
    for form in ("expectation", "substitution", "dynamic", "ground", "ansatz"):
        for m in (12,) if tier == "quick" else (11, 12, 13, 23):
            for scheme in ("plain", "padded", "mixed"):
                for order in ORDERS:
                    for nfix in (((0, 4) if order == "natural" else (4,)) if tier == "quick" else (0, 1, 4, m)):
                        yield [form, m, scheme, order, nfix]


def step_many(ctx, case):
    form, m, scheme, order, nfix = case
    warnings.simplefilter("ignore")
    ctx.state(tuple(case))
    nq, key = 3, ORDERS[order]
    names = m_names(m, scheme)
    layout = m_layout(m, nq)
    syms = [sympy.Symbol(n) for n in names]
    terms = [(((0, "Z"),), 1.25), (((0, "X"), (2, "Y")), -0.5), (((1, "Z"), (2, "Z")), 2.0), ((), 0.75), (((1, "Y"),), 0.3), (((0, "Z"), (1, "Z"), (2, "Z")), -1.5)]
    op = QubitOperator()
    for t, c in terms:
        op += QubitOperator(t, c)
    fixed = np.array([0.31 * (i + 1) - 0.9 for i in range(nfix)]) if nfix else None
    backend = SymbolicSimulator()
    circuit = m_circuit(layout, syms, nq)
    ans = Wide(layout, names, nq, key)
    preps = [group_individually]
    if form == "ground":
        cf = get_ground_state_cost_function(op, circuit, backend, calculate_exact_expectation_values, preps, fixed, symbols_sort_key=key)
    elif form == "ansatz":
        cf = AnsatzBasedCostFunction(op, ans, backend, calculate_exact_expectation_values, preps, fixed)
    else:
        fac = {"expectation": lambda: expectation_value_estimation_tasks_factory(op, circuit, preps, key), "substitution": lambda: substitution_based_estimation_tasks_factory(op, ans, preps),
               "dynamic": lambda: dynamic_circuit_estimation_tasks_factory(op, ans, preps)}[form]()
        cf = create_cost_function(backend, fac, calculate_exact_expectation_values, [fix_parameters(fixed)] if nfix else None)
    free = m - nfix
    ordered = sorted(syms, key=key)

    def want(x):
        full = dict(zip(ordered, ([] if fixed is None else list(fixed)) + list(x)))
        vec = m_state(layout, [full[s] for s in syms], nq)
        return sum(c * ref.expect(ref.pauli_term(t, nq), vec) for t, c in terms).real

    for rep in range(2):
        x = np.array([((5 * i + 3 * rep) % 11) * 0.27 - 1.1 for i in range(free)])
        got = cf(x)
        ctx.step()
        ctx.check(abs(got - want(x)) < 1e-8, lambda: f"{form}: {m} symbols named {names} in {order} order, {nfix} fixed: got {got}, expected {want(x)}")
    for i in {0, free // 2, free - 1} if free else ():
        y = x.copy()
        y[i] += 0.8
        got = cf(y)
        ctx.step()
        ctx.check(abs(got - want(y)) < 1e-8, lambda: f"{form}: {m} symbols named {names} in {order} order, {nfix} fixed, coordinate {i} moved: got {got}, expected {want(y)}")
    if form in ("ground", "expectation") and order == "natural" and scheme == "plain" and free:
        g = cf.gradient(x)
        ctx.eq(len(g), free, "length of gradient")
        h = 1e-5
        for i in range(free):
            v = [want(np.array([a + (s if j == i else 0) for j, a in enumerate(x)])) for s in (h, -h)]
            ctx.check(abs(g[i] - (v[0] - v[1]) / (2 * h)) < 1e-6, lambda: f"{form}: gradient {g}, coordinate {i} should be {(v[0] - v[1]) / (2 * h)}")
    for bad in (free + 1, free - 1):
        if bad >= 0 and form != "dynamic":
            ctx.raises(lambda: cf(np.zeros(bad)), f"{form}: {bad} parameters instead of {free}", ValueError)


# ---- default estimation method and long histories

def gen_defaults(tier):
    outs = list(itertools.product(range(4), repeat=3))
    for a in outs:
        for form in ("ansatz", "ansatz-default", "expectation", "ground", "ground-complex"):
            yield [form, list(a)]


def step_defaults(ctx, case):
    form, ids = case
    warnings.simplefilter("ignore")
    ctx.state((form, tuple(ids)))
    outs = [tuple((i >> k) & 1 for k in (1, 0)) for i in ids]
    n = 5
    shots = [outs[i % 3] for i in range(n)]
    z = [np.array([(-1) ** s[q] for s in shots]) for q in (0, 1)]
    op = QubitOperator("Z0", 1.5) + QubitOperator("Z1", -1.0) + QubitOperator("Z0 Z1", 0.5) + QubitOperator((), 2.0)
    want = np.mean(1.5 * z[0] - z[1] + 0.5 * z[0] * z[1] + 2.0)
    circuit, preps = real_circuit(1, [S[1]]), [lambda t: allocate_shots_uniformly(t, n)]
    ans = Ans(1, str)
    dev = Device(outs)
    if form == "ansatz":
        cf = AnsatzBasedCostFunction(op, ans, dev, None, preps)
    elif form == "ansatz-default":
        cf = AnsatzBasedCostFunction(op, ans, dev, estimation_preprocessors=preps)
    elif form == "expectation":
        cf = create_cost_function(dev, expectation_value_estimation_tasks_factory(op, circuit, preps))
    else:
        cf = get_ground_state_cost_function(op, circuit, dev, estimation_preprocessors=preps)
    if form == "ground-complex":
        # a method reporting something that is no real number is refused
        cf = get_ground_state_cost_function(op, circuit, dev, lambda backend, tasks: [ExpectationValues(np.array([1 + 1j * (ids[0] + 1)])) for _ in tasks], preps)
        ctx.raises(lambda: cf(np.array([0.2])), f"complex value {1 + ids[0] + 1}j", ValueError)
        return
    for rep in range(4):
        got = cf(np.array([0.2 + rep]))
        ctx.step()
        ctx.check(isinstance(got, ValueEstimate) and abs(got - want) < 1e-9, lambda: f"{form}: shots {shots}, call {rep + 1}: {got}, expected {want}")
    ctx.eq(dev.number_of_circuits_run, 4, f"{form}: circuits run")


def gen_long(tier):
    for st in (["all"], ["even"], ["log"], ["even", "all"], ["third"], ["tenth", "neg"], ["neg", "third", "log"]):
        for n in (23,) if tier == "quick" else (23, 120):
            for pat in range(3):
                yield [st, n, pat]


PRED["third"] = every_nth(3)
PRED["tenth"] = every_nth(10)


def step_long(ctx, case):
    st, n, pat = case
    ctx.state((tuple(st), n, pat))
    t = TargetG()
    sink, gsink = [], []
    logger, glogger = logging.Logger("f"), logging.Logger("g")
    logger.addHandler(Handler(sink))
    glogger.addHandler(Handler(gsink))
    f = augment_cost_function(t, [make_aug(a, sink, logger) for a in st], [make_aug(a, gsink, glogger) for a in st])
    exp, gexp, nf, ng = [], [], 0, 0
    for j in range(n):
        kind = "f" if pat == 0 or (pat == 1 and j % 3) or (pat == 2 and j > n // 2) else "g"
        x = np.array([0.1 * j, -1.0])
        v = float(np.sum(x ** 2)) if kind == "f" else 2 * x
        k, out = (nf, exp) if kind == "f" else (ng, gexp)
        for a in st:
            if a == "neg":
                v = -v
            elif PRED[a](v, x, k):
                out.append(("log", logging.WARNING, "call %d gave %s" % (k, v)) if a == "log" else (a, k, float(np.sum(v)), tuple(x)))
        if kind == "f":
            nf += 1
        else:
            ng += 1
        got = f(x) if kind == "f" else f.gradient(x)
        ctx.step()
        ctx.check(np.array_equal(got, v), lambda: f"augmentations {st}, call {j}: {kind} returned {got}, expected {v}")
    ctx.eq(sink, exp, f"{st}: effects over {n} calls on the function")
    ctx.eq(gsink, gexp, f"{st}: effects over {n} calls on the gradient")


# ---- one array of parameters changed in place, results changed by the caller ----------------
IPOINTS = [0.3, -1.1, 2.0]


def gen_inplace(tier):
    for form in ("expectation", "substitution", "dynamic", "ground", "ansatz"):
        for k in (1, 2, 3):
            for nfix in (0, 1) if k > 1 else (0,):
                for o in (1, 3) if tier == "quick" else range(len(OPS)):
                    yield [form, k, nfix, o]


def step_inplace(ctx, case):
    form, k, nfix, o = case
    warnings.simplefilter("ignore")
    ctx.state(tuple(case))
    ordered = sorted([S[j] for j in SYMS[k]], key=natural_key)
    fixed = np.array([0.9]) if nfix else None
    free = k - nfix

    def build():
        op, circuit, ans = mk(o), real_circuit(k, [S[j] for j in SYMS[k]]), Ans(k, natural_key)
        if form == "ground":
            return op, circuit, ans, None, get_ground_state_cost_function(op, circuit, SymbolicSimulator(), calculate_exact_expectation_values, None, fixed, None, None, symbols_sort_key=natural_key)
        if form == "ansatz":
            return op, circuit, ans, None, AnsatzBasedCostFunction(op, ans, SymbolicSimulator(), calculate_exact_expectation_values, None, fixed, None, None)
        if form == "expectation":
            fac = expectation_value_estimation_tasks_factory(op, circuit, None, natural_key)
        elif form == "substitution":
            fac = substitution_based_estimation_tasks_factory(op, ans)
        else:
            fac = dynamic_circuit_estimation_tasks_factory(op, ans)
        return op, circuit, ans, fac, create_cost_function(SymbolicSimulator(), fac, calculate_exact_expectation_values, [fix_parameters(fixed)] if nfix else None)

    def full(x):
        return dict(zip(ordered, [float(v) for v in (list(fixed) if nfix else []) + list(x)]))

    def want(x):
        by = full(x)
        return value(o, ref_state(k, [by[S[j]] for j in SYMS[k]]))

    for history in itertools.product(range(3), repeat=3):
        op, circuit, ans, fac, cf = build()
        grad = getattr(cf, "gradient", None) if form != "ansatz" else None
        x = np.zeros(free)
        for i, h in enumerate(history):
            for j in range(free):
                x[j] = IPOINTS[(h + j) % 3] + 0.1 * j
            what = lambda: f"{form}: circuit {k}, {nfix} fixed, operator {op}, the same array as {[IPOINTS[y] for y in history[: i + 1]]}"  # noqa: E731
            got = cf(x)
            ctx.step()
            ctx.check(abs(got - want(x)) < 1e-8, lambda: f"{what()}: got {got}, expected {want(x)}")
            if fac is not None and nfix == 0:
                tasks = fac(x)
                ctx.check(len(tasks) == 1 and tasks[0].operator == op, lambda: f"{what()}: tasks {tasks}")
                bound = circuit.bind(full(x))
                ctx.check(tasks[0].circuit == bound, lambda: f"{what()}: circuit {tasks[0].circuit}, expected {bound}")
                tasks.clear()
            if grad is not None and i == 1:
                keep = x.copy()
                g = np.array(grad(x))
                g2 = grad(x)
                ctx.check((x == keep).all(), "gradient changed the parameters")
                g2 *= 0
                ctx.check(np.allclose(grad(x), g), lambda: f"{what()}: the gradient changed with an earlier result")
                for j in range(free):
                    y, z = keep.copy(), keep.copy()
                    y[j] += 1e-5
                    z[j] -= 1e-5
                    ctx.check(abs(g[j] - (want(y) - want(z)) / 2e-5) < 1e-6, lambda: f"{what()}: gradient {g}")
    # tasks asked for first and evaluated later belong to the parameters of their own call
    if form in ("expectation", "substitution", "dynamic") and nfix == 0:
        op, circuit, ans, fac, cf = build()
        x = np.zeros(free)
        kept = []
        for h in range(3):
            x[:] = IPOINTS[h]
            kept.append((x.copy(), fac(x)))
        x[:] = 7.0
        for y, tasks in kept:
            ctx.check(tasks[0].circuit == circuit.bind(full(y)), lambda: f"{form}: tasks for {y} changed afterwards to {tasks[0].circuit}")
    if nfix:
        # the fixed parameters are those given
        op, circuit, ans, fac, cf = build()
        pre = fix_parameters(fixed)
        x = np.array([IPOINTS[0]] * free)
        a = pre(x)
        ctx.check(list(a) == [0.9] + [IPOINTS[0]] * free, "fixed parameters come first")
        a[:] = 5.0
        ctx.check(list(pre(x)) == [0.9] + [IPOINTS[0]] * free and list(x) == [IPOINTS[0]] * free, "a result of fixing parameters is shared with the next")
    # noise with any seed is reproducible and does not depend on the global generator
    for seed in (0, 1, 2, 12345):
        runs = []
        for again in (0, 1, 2):
            np.random.seed(again)
            pre = add_normal_noise(0.1, seed)
            runs.append(np.concatenate([pre(np.zeros(free)), pre(np.ones(free))]))
        g = np.random.default_rng(seed)
        exp = np.concatenate([g.normal(0.0, 0.1, free), 1 + g.normal(0.0, 0.1, free)])
        ctx.check(all(np.allclose(r, exp) for r in runs), lambda: f"noise with seed {seed}: {runs}, expected {exp}")
        if form in ("ground", "ansatz"):
            x = np.array([IPOINTS[0]] * free)
            vals = []
            for again in (0, 1):
                np.random.seed(again)
                if form == "ground":
                    cf = get_ground_state_cost_function(mk(o), real_circuit(k, [S[j] for j in SYMS[k]]), SymbolicSimulator(), calculate_exact_expectation_values, None, fixed, 0.1, seed, symbols_sort_key=natural_key)
                else:
                    cf = AnsatzBasedCostFunction(mk(o), Ans(k, natural_key), SymbolicSimulator(), calculate_exact_expectation_values, None, fixed, 0.1, seed)
                vals.append(cf(x))
            noise = np.random.default_rng(seed).normal(0.0, 0.1, k)
            by = dict(zip(ordered, [float(v) for v in np.concatenate([fixed if nfix else [], x]) + noise]))
            exp = value(o, ref_state(k, [by[S[j]] for j in SYMS[k]]))
            ctx.check(all(abs(v - exp) < 1e-8 for v in vals), lambda: f"{form} with noise of seed {seed}: {vals}, expected {exp}")


FRESH = zqfresh.Fresh(zqfreshlist.C22)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("values", gen, step_values, "five kinds of cost functions x 4 circuits x up to 3 parameter orders x all numbers of fixed parameters x noise forms x operators x preprocessors, four calls each, gradients"),
    Space("sampled", gen_sampled, step_sampled, "all shot patterns of up to 3 outcomes, 4 shot numbers, 6 operators: value and precision"),
    Space("augmentations", gen_aug, step_aug, "all call histories of depth 3 (thorough 4) over 6 calls on stacks of up to 3 augmentations of function and gradient"),
    Space("finite-differences", gen_fd, step_fd, "dimensions 0-4, four steps, three dtypes, four points"),
    Space("many", gen_many, step_many, "five kinds of cost functions of 12 (thorough 11-23) symbols on three qubits x 3 naming schemes x 3 orders x fixed parameters; values, moved coordinates, gradients"),
    Space("defaults", gen_defaults, step_defaults, "default and None estimation methods on all shot patterns of 3 outcomes; values that are not real"),
    Space("long", gen_long, step_long, "histories of 23 (thorough 120) calls on seven stacks of augmentations"),
    Space("in-place", gen_inplace, step_inplace, "five kinds of cost functions x 3 circuits x fixed parameters x 2 (thorough 5) operators x all histories of 3 calls with one array changed in place to 3 points; seeds 0, 1, 2 and 12345"),
]
