"""C09: one bit order in probabilities, samples, counts, distributions and expectation values."""
import collections
import itertools
import math

import numpy as np
import sympy

from mc import ref, rng
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import circuits
from zquantum.core.circuits import Circuit, CustomGateDefinition, X
from zquantum.core.bitstring_distribution import create_bitstring_distribution_from_probability_distribution as bd_from_probs
from zquantum.core.distribution import MeasurementOutcomeDistribution, create_bitstring_distribution_from_probability_distribution
from zquantum.core.measurement import (Measurements, check_parity, get_expectation_value_from_frequencies, get_parities_from_measurements,
                                       get_expectation_values_from_parities, sample_from_wavefunction)
from zquantum.core.openfermion import IsingOperator, QubitOperator, get_expectation_value
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.utils import sample_from_probability_distribution
from zquantum.core.wavefunction import Wavefunction

ID = "C09"
ASSUMPTIONS = [
    "a generator's choice only returns items of positive probability; sampling that used another kind of draw would only be checked for support and size",
    "keys of Wavefunction.get_outcome_probs are strings with the last qubit first (public convention), every other key has qubit k at position k",
]
TECHNIQUE = "exhaustive enumeration of states and of every answer of the random source, exact output distributions compared with squared amplitudes"


def amps(n, spec):
    """spec: {basis index: weight}; generic phases"""
    tot = sum(w for _, w in spec)
    v = [0j] * (1 << n)
    for j, (i, w) in enumerate(spec):
        v[i] = math.sqrt(w / tot) * complex(math.cos(1.3 * j + 0.4), math.sin(1.3 * j + 0.4))
    return v


def prep(n, v):
    """circuit preparing v: a generic gate whose first column is v"""
    m = np.eye(len(v), dtype=complex)
    cols = [np.array(v)]
    for i in range(len(v)):
        w = m[:, i].copy()
        for c in cols:
            w = w - np.vdot(c, w) * c
        if np.linalg.norm(w) > 1e-6 and len(cols) < len(v):
            cols.append(w / np.linalg.norm(w))
    u = sympy.Matrix(np.array(cols).T)
    return Circuit([CustomGateDefinition("prep", u, ())()(*range(n))], n_qubits=n)


def outputs(ctx, body, what):
    """{result: probability} over every answer of the random source; None as probability when it used continuous draws"""
    out = collections.defaultdict(float)
    weighted = True

    def run(ch):
        with rng.closed(ch, points=(0.0, 0.03, 0.2, 0.47, 0.71, 0.97, 1 - 2 ** -40)) as (g, p):
            r = body()
        return r, (None if g.weight is None or p.weight is None else g.weight * p.weight)

    for ch, (r, w) in ref.explore_choices(run, 4000):
        ctx.step()
        if w is None:
            weighted = False
            out[r] += 0
        else:
            out[r] += w
    return dict(out), weighted


def compare_dist(ctx, got, weighted, want, what):
    for r in got:
        ctx.check(r in want, lambda: f"{what}: result {r} has probability zero")
    if weighted:
        for r, p in want.items():
            ctx.check(abs(got.get(r, 0.0) - p) < 1e-9, lambda: f"{what}: {r} comes with probability {got.get(r, 0.0)}, expected {p}")


def gen_states(tier):
    for n in range(1, 5):
        for i in range(1 << n):
            yield [n, [[i, 1]]]
    for n in range(1, 4):
        for i, j in itertools.permutations(range(1 << n), 2):
            yield [n, [[i, 1], [j, 3]]]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for t in itertools.permutations(range(1 << n), 3):
            yield [n, [[t[0], 1], [t[1], 2], [t[2], 5]]]
    yield [2, [[0, 1], [1, 2], [2, 3], [3, 5]]]
    yield [3, [[i, i + 1] for i in range(8)]]


def step_states(ctx, case):
    n, spec = case
    v = amps(n, spec)
    tot = sum(w for _, w in spec)
    P = {ref.bits(i, n): w / tot for i, w in spec}
    ctx.state((n, tuple(map(tuple, spec))))
    wf = Wavefunction(np.array(v))
    what = f"{n} qubits {spec}"
    o = wf.get_outcome_probs()
    for i in range(1 << n):
        b = ref.bits(i, n)
        ctx.check(abs(o["".join(map(str, b))[::-1]] - P.get(b, 0)) < 1e-9, f"{what}: outcome probability of {b}")
    # exact distribution
    for mk in (create_bitstring_distribution_from_probability_distribution, bd_from_probs):
        d = mk(wf.get_probabilities()).distribution_dict
        ctx.eq(set(d), {ref.bits(i, n) for i in range(1 << n)}, f"{what}: keys of the exact distribution")
        for b, p in d.items():
            ctx.check(abs(p - P.get(b, 0)) < 1e-9, f"{what}: distribution[{b}] = {p}")
    # sampling from the state: every answer of the random source
    s = len(spec)
    for k in (1, 2, 3) if s <= 2 else (1, 2) if s <= 4 else (1,):
        want = {tuple(t): math.prod(P[x] for x in t) if hasattr(math, "prod") else float(np.prod([P[x] for x in t]))
                for t in itertools.product(P, repeat=k)}
        got, w = outputs(ctx, lambda: tuple(sample_from_wavefunction(wf, k)), what)
        for r in got:
            ctx.eq(len(r), k, f"{what}: number of samples")
            ctx.check(all(len(x) == n and all(type(y) is int for y in x) for x in r), f"{what}: samples {r} are not tuples of {n} ints")
        compare_dist(ctx, got, w, want, f"{k} samples of {what}")
        # counts, measurement distribution
        for r in list(got)[:40]:
            ms = Measurements(list(r))
            cnt = collections.Counter("".join(map(str, x)) for x in r)
            ctx.eq(ms.get_counts(), dict(cnt), f"{what}: counts")
            dist = ms.get_distribution().distribution_dict
            ctx.eq(set(dist), set(r), f"{what}: keys of the measured distribution")
            ctx.check(all(abs(dist[x] - r.count(x) / k) < 1e-12 for x in dist), f"{what}: measured distribution {dist}")
            ctx.eq(sorted(Measurements.from_counts(dict(cnt)).bitstrings), sorted(r), f"{what}: shots from counts")
        dd = create_bitstring_distribution_from_probability_distribution(wf.get_probabilities()).distribution_dict
        dd = {b: p if p > 1e-12 else 0.0 for b, p in dd.items()}
        got, w = outputs(ctx, lambda: tuple(sorted(sample_from_probability_distribution(dd, k).items())), what)
        want2 = collections.defaultdict(float)
        for t, p in want.items():
            want2[tuple(sorted(collections.Counter(t).items()))] += p
        compare_dist(ctx, got, w, want2, f"{k} draws from the distribution of {what}")
    for k in (0, -1):
        ctx.raises(lambda: sample_from_wavefunction(wf, k), f"{k} samples", ValueError)


def gen_backend(tier):
    for n in range(1, 4):
        for i in range(1 << n):
            yield [n, [[i, 1]], "x"]
    for n in range(1, 4):
        for i, j in itertools.permutations(range(1 << n), 2):
            yield [n, [[i, 1], [j, 3]], "prep"]
    yield [3, [[1, 1], [4, 2], [6, 5]], "prep"]
    yield [3, [[3, 1], [2, 2], [0, 5]], "prep"]


def step_backend(ctx, case):
    n, spec, how = case
    v = amps(n, spec)
    tot = sum(w for _, w in spec)
    P = {ref.bits(i, n): w / tot for i, w in spec}
    ctx.state((n, tuple(map(tuple, spec))))
    if how == "x":
        b = ref.bits(spec[0][0], n)
        c = Circuit([X(q) for q in range(n) if b[q]], n_qubits=n)
    else:
        c = prep(n, v)
    what = f"circuit for {spec} on {n} qubits"
    sim = SymbolicSimulator()
    for d in (sim.get_measurement_outcome_distribution(c).distribution_dict, sim.get_bitstring_distribution(c).distribution_dict):
        ctx.check(all(abs(d.get(ref.bits(i, n), 0) - P.get(ref.bits(i, n), 0)) < 1e-9 for i in range(1 << n)), lambda: f"{what}: exact distribution {d}")
        ctx.check(abs(sum(d.values()) - 1) < 1e-9, f"{what}: total")
    for k in (1, 2):
        want = {tuple(t): float(np.prod([P[x] for x in t])) for t in itertools.product(P, repeat=k)}
        got, w = outputs(ctx, lambda: tuple(sim.run_circuit_and_measure(c, k).bitstrings), what)
        compare_dist(ctx, got, w, want, f"{k} shots of {what}")
        wantd = collections.defaultdict(float)
        for t, p in want.items():
            wantd[tuple(sorted((x, m / k) for x, m in collections.Counter(t).items()))] += p
        for f in (sim.get_measurement_outcome_distribution, sim.get_bitstring_distribution):
            got, w = outputs(ctx, lambda: tuple(sorted(f(c, k).distribution_dict.items())), what)
            compare_dist(ctx, got, w, wantd, f"distribution of {k} shots of {what}")
    got, w = outputs(ctx, lambda: tuple(tuple(m.bitstrings) for m in sim.run_circuitset_and_measure([c, c], [1, 2])), what)
    want = {((a,), (b, e)): P[a] * P[b] * P[e] for a in P for b in P for e in P}
    compare_dist(ctx, got, w, want, f"set of two circuits for {what}")
    # exact expectation values of every Z-string and of Paulis that are sensitive to qubit order
    terms = [t for r in range(1, n + 1) for t in itertools.combinations(range(n), r)]
    op = IsingOperator()
    for j, t in enumerate(terms):
        op += IsingOperator(tuple((q, "Z") for q in t), 0.5 + j)
    got = sim.get_exact_expectation_values(c, op)
    for t, g, (key, cf) in zip(terms, got.values, op.terms.items()):
        ctx.eq(tuple(q for q, _ in key), t, "order of terms")
        e = cf * sum(p * (-1) ** sum(b[q] for q in t) for b, p in P.items())
        ctx.check(abs(g - e) < 1e-9, f"{what}: <Z{t}> = {g}, expected {e}")
    ctx.eq(len(got.values), len(terms), "number of expectation values")
    vec = ref.run if False else (v if how == "prep" else [abs(x) for x in v])
    for t in itertools.product("XYZ", repeat=n):
        term = tuple(enumerate(t))
        g = sim.get_exact_expectation_values(c, QubitOperator(term, 0.7)).values[0]
        e = ref.expect(ref.pauli_term(term, n, 0.7), vec)
        ctx.check(abs(g - e) < 1e-8, f"{what}: <{t}> = {g}, expected {e}")


def gen_expect(tier):
    for n, N in ((1, 8), (2, 6), (3, 3)) if tier == "quick" else ((1, 12), (2, 8), (3, 4)):
        for c in itertools.combinations_with_replacement(range(1 << n), N):
            yield [n, list(c)]


def step_expect(ctx, case):
    n, shots = case
    N = len(shots)
    cnt = collections.Counter(shots)
    v = amps(n, [[i, c] for i, c in cnt.items()])
    wf = Wavefunction(np.array(v))
    tuples = [ref.bits(i, n) for i in shots]
    ctx.state((n, tuple(shots)))
    terms = [t for r in range(0, n + 1) for t in itertools.combinations(range(n), r)]
    op = IsingOperator()
    for j, t in enumerate(terms):
        op += IsingOperator(tuple((q, "Z") for q in t), 0.5 + j)
    want = [op.terms[tuple((q, "Z") for q in t)] * sum((-1) ** sum(b[q] for q in t) for b in tuples) / N for t in terms]
    got = Measurements(tuples).get_expectation_values(op).values
    exact = [get_expectation_value(QubitOperator(tuple((q, "Z") for q in t), op.terms[tuple((q, "Z") for q in t)]), wf) for t in terms]
    par = get_parities_from_measurements(tuples, op)
    pe = get_expectation_values_from_parities(par).values
    dist = create_bitstring_distribution_from_probability_distribution(wf.get_probabilities())
    rep = None

    def rep_body():
        return tuple(sorted(Measurements.get_measurements_representing_distribution(dist, N).bitstrings))

    reps, _ = outputs(ctx, rep_body, "representing shots")
    ctx.eq(set(reps), {tuple(sorted(tuples))}, f"shots representing the distribution of {shots}")
    freq = {"".join(map(str, b)): c for b, c in collections.Counter(tuples).items()}
    for j, t in enumerate(terms):
        ctx.step()
        what = f"<Z{t}> for shots {shots} on {n} qubits"
        cf = op.terms[tuple((q, "Z") for q in t)]
        ctx.check(abs(got[j] - want[j]) < 1e-9, f"{what} from samples: {got[j]} not {want[j]}")
        ctx.check(abs(exact[j] - want[j]) < 1e-8, f"{what} from the state: {exact[j]} not {want[j]}")
        ctx.check(abs(cf * pe[j] - want[j]) < 1e-9, f"{what} from parities: {cf * pe[j]} not {want[j]}")
        e = cf * sum(p * (1 if check_parity(b, t) else -1) for b, p in dist.distribution_dict.items())
        ctx.check(abs(e - want[j]) < 1e-9, f"{what} from the exact distribution: {e} not {want[j]}")
        f = cf * get_expectation_value_from_frequencies(t, freq)
        ctx.check(abs(f - want[j]) < 1e-9, f"{what} from frequencies: {f} not {want[j]}")
        for b in set(tuples):
            ev = sum(b[q] for q in t) % 2 == 0
            ctx.eq(bool(check_parity(b, t)), ev, "parity of a tuple")
            ctx.eq(bool(check_parity("".join(map(str, b)), t)), ev, "parity of a string")


def gen_wide(tier):
    for n in range(5, 12 if tier == "quick" else 14):
        for k in range(n):
            yield [n, [1 << k]]
        yield [n, [1, 1 << (n - 1)]]
        yield [n, [(1 << n) - 2, 3]]


def step_wide(ctx, case):
    """one and two basis states of wide registers"""
    n, idx = case
    v = np.zeros(1 << n, dtype=complex)
    w = [1.0] if len(idx) == 1 else [0.25, 0.75]
    for i, p in zip(idx, w):
        v[i] = math.sqrt(p)
    P = {ref.bits(i, n): p for i, p in zip(idx, w)}
    wf = Wavefunction(v)
    ctx.state((n, tuple(idx)))
    what = f"{n} qubits, states {idx}"
    o = wf.get_outcome_probs()
    ctx.eq(len(o), 1 << n, f"{what}: number of outcomes")
    ctx.check(all(abs(q - P.get(tuple(int(x) for x in reversed(b)), 0)) < 1e-12 for b, q in o.items()), f"{what}: outcome probabilities")
    d = create_bitstring_distribution_from_probability_distribution(wf.get_probabilities()).distribution_dict
    ctx.check(len(d) == 1 << n and all(abs(q - P.get(b, 0)) < 1e-12 for b, q in d.items()), f"{what}: exact distribution")
    for k in (1, 2):
        want = {tuple(t): float(np.prod([P[x] for x in t])) for t in itertools.product(P, repeat=k)}
        got, weighted = outputs(ctx, lambda: tuple(sample_from_wavefunction(wf, k)), what)
        compare_dist(ctx, got, weighted, want, f"{k} samples of {what}")
    if len(idx) == 1:
        b = ref.bits(idx[0], n)
        big = Measurements([b] * 300)
        ctx.eq(big.get_counts(), {"".join(map(str, b)): 300}, f"{what}: counts")
        if n <= 9:
            sim = SymbolicSimulator()
            c = Circuit([X(q) for q in range(n) if b[q]], n_qubits=n)
            got, weighted = outputs(ctx, lambda: tuple(sim.run_circuit_and_measure(c, 2).bitstrings), what)
            ctx.eq(set(got), {(b, b)}, f"{what}: shots of the simulator")
            got = sim.get_exact_expectation_values(c, sum((IsingOperator(f"Z{q}", 1.0 + q) for q in range(n)), IsingOperator())).values
            ctx.check(all(abs(g - (1 + q) * (1 - 2 * b[q])) < 1e-9 for q, g in enumerate(got)) and len(got) == n, lambda: f"{what}: exact values {got}")
    for t in [(q,) for q in range(n)] + [(0, n - 1), tuple(range(n))]:
        w_ = sum(p * (-1) ** sum(b[q] for q in t) for b, p in P.items())
        g = get_expectation_value(QubitOperator(tuple((q, "Z") for q in t)), wf)
        ctx.check(abs(g - w_) < 1e-9, lambda: f"{what}: <Z{t}> = {g}, expected {w_}")


# ---- seeds ---------------------------------------------------------------------------------
def gen_seeds(tier):
    for n in (1, 2, 3):
        for seed in (0, 1, 2, 7, 2 ** 31) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 2 ** 31, 2 ** 40):
            for k in (1, 2, 7, 100):
                yield [n, seed, k]


def step_seeds(ctx, case):
    n, seed, k = case
    ctx.state(tuple(case))
    spec = [[i, i + 1] for i in range(1 << n)]
    wf = Wavefunction(np.array(amps(n, spec)))
    circuit = prep(n, amps(n, spec))
    runs, shots = [], []
    sim = SymbolicSimulator(seed=seed)
    for again in range(4):
        np.random.seed(again)
        runs.append([tuple(map(int, s)) for s in sample_from_wavefunction(wf, k, seed)])
        sample_from_wavefunction(wf, 1 + again)
        shots.append([tuple(map(int, s)) for s in (sim if again % 2 else SymbolicSimulator(seed=seed)).run_circuit_and_measure(circuit, k).bitstrings])
        ctx.step()
    ctx.check(all(len(r) == k for r in runs + shots), f"{case}: number of samples")
    ctx.check(all(r == runs[0] for r in runs), lambda: f"{case}: samples with one seed differ: {runs}")
    ctx.check(shots[0] == shots[2], lambda: f"{case}: shots of simulators with one seed differ: {shots}")


FRESH = zqfresh.Fresh(zqfreshlist.C09)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("states", gen_states, step_states, "every basis state up to 4 qubits, ordered pair superpositions up to 3, triples up to 3 (thorough 4); 1-3 samples, every answer of the generator"),
    Space("backend", gen_backend, step_backend, "every basis state up to 3 qubits and pair superpositions up to 3 through the simulator, 1-2 shots, all Pauli strings"),
    Space("expectations", gen_expect, step_expect, "every multiset of 8/6/3 shots on 1/2/3 qubits (thorough 12/8/4), every Z-string"),
    Space("wide", gen_wide, step_wide, "basis states and pairs of them on 5 to 11 (thorough 13) qubits through outcomes, samples, simulator and expectation values"),
    Space("seeds", gen_seeds, step_seeds, "5 (thorough 10) seeds including 0 x 1-3 qubits x 1, 2, 7 and 100 samples, four times each"),
]
