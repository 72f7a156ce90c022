"""C19: simulation results do not depend on which operations are native."""
import itertools

import numpy as np

from mc import ref
from mc.core import Space
from mc.ref import Chooser
from mc.rng import closed
from checks import zq
from zquantum.core.circuits import Circuit
from zquantum.core.interfaces.backend import QuantumSimulator
from zquantum.core.measurement import Measurements, sample_from_wavefunction
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.symbolic_simulator import SymbolicSimulator
from zquantum.core.wavefunction import Wavefunction

ID = "C19"
ASSUMPTIONS = ["whether an operation is native depends on the operation alone", "the wrapped library simulates native circuits correctly"]
TECHNIQUE = "exhaustive enumeration of circuits and of all labellings of their operations as native or not, on a simulator double that records what it is given"

# every operation of a circuit is distinct: its angle depends on its position
ALPH = {
    2: [lambda a: ["g", "RX", [a], [0], []], lambda a: ["g", "U3", [a, 0.4, a / 2], [1], []], lambda a: ["g", "CPHASE", [a], [0, 1], []], lambda a: ["g", "RY", [a], [0], [1, "d"][1:]],
        lambda a: ["g", "RY", [a], [1, 0], [1]], lambda a: ["m", 2, a]],
    3: [lambda a: ["g", "RX", [a], [1], []], lambda a: ["g", "RY", [a], [2], []], lambda a: ["g", "XY", [a], [2, 0], []], lambda a: ["g", "PHASE", [a], [2, 1, 0], [2]],
        lambda a: ["m", 3, a]],
    1: [lambda a: ["g", "RX", [a], [0], []], lambda a: ["m", 1, a], lambda a: ["g", "RY", [a], [0], []], lambda a: ["g", "PHASE", [a], [0], []]],
}
OPS = {1: [("q", [((), 2.5), (((0, "X"),), -1.0), (((0, "Y"),), 0.5 + 0j)]), ("i", [(((0, "Z"),), 3.0), ((), -1.0)])],
       2: [("q", [(((0, "X"), (1, "Y")), 1.5), ((), -2.0), (((1, "Z"),), 0.25)]), ("i", [(((0, "Z"), (1, "Z")), -1.0), (((1, "Z"),), 2.0)])],
       3: [("q", [(((0, "Y"), (2, "X")), 1.5), (((1, "Z"), (2, "Z")), 0.25), (((0, "X"), (1, "X"), (2, "Y")), -3.0)]), ("i", [(((0, "Z"), (2, "Z")), -1.0), (((1, "Z"),), 2.0), ((), 7.0)])]}


class Double(QuantumSimulator):
    def __init__(self, native):
        super().__init__()
        self.native, self.seen = native, []

    def is_natively_supported(self, op):
        return any(op == o for o in self.native)

    def _get_wavefunction_from_native_circuit(self, circuit, state):
        self.seen.append((list(circuit.operations), circuit.n_qubits, [complex(x) for x in np.asarray(state).reshape(-1)]))
        vec = self.seen[-1][2]
        for op in circuit.operations:
            vec = ref.apply(ref.tolist(op.gate.matrix), op.qubit_indices, circuit.n_qubits, vec) if hasattr(op, "gate") else [
                x * complex(np.exp(1j * float(t))) for x, t in zip(vec, op.params)]
        return np.array(vec)

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        return Measurements(sample_from_wavefunction(self.get_wavefunction(circuit), n_samples, 1))


class Default(Double):
    """the default notion: gates are native"""
    is_natively_supported = QuantumSimulator.is_natively_supported


def gen(tier):
    for n in (1, 2, 3):
        top = {1: 4, 2: 3, 3: 3}[n] + (1 if tier == "thorough" else 0)
        for d in range(0, top + 1):
            for seq in itertools.product(range(len(ALPH[n])), repeat=d):
                yield [n, list(seq), 0 if n < 3 else d % 2]


def close(a, b, tol=1e-8):
    return len(a) == len(b) and all(abs(x - y) < tol for x, y in zip(a, b))


def step_case(ctx, case):
    n, seq, idle = case
    ds = [ALPH[n][k](0.3 + 0.45 * p) if k < 99 else None for p, k in enumerate(seq)]
    if idle:
        # an idle last qubit, unless a multi-phase operation fixes the register
        idle = 0 if any(d[0] == "m" for d in ds) else 1
    N = n + idle
    refs = [zq.ref_op(d) for d in ds]
    ops = [zq.real_op(d) for d in ds]
    circuit = Circuit(ops, n_qubits=N)
    init = ref.generic_state(N)
    final0 = ref.run(refs, N)
    final1 = ref.run(refs, N, init)
    ctx.state((n, tuple(seq)))
    for lab in itertools.product((False, True), repeat=len(ops)):
        native = [o for o, l in zip(ops, lab) if l]
        runs = [(k, len(list(v))) for k, v in itertools.groupby(lab)]
        for start, want in ((None, final0), (np.array(init), final1)):
            s = Double(native)
            what = f"{ds} on {N} qubits, native {lab}, from {'a given state' if start is not None else 'zeros'}"
            wf = s.get_wavefunction(circuit) if start is None else s.get_wavefunction(circuit, start)
            ctx.step()
            ctx.check(isinstance(wf, Wavefunction) and close(zq.vec(wf), want), lambda: f"{what}: state {zq.vec(wf)}, expected {want}")
            if start is not None:
                ctx.check(close(list(start), init, 1e-15), f"{what}: the given state was modified")
            # what the wrapped library received
            pos, k = 0, 0
            for isn, length in runs:
                if isn:
                    ctx.check(k < len(s.seen), f"{what}: native run {k} missing")
                    got_ops, got_n, got_state = s.seen[k]
                    ctx.check(got_n == N and got_ops == ops[pos:pos + length], lambda: f"{what}: native run {k} received {got_ops} on {got_n} qubits, expected {ops[pos:pos + length]}")
                    ctx.check(close(got_state, ref.run(refs[:pos], N, None if start is None else init)), lambda: f"{what}: native run {k} starts from {got_state}")
                    k += 1
                pos += length
            ctx.eq(len(s.seen), k, f"{what}: number of native runs")
            ctx.eq((s.number_of_circuits_run, s.number_of_jobs_run), (k, k), f"{what}: counters")
        # derived quantities
        probs = {ref.bits(i, N): abs(x) ** 2 for i, x in enumerate(final0)}
        if len(lab) < 3 or lab in (tuple([True] * len(lab)), tuple([False] * len(lab))) or sum(lab) == 1:
            s = Double(native)
            dd = s.get_measurement_outcome_distribution(circuit).distribution_dict
            ctx.check(all(abs(dd.get(k, 0) - v) < 1e-8 for k, v in probs.items()) and set(dd) <= set(probs), lambda: f"{what}: distribution {dd}")
            bd = s.get_bitstring_distribution(circuit).distribution_dict
            ctx.check(all(abs(bd.get(k, 0) - v) < 1e-8 for k, v in probs.items()) and set(bd) <= set(probs), lambda: f"{what}: bitstring distribution {bd}")
            for kind, terms in OPS[n]:
                op = QubitOperator() if kind == "q" else IsingOperator()
                for t, c in terms:
                    op += (QubitOperator if kind == "q" else IsingOperator)(t, c)
                ev = s.get_exact_expectation_values(circuit, op).values
                want = [ref.expect(ref.op_matrix([(t, c)], N, "q"), final0) for t, c in terms]
                ctx.check(close(list(ev), want) and np.asarray(ev).dtype.kind == "f", lambda: f"{what}: exact values {ev} of {op}, expected {want}")
            if len(seq) <= 2:
                got = {}
                for ch, r in ref.explore_choices(lambda ch: sample(circuit, native, ch)):
                    got[r[0]] = got.get(r[0], 0) + r[1]
                ctx.check(all(abs(got.get(k, 0) - v) < 1e-7 for k, v in probs.items()) and set(got) <= {k for k, v in probs.items() if v > 0}, lambda: f"{what}: one shot is distributed as {got}")
        ctx.step(4)
    # the default notion and the bundled simulator
    for s in (Default([]), SymbolicSimulator()):
        for start, want in ((None, final0), (np.array(init), final1)):
            wf = s.get_wavefunction(circuit) if start is None else s.get_wavefunction(circuit, start)
            ctx.check(close(zq.vec(wf), want), lambda: f"{type(s).__name__}: {ds}: state {zq.vec(wf)}")
            ctx.step()
    d = Default([])
    d.get_wavefunction(circuit)
    want = [len(list(v)) for k, v in itertools.groupby(ds, lambda x: x[0] != "m") if k]
    ctx.eq([len(x[0]) for x in d.seen], want, f"{ds}: default native runs")


def sample(circuit, native, ch):
    with closed(ch) as (gen_, _):
        m = Double(native).run_circuit_and_measure(circuit, 1)
        return tuple(m.bitstrings[0]), gen_.weight


def gen_long(tier):
    for n in (3, 6):
        for L in ((21, 60) if n == 3 else (21,)) if tier == "quick" else (21, 60, 130):
            for pat in range(16):
                for seq in ((0, 1, 2), (2, 3, 4), (4, 4, 1)):
                    yield [n, L, pat, list(seq)]


def step_long(ctx, case):
    """long circuits with periodic labellings, a register of 6 qubits with a gap"""
    n, L, pat, seq = case
    ds = []
    for p in range(L):
        d = ALPH[3][seq[p % 3]](0.3 + 0.05 * p)
        if d[0] == "m":
            d = ["m", n, 0.1 * p]
        elif n == 6:
            d = d[:3] + [[(q * 2 + 1 + p % 2) % 6 for q in d[3]]] + d[4:]
        ds.append(d)
    refs = [zq.ref_op(d) for d in ds]
    ops = [zq.real_op(d) for d in ds]
    circuit = Circuit(ops, n_qubits=n)
    lab = [bool(pat >> (p + p // 9) % 4 & 1) for p in range(L)]
    ctx.state((n, L, pat, tuple(seq)))
    states = [ref.run([], n, ref.generic_state(n))]
    for r in refs:
        states.append(ref.run([r], n, states[-1]))
    s = Double([o for o, l in zip(ops, lab) if l])
    for rep in (1, 2):
        wf = s.get_wavefunction(circuit, np.array(states[0]))
        ctx.step()
        ctx.check(close(zq.vec(wf), states[-1]), f"{case}: final state")
        pos, k, base = 0, 0, len(s.seen) // rep * (rep - 1)
        for isn, grp in itertools.groupby(lab):
            length = len(list(grp))
            if isn:
                got_ops, got_n, got_state = s.seen[base + k]
                ctx.check(got_n == n and got_ops == ops[pos:pos + length], f"{case}: native run {k}")
                ctx.check(close(got_state, states[pos]), f"{case}: native run {k} starts from another state")
                k += 1
            pos += length
        ctx.eq((len(s.seen), s.number_of_circuits_run, s.number_of_jobs_run), (rep * k,) * 3, f"{case}: native runs and counters after {rep} simulations")
    for other in (Default([]), SymbolicSimulator()):
        ctx.check(close(zq.vec(other.get_wavefunction(circuit, np.array(states[0]))), states[-1]), f"{case}: {type(other).__name__}")
    op = QubitOperator(((0, "X"), (n - 1, "Y")), 0.5) + QubitOperator((), 2.0) + QubitOperator(((1, "Z"),), -1.0)
    zero = ref.run(refs, n)
    want = [ref.expect(ref.op_matrix([(t, c)], n, "q"), zero) for t, c in op.terms.items()]
    ctx.check(close(list(s.get_exact_expectation_values(circuit, op).values), want), f"{case}: exact values")


class InPlace(Double):
    """a library that evolves the vector it is given in place"""

    def _get_wavefunction_from_native_circuit(self, circuit, state):
        final = super()._get_wavefunction_from_native_circuit(circuit, state)
        state = np.asarray(state)
        if state.dtype.kind != "c":
            if np.abs(np.imag(final)).max() > 1e-12:
                return final
            final = np.real(final)
        state[...] = final.reshape(state.shape)
        return state


REPEAT = [["g", "RY", [0.6], [0], []], ["g", "X", [], [1], []], ["g", "RY", [1.1], [0, 1], [1]], ["m", 2, 0.4], ["g", "RX", [0.9], [1], []]]


def gen_repeat(tier):
    pool = [[]] + [[a] for a in range(len(REPEAT))] + [list(p) for p in itertools.permutations(range(len(REPEAT)), 2)]
    pool = [[n, c] for n in (2, 3) for c in pool if n == 2 or 3 not in c]
    for a in range(len(pool)):
        for b in range(len(pool)):
            if tier == "thorough" or (a + b) % 3 == 0 or len(pool[a][1]) + len(pool[b][1]) < 3:
                yield [pool[a], pool[b]]


def step_repeat(ctx, case):
    """simulations by one simulator, and by several, do not influence each other"""
    ctx.state(repr(case))
    runs = []
    for n, idx in case:
        ds = [REPEAT[i] for i in idx]
        runs.append((Circuit([zq.real_op(d) for d in ds], n_qubits=n), [zq.ref_op(d) for d in ds], n))
    for native in (lambda ops: list(ops), lambda ops: [o for k, o in enumerate(ops) if k % 2 == 0]):
        ops = native([o for c, _, _ in runs for o in c.operations])
        for make in (lambda: InPlace(ops), lambda: Double(ops), SymbolicSimulator):
            shared = make()
            for sims in ((shared, shared, shared), (make(), make(), make())):
                kept = []
                for s, (c, refs, n) in zip(sims, (runs[0], runs[1], runs[0])):
                    wf = s.get_wavefunction(c)
                    ctx.step()
                    ctx.check(close(zq.vec(wf), ref.run(refs, n)), lambda: "%s: simulation %d of %s gives %s" % (type(s).__name__, len(kept), case, zq.vec(wf)))
                    kept.append((wf, ref.run(refs, n)))
                    for w, want in kept:
                        ctx.check(close(zq.vec(w), want), lambda: "%s: a wavefunction changed after a later simulation of %s" % (type(s).__name__, case))


# ---- chains of operations without parameters, states and operators of awkward form ----------------
FREE = [["g", "H", [], [0], []], ["g", "X", [], [1], []], ["g", "CNOT", [], [0, 1], []], ["g", "T", [], [1], []], ["g", "SWAP", [], [0, 1], []], ["g", "Y", [], [0], []], ["g", "S", [], [0], ["d"]],
        ["g", "RY", [0.7], [1], []]]
ROUNDED = [0.35355339, -0.35355339, 0.35355339j, -0.35355339, 0.35355339, 0.35355339j, -0.35355339j, 0.35355339]
MANY = [(((0, "Z"),), 1.0), (((0, "Z"), (1, "Z")), -2.0), ((), 0.5), (((1, "Z"), (2, "Z")), 3.0), (((2, "Z"),), -0.25), (((0, "Z"), (1, "Z"), (2, "Z")), 0.125), (((1, "Z"),), 7.0)]


def gen_chains(tier):
    for length in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        for start in range(len(FREE)):
            for stride in (1, 3, 5, 7):
                yield [length, start, stride]


def step_chains(ctx, case):
    length, start, stride = case
    ds = [FREE[(start + stride * k) % len(FREE)] for k in range(length)]
    refs, ops = [zq.ref_op(d) for d in ds], [zq.real_op(d) for d in ds]
    ctx.state(tuple(case))
    n = 3
    circuit = Circuit(ops, n_qubits=n)
    for lab in itertools.product((False, True), repeat=length):
        native = [o for o, x in zip(ops, lab) if x]
        for init in (None, np.array(ROUNDED, dtype=complex), np.array([1.0 - 1e-9, 0, 0, 0, 0, 0, 0, 0]), [0, 0, 0, 1, 0, 0, 0, 0]):
            s = Double(native)
            keep = None if init is None else list(init)
            wf = s.get_wavefunction(circuit) if init is None else s.get_wavefunction(circuit, init)
            ctx.step()
            ctx.check(init is None or list(init) == keep, lambda: "%s, native %s: the initial state was changed" % (ds, lab))
            ctx.check(close(zq.vec(wf), ref.run(refs, n, keep)), lambda: "%s, native %s from %s: %s" % (ds, lab, init, zq.vec(wf)))
        if length == 3:
            final = ref.run(refs, n)
            for cls in (IsingOperator, QubitOperator):
                for rot in range(len(MANY)):
                    terms = MANY[rot:] + MANY[:rot]
                    op = cls()
                    for t, c in terms:
                        op += cls(t, c)
                    want = [ref.expect(ref.pauli_term(t, n, c), final) for t, c in op.terms.items()]
                    ev = Double(native).get_exact_expectation_values(circuit, op).values
                    ctx.step()
                    ctx.check(close(list(ev), want), lambda: "%s: exact values %s of %s, expected %s" % (ds, ev, op, want))


SPACES = [
    Space("labellings", gen, step_case, "all circuits of depth up to 4 (1 qubit) and 3 (2-3 qubits; thorough one more) over 4-6 operations, all labellings as native, two initial states; distributions, exact values and one-shot sampling of the result"),
    Space("long", gen_long, step_long, "circuits of 21 and 60 (thorough 130) operations on 3 and 6 qubits, 3 patterns of operations, all periodic labellings of period 4, simulated twice by one simulator"),
    Space("repeat", gen_repeat, step_repeat, "pairs (quick: a third and the short ones) of circuits of up to 2 operations on 2 and 3 qubits, simulated one after another and again by simulators that evolve in place, that do not, and the bundled one"),
        Space("chains", gen_chains, step_chains, "circuits of 3-5 (thorough 7) operations, most without parameters, under all labellings, from four initial states, operators of seven terms in all rotations"),
]
