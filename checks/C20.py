"""C20: time-evolution circuits implement the documented product formula."""
import itertools
import math

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import Circuit
from zquantum.core.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from zquantum.core.openfermion import QubitOperator

ID = "C20"
ASSUMPTIONS = ["Hamiltonians have at least one term, real coefficients (of real or complex type) and no negligible ones"]
TECHNIQUE = "exhaustive enumeration of Pauli terms, ordered Hamiltonians, times and step numbers against dense exponentials; derivatives compared as superoperators, i.e. for all states and observables"

T, A, B = sympy.Symbol("t"), sympy.Symbol("alpha"), sympy.Symbol("beta")
VAL = {T: 0.37, A: -0.8, B: 1.3}


def value(x):
    if isinstance(x, sympy.Basic):
        return float(x.subs(VAL))
    return complex(x).real


TIMES = [0.4, -1.1, 0, 1, 3.7, np.float64(0.25), sympy.Rational(1, 3), sympy.pi / 5, T, 2 * T - A, T * A + 1]
COEFS = [1.0, -0.7, 2, 0.3 + 0j, np.float64(1.9), A, 0.5 * A + B]


def term_matrix(term, n):
    return np.array(ref.pauli_term(term, n))


def expo(term, c, t, n):
    """exp(-i t c P)"""
    if not term:
        return np.exp(-1j * t * c) * np.eye(1 << n)
    P = term_matrix(term, n)
    return math.cos(t * c) * np.eye(1 << n) - 1j * math.sin(t * c) * P


_u = {}


def unitary(circuit, n):
    """matrix of a bound circuit, widened to n qubits, by the reference"""
    U = np.eye(1 << n, dtype=complex)
    for op in circuit.operations:
        key = (op.gate.name, tuple(map(str, op.gate.params)), tuple(op.qubit_indices), n)
        if key not in _u:
            if len(_u) > 4000:
                _u.clear()
            _u[key] = np.array(ref.unitary([(ref.tolist(op.gate.matrix), op.qubit_indices)], n))
        U = _u[key] @ U
    return U


def same_up_to_phase(U, V):
    i = np.unravel_index(np.argmax(np.abs(V)), V.shape)
    ph = U[i] / V[i]
    return abs(abs(ph) - 1) < 1e-8 and np.max(np.abs(U - ph * V)) < 1e-8


def bind(c):
    return c.bind(VAL) if c.free_symbols else c


def gen_term(tier):
    words = []
    for n in (1, 2, 3):
        for qs in ([[0], [2]] if n == 1 else [[0, 1], [1, 2], [0, 2], [0, 3]] if n == 2 else [[0, 1, 2], [0, 1, 3], [1, 2, 3]]):
            for w in itertools.product("XYZ", repeat=n):
                words.append([[q, p] for q, p in zip(qs, w)])
    if tier == "thorough":
        for w in itertools.product("XYZ", repeat=4):
            words.append([[q, p] for q, p in zip(range(4), w)])
    words.append([])
    for w in words:
        for c in range(len(COEFS)):
            yield [w, c]


def step_term(ctx, case):
    w, ci = case
    term = tuple((q, p) for q, p in w)
    c = COEFS[ci]
    n = max([q for q, _ in term] or [0]) + 1
    ctx.state((term, ci))
    for t in TIMES:
        for order in ([term, tuple(reversed(term))] if len(term) > 1 and ci == 0 else [term]):
            op = QubitOperator(order, c)
            circ = time_evolution_for_term(op, t)
            ctx.step()
            what = f"evolution of {op} for {t}"
            if not term:
                ctx.check(circ == Circuit(), f"{what}: not empty")
                continue
            want = expo(term, value(c), value(t), n)
            syms = (t.free_symbols if isinstance(t, sympy.Basic) else set()) | (c.free_symbols if isinstance(c, sympy.Basic) else set())
            ctx.check(set(circ.free_symbols) == syms or value(t) == 0, lambda: f"{what}: symbols {circ.free_symbols}")
            ctx.eq(circ.n_qubits, n, f"{what}: register")
            ctx.check(np.max(np.abs(unitary(bind(circ), n) - want)) < 1e-8 or same_up_to_phase(unitary(bind(circ), n), want), lambda: f"{what}: wrong unitary of {circ}")
            ctx.check(dict(op.terms) == {term: c}, f"{what}: operator changed")


TERMS = [((0, "X"),), ((0, "Z"),), ((1, "Y"),), ((0, "X"), (1, "X")), ((0, "Y"), (1, "Y")), ((0, "Z"), (1, "Z")), ((0, "Y"), (2, "X")), (), ((1, "Z"), (2, "Y"))]
HC = [0.7, -1.2, 0.45 + 0j, 2]


def gen_ham(tier):
    L = (1, 2, 3)
    for k in L:
        for ts in itertools.permutations(range(len(TERMS)), k):
            if k == 3 and tier == "quick" and sum(ts) % 5:
                continue
            yield list(ts)
    if tier == "thorough":
        for ts in itertools.permutations((0, 1, 3, 4, 5), 4):
            yield list(ts)


HTIMES = [0.4, -1.1, 1, T, 2 * T - A]


def build(ts, sym):
    op = QubitOperator()
    terms = []
    for i, k in enumerate(ts):
        c = A + i if sym and i == len(ts) - 1 else HC[(k + i) % len(HC)]
        op += QubitOperator(TERMS[k], c)
        terms.append((TERMS[k], c))
    return op, terms


def step_ham(ctx, case):
    ts = case
    n = max([q for k in ts for q, _ in TERMS[k]] or [-1]) + 1
    ctx.state(tuple(ts))
    N = max(n, 1)
    for sym in (False, True):
        op, terms = build(ts, sym)
        ctx.eq(list(op.terms), [t for t, _ in terms], "order of the terms of the operator")
        for t in HTIMES:
            tv = value(t)
            for order in (1, 2, 3):
                circ = time_evolution(op, t, trotter_order=order) if order > 1 else time_evolution(op, t)
                ctx.step()
                what = f"evolution under {op} for {t} in {order} steps"
                ctx.eq(circ.n_qubits, n, f"{what}: register")
                V = np.eye(1 << N, dtype=complex)
                for _ in range(order):
                    for term, c in terms:
                        V = expo(term, value(c), tv / order, N) @ V
                ctx.check(same_up_to_phase(unitary(bind(circ), N), V), lambda: f"{what}: wrong unitary of {circ}")
        ctx.check(dict(op.terms) == dict(terms), f"{what}: operator changed")
        # commuting terms: independent of the number of steps (exact evolution)
        M = [np.array(ref.pauli_term(t, N)) for t, _ in terms]
        if all(np.allclose(a @ b, b @ a) for a in M for b in M):
            Hm = sum(value(c) * m for m, (_, c) in zip(M, terms))
            w, v = np.linalg.eigh(Hm)
            exact = v @ np.diag(np.exp(-1j * w * 0.4)) @ v.conj().T
            for order in (1, 4):
                ctx.check(same_up_to_phase(unitary(bind(time_evolution(op, 0.4, "Trotter", order)), N), exact), f"evolution under {op}: not exact for commuting terms")
        for f in (time_evolution, time_evolution_derivatives):
            ctx.raises(lambda: f(op, 0.4, method="Taylor"), "unknown method", ValueError)


def gen_der(tier):
    for ts in gen_ham(tier):
        if len(ts) < 3 or tier == "thorough" and len(ts) == 3 or sum(ts) % 4 == 0 and len(ts) == 3:
            yield ts


def step_der(ctx, case):
    ts = case
    n = max([q for k in ts for q, _ in TERMS[k]] or [-1]) + 1
    N = max(n, 1)
    ctx.state(tuple(ts))
    op, terms = build(ts, False)
    for t in (0.4, -1.1, T) if len(ts) < 3 or ctx.thorough else (0.4, T):
        tv = value(t)
        for order in (1, 2, 3):
            circs, facs = time_evolution_derivatives(op, t, trotter_order=order)
            ctx.step()
            what = f"derivative of the evolution under {op} at {t} in {order} steps"
            ctx.check(len(circs) == len(facs), f"{what}: {len(circs)} circuits, {len(facs)} weights")
            # product rule
            seq = [(term, value(c)) for _ in range(order) for term, c in terms]
            es = [expo(term, c, tv / order, N) for term, c in seq]
            U = np.eye(1 << N, dtype=complex)
            for e in es:
                U = e @ U
            dU = np.zeros_like(U)
            pre = np.eye(1 << N, dtype=complex)
            suf = [np.eye(1 << N, dtype=complex)]
            for e in reversed(es):
                suf.append(suf[-1] @ e)
            for k, (term, c) in enumerate(seq):
                dU += suf[len(es) - 1 - k] @ (-1j * c / order * np.array(ref.pauli_term(term, N))) @ es[k] @ pre
                pre = es[k] @ pre
            want = np.kron(dU, U.conj()) + np.kron(U, dU.conj())
            got = 0
            for c, f in zip(circs, facs):
                Uc = unitary(bind(c), N)
                ctx.check(c.n_qubits in (n, 0), lambda: f"{what}: register {c.n_qubits}")
                got = got + complex(f) * np.kron(Uc, Uc.conj())
            ctx.check(np.max(np.abs(got - want)) < 1e-7, lambda: f"{what}: the weighted circuits do not give the derivative (error {np.max(np.abs(got - want)):.3g})")
    sop, _ = build(ts, True)
    if any(isinstance(c, sympy.Basic) for c in sop.terms.values()) and len(ts) < 3:
        ctx.raises(lambda: bad_derivative(sop), f"derivative with symbolic coefficient in {sop}", Exception)


def bad_derivative(op):
    """symbolic coefficients are not supported: an error, or weights that are symbolic (never silently numeric)"""
    circs, facs = time_evolution_derivatives(op, 0.4)
    if any(getattr(f, "free_symbols", None) for f in facs):
        raise ValueError("symbolic weights")
    return facs


# ---- many qubits, terms and steps ------------------------------------------------------------
PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
_mats = {}


def fast_unitary(circuit, qubits):
    """matrix of a circuit on the listed qubits, first of them most significant"""
    n = len(qubits)
    U = np.eye(1 << n, dtype=complex).reshape([2] * n + [1 << n])
    for op in circuit.operations:
        key = (op.gate.name, tuple(map(str, op.gate.params)))
        if key not in _mats:
            if len(_mats) > 4000:
                _mats.clear()
            _mats[key] = np.array(ref.tolist(op.gate.matrix), dtype=complex)
        axes = [qubits.index(q) for q in op.qubit_indices]
        k = len(axes)
        U = np.moveaxis(np.tensordot(_mats[key].reshape([2] * (2 * k)), U, axes=(list(range(k, 2 * k)), axes)), list(range(k)), axes)
    return U.reshape(1 << n, 1 << n)


def fast_pauli(term, qubits):
    d = dict(term)
    M = np.eye(1)
    for q in qubits:
        M = np.kron(M, PAULI[d.get(q, "I")])
    return M


def fast_exp(term, c, t, qubits):
    P = fast_pauli(term, qubits)
    return math.cos(t * c) * np.eye(len(P)) - 1j * math.sin(t * c) * P


def gen_words(tier):
    for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7, 8):
        for start, stride in ((0, 1), (0, 2), (1, 3), (9, 1), (8, 2)):
            for w in range(3 ** 3):
                pat = "".join("XYZ"[w // 3 ** j % 3] for j in range(3))
                yield [[start + stride * i for i in range(n)], (pat * n)[:n]]


def step_words(ctx, case):
    qs, w = case
    term = tuple(zip(qs, w))
    ctx.state((tuple(qs), w))
    for c, t in ((0.7, 0.4), (-2.5, 31.25), (0.003, -1.1), (1.0, T)):
        circ = time_evolution_for_term(QubitOperator(term, c), t)
        ctx.step()
        what = f"evolution of {c} {term} for {t}"
        ctx.eq(circ.n_qubits, qs[-1] + 1, f"{what}: register")
        ctx.check(all(q in qs for o in circ.operations for q in o.qubit_indices), f"{what}: acts on other qubits")
        ctx.check(same_up_to_phase(fast_unitary(bind(circ), qs), fast_exp(term, c, value(t), qs)), f"{what}: wrong unitary")


def gen_many(tier):
    words = [w for w in itertools.product("IXYZ", repeat=3)]
    for shift in range(0, 64, 16 if tier == "quick" else 2):
        for stride in (1, 7, 21, 29):
            for L in (6, 11, 16):
                yield [shift, stride, L]


def step_many(ctx, case):
    shift, stride, L = case
    words = list(itertools.product("IXYZ", repeat=3))
    qs = [0, 1, 2]
    op, terms = QubitOperator(), []
    for k in range(L):
        w = words[(shift + k * stride) % 64]
        t = tuple((q, p) for q, p in zip(qs, w) if p != "I")
        c = round(0.9 - 0.17 * k + 0.003 * shift, 4)
        op += QubitOperator(t, c)
        terms.append((t, c))
    ctx.state(tuple(case))
    n = max([q for t, _ in terms for q, _ in t]) + 1
    for t, order in ((0.4, 1), (2.5, 5), (25.0, 12), (T, 3)):
        circ = time_evolution(op, t, trotter_order=order)
        ctx.step()
        what = f"{case}: evolution for {t} in {order} steps"
        ctx.eq(circ.n_qubits, n, f"{what}: register")
        one = np.eye(8, dtype=complex)
        for term, c in terms:
            one = fast_exp(term, c, value(t) / order, qs) @ one
        ctx.check(same_up_to_phase(fast_unitary(bind(circ), qs), np.linalg.matrix_power(one, order)), f"{what}: wrong unitary")
    if L > 11 and not ctx.thorough:
        return
    for t, order in ((0.4, 1), (0.9, 4)) if not ctx.thorough else ((0.4, 1), (0.9, 4), (-2.0, 7)):
        circs, facs = time_evolution_derivatives(op, t, trotter_order=order)
        ctx.step()
        what = f"{case}: derivative at {t} in {order} steps"
        seq = terms * order
        es = [fast_exp(term, c, t / order, qs) for term, c in seq]
        pre, suf = [np.eye(8, dtype=complex)], [np.eye(8, dtype=complex)]
        for e in es:
            pre.append(e @ pre[-1])
        for e in reversed(es):
            suf.append(suf[-1] @ e)
        U, dU = pre[-1], 0
        for k, (term, c) in enumerate(seq):
            dU = dU + suf[len(es) - 1 - k] @ (-1j * c / order * fast_pauli(term, qs)) @ pre[k + 1]
        want = np.kron(dU, U.conj()) + np.kron(U, dU.conj())
        ctx.eq(len(circs), len(facs), f"{what}: circuits and weights")
        got = 0
        for c, f in zip(circs, facs):
            V = fast_unitary(c, qs)
            got = got + complex(f) * np.kron(V, V.conj())
        ctx.check(np.max(np.abs(got - want)) < 1e-6, lambda: f"{what}: error {np.max(np.abs(got - want)):.3g}")


def gen_bad(tier):
    for i in range(8):
        yield [i]


def step_bad(ctx, case):
    op = QubitOperator("X0", 0.5) + QubitOperator("Z1", 0.25)
    fs = [lambda: time_evolution_for_term(op, 0.4), lambda: time_evolution_for_term(QubitOperator(), 0.4),
          lambda: time_evolution(op, 0.4, method="trotter"), lambda: time_evolution(op, 0.4, method=""), lambda: time_evolution(op, 0.4, method=None),
          lambda: time_evolution_derivatives(op, 0.4, method="trotter"), lambda: time_evolution_derivatives(op, 0.4, method="Suzuki"), lambda: time_evolution_derivatives(op, 0.4, method=None)]
    ctx.step()
    ctx.state(tuple(case))
    ctx.raises(fs[case[0]], f"unsupported request {case[0]}", ValueError)


FRESH = zqfresh.Fresh(zqfreshlist.C20)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("terms", gen_term, step_term, "all Pauli words on up to 3 (thorough 4) qubits, adjacent or not, 7 coefficients, 11 times, both orders of writing for one coefficient"),
    Space("hamiltonians", gen_ham, step_ham, "all ordered lists of up to 3 of 9 terms (of length 3: a fifth in quick; thorough also length 4), numeric and symbolic, 5 times, 1-3 steps"),
    Space("derivatives", gen_der, step_der, "ordered lists of up to 3 of 9 terms, up to 3 times, 1-3 steps, compared as superoperators"),
    Space("words", gen_words, step_words, "Pauli words on 4-6 (thorough 8) qubits repeating every pattern of 3 letters, 5 placements up to qubit 18, 4 coefficients and times"),
    Space("many", gen_many, step_many, "Hamiltonians of 6, 11 and 16 terms on 3 qubits from 4 (thorough 32) starts and 4 strides, up to 12 steps; derivatives of the smaller ones"),
    Space("rejected", gen_bad, step_bad, "8 unsupported requests"),
]
