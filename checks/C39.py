"""C39: expectation values from reduced density matrices and the order of fermionic modes."""
import itertools
import warnings

import numpy as np

from checks.C30 import expect, majoranas, sector_state, tensor_terms
from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc.core import Space
from zquantum.core.hamiltonian import get_expectation_values_from_rdms, get_expectation_values_from_rdms_for_qubitoperator_list, reorder_fermionic_modes
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import InteractionOperator, InteractionRDM, QubitOperator

ID = "C39"
ASSUMPTIONS = ["states have a definite number of particles", "terms are products of at most four ladder operators (others are rejected)"]
TECHNIQUE = "exhaustive enumeration of states, term orders and coefficient patterns against sparse matrices, and of all permutations of modes against relabelled polynomials"


def rdm_of(v, n):
    one, two = np.zeros((n,) * 2, dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for p, q in itertools.product(range(n), repeat=2):
        one[p, q] = expect(om.term(((p, 1), (q, 0)), n, "f"), v)
    for i in itertools.product(range(n), repeat=4):
        two[i] = expect(om.term(((i[0], 1), (i[1], 1), (i[2], 0), (i[3], 0)), n, "f"), v)
    return InteractionRDM(one, two)


def words(n):
    out = []
    for w in itertools.product("IXYZ", repeat=n):
        t = tuple((q, p) for q, p in enumerate(w) if p != "I")
        if majoranas(t, n) <= 4:
            out.append(t)
    return out


def states(n, tier):
    for k in range(n + 1):
        for s in range(2):
            yield k, s


# coefficients whose sizes give different orders, with ties, signs, imaginary and tiny ones
COEFFS = [[1.0, 2.0, -3.0], [-2.0, 0.5, 0.5], [1e-9, 1.0, -1e-9], [1j, -2.0, 0.5j], [0.25, 0.0, -0.25]]


def gen_terms(tier):
    for n in (1, 2, 3):
        for k, s in states(n, tier):
            ws = words(n)
            if n < 3:
                for size in range(1, 4):
                    if size == 3 and (tier == "quick" and s or len(ws) > 16):
                        continue
                    for combo in itertools.combinations(range(len(ws)), size):
                        yield [n, k, s, list(combo)]
            else:
                step = 1 if tier != "quick" else 3
                for a in range(0, len(ws), step):
                    yield [n, k, s, [a, (7 * a + 3) % len(ws), (5 * a + 11) % len(ws)]]
            yield [n, k, s, list(range(len(ws)))]


CACHE = {}


def prepared(n, k, s):
    if (n, k, s) not in CACHE:
        v = sector_state(n, k, s)
        CACHE[n, k, s] = (v, rdm_of(v, n))
    return CACHE[n, k, s]


def operator_of(terms, coeffs):
    op = QubitOperator()
    for t, c in zip(terms, coeffs):
        op.terms[t] = c
    return op


def order(op, sort):
    items = list(op.terms.items())
    return sorted(items, key=lambda x: -abs(x[1])) if sort else items


def step_terms(ctx, case):
    n, k, s, combo = case
    v, rdm = prepared(n, k, s)
    keep = {key: np.array(t) for key, t in rdm.n_body_tensors.items()}
    ws = words(n)
    terms = list(dict.fromkeys(ws[i] for i in combo))
    ctx.state((n, k, s, tuple(combo)))
    orders = list(itertools.permutations(terms)) if len(terms) <= 3 else [terms, terms[::-1], terms[1::2] + terms[::2]]
    truth = {t: expect(om.term(t, n, "q"), v).real for t in terms}
    for ts in orders[: 6 if len(terms) <= 2 or ctx.thorough else 2]:
        for cs in COEFFS:
            op = operator_of(ts, [cs[i % 3] * (1 + i // 3) for i in range(len(ts))])
            before = dict(op.terms)
            for sort in (False, True):
                got = get_expectation_values_from_rdms(rdm, op, sort_terms=sort) if sort else get_expectation_values_from_rdms(rdm, op)
                want = [truth[t] for t, _ in order(op, sort)]
                ctx.step()
                ctx.check(isinstance(got, ExpectationValues) and len(got.values) == len(want), lambda: "%d expectation values for %d terms %r" % (len(got.values), len(want), op.terms))
                ctx.check(np.allclose(got.values, want, atol=1e-8), lambda: "expectation values of %r (sorted: %s): %s instead of %s" % (op.terms, sort, got.values, want))
                ctx.check(not np.iscomplexobj(got.values), "expectation values are complex numbers")
            ctx.check(op.terms == before and list(op.terms) == list(before), "the operator was changed")
    ctx.check(all(np.array_equal(keep[key], rdm.n_body_tensors[key]) for key in keep), "the density matrix was changed")


def gen_lists(tier):
    for n in (1, 2):
        for k, s in states(n, tier):
            for length in range(0, 4):
                for combo in itertools.product(range(5), repeat=length):
                    if n == 1 or tier != "quick" or length < 3 or s == 0:
                        yield [n, k, s, list(combo)]


def step_lists(ctx, case):
    n, k, s, combo = case
    v, rdm = prepared(n, k, s)
    ws = words(n)
    pool = [operator_of([ws[1 % len(ws)], ws[0], ws[-1]], [0.5, 2.0, -1.0]), operator_of([ws[2]], [3.0]), operator_of([ws[-1], ws[2]], [1j, 2.0]), QubitOperator(), operator_of([ws[3], ws[1]], [-0.5, 1e-9])]
    ops = [pool[i] for i in combo]
    before = [list(o.terms.items()) for o in ops]
    ctx.state((n, k, s, tuple(combo)))
    for sort in (False, True):
        got = get_expectation_values_from_rdms_for_qubitoperator_list(rdm, ops, sort_terms=sort)
        want = [expect(om.term(t, n, "q"), v).real for o in ops for t, _ in order(o, sort)]
        ctx.step()
        ctx.check(len(got.values) == len(want) and np.allclose(got.values, want, atol=1e-8), lambda: "expectation values of a list: %s instead of %s" % (got.values, want))
    ctx.check([list(o.terms.items()) for o in ops] == before, "the operators were changed")


def gen_unphysical(tier):
    for n in (1, 2):
        for scale in (-3.0, -1.0, 0.0, 0.5, 1.0 + 1e-9, 1.5, 4.0):
            for im in (0.0, 1e-5, 0.3, -0.3):
                yield [n, scale, im]


def step_unphysical(ctx, case):
    n, scale, im = case
    rdm = InteractionRDM(np.eye(n) * complex(scale, im), np.zeros((n,) * 4))
    op = QubitOperator()
    for q in range(n):
        op += QubitOperator("Z%d" % q, 0.5)
    op += QubitOperator((), 1.0)
    want = [max(-1.0, min(1.0, 1 - 2 * scale))] * n + [1.0]
    ctx.state(tuple(case))
    ctx.step()
    if abs(2 * im) > 1e-3:
        ctx.raises(lambda: get_expectation_values_from_rdms(rdm, op), "expectation values with an imaginary part of %g" % (2 * im), RuntimeWarning)
        ctx.raises(lambda: get_expectation_values_from_rdms_for_qubitoperator_list(rdm, [op]), "the same for a list", RuntimeWarning)
        return
    got = get_expectation_values_from_rdms(rdm, op)
    ctx.check(np.allclose(got.values, want, atol=1e-9) and max(abs(got.values)) <= 1, lambda: "expectation values %s instead of %s" % (got.values, want))


# ---- order of modes ----------------------------------------------------------------------------------
def gen_modes(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for perm in itertools.permutations(range(n)):
            for s in range(3 if n < 4 else 1):
                yield [n, list(perm), s]


def generic(n, s):
    one = np.array([[complex((3 * i + 5 * j + s) % 7 - 3, (i * j + s) % 3 - 1) for j in range(n)] for i in range(n)])
    two = np.zeros((n,) * 4, dtype=complex)
    for q in itertools.product(range(n), repeat=4):
        two[q] = complex((q[0] + 2 * q[1] + 3 * q[2] + 5 * q[3] + s) % 9 - 4, (q[0] * q[3] + s) % 2)
    if s == 2:
        one, two = one.real, two.real
    return InteractionOperator(0.5 - s, one, two)


def step_modes(ctx, case):
    n, perm, s = case
    op = generic(n, s)
    keep = (np.array(op.one_body_tensor), np.array(op.two_body_tensor))
    got = reorder_fermionic_modes(op, perm)
    ctx.step()
    ctx.state((n, tuple(perm), s))
    ctx.check(type(got) is InteractionOperator and got.constant == op.constant and got.n_qubits == n, "kind, constant and number of modes")
    where = {old: new for new, old in enumerate(perm)}  # mode perm[k] becomes mode k
    one, two = np.array(got.one_body_tensor), np.array(got.two_body_tensor)
    for p, q in itertools.product(range(n), repeat=2):
        ctx.check(one[where[p], where[q]] == keep[0][p, q], lambda: "one-body element %d,%d" % (p, q))
    for i in itertools.product(range(n), repeat=4):
        ctx.check(two[tuple(where[x] for x in i)] == keep[1][i], lambda: "two-body element %s with ordering %s" % (i, perm))
    if n <= 3:
        relabelled = [(tuple((where[m], a) for m, a in t), c) for t, c in tensor_terms(op).items()]
        ctx.check(om.dist(om.terms(tensor_terms(got), n, "f"), om.terms(relabelled, n, "f")) < 1e-9, "operator with the modes relabelled")
    back = reorder_fermionic_modes(got, [where[k] for k in range(n)])
    ctx.check(back == op, "the inverse ordering does not give the operator back")
    if n <= 3:
        for other in itertools.permutations(range(n)):
            both = reorder_fermionic_modes(got, list(other))
            ctx.step()
            ctx.check(both == reorder_fermionic_modes(op, [perm[k] for k in other]), lambda: "orderings %s and %s one after the other" % (perm, other))
    got.one_body_tensor[0, 0] += 1
    got.two_body_tensor[(0,) * 4] += 1
    ctx.check(np.array_equal(keep[0], op.one_body_tensor) and np.array_equal(keep[1], op.two_body_tensor), "the operator shares its tensors with the result or was changed")


# ---- density matrices that change between questions ----------------------------------------
CHANGES = ["one", "two", "both", "element", "scale", "rotate", "setitem"]


def gen_changing(tier):
    for n in (1, 2):
        for k, s in states(n, tier):
            for length in (1, 2, 3) if tier != "quick" else (1, 2):
                for h in itertools.product(range(len(CHANGES)), repeat=length):
                    yield [n, k, s, list(h)]


def change(rdm, what, n, step):
    k, s = (step * 2 + 1) % (n + 1), step % 2
    other = prepared(n, k, s)[1]
    if what in ("one", "both"):
        rdm.one_body_tensor = np.array(other.one_body_tensor)
    if what in ("two", "both"):
        rdm.two_body_tensor = np.array(other.two_body_tensor)
    if what == "element":
        rdm.one_body_tensor[0, 0] = 0.25 + 0.125 * step
    if what == "setitem":
        rdm[(0, 1), (0, 0)] = 0.375 - 0.125 * step
    if what == "scale":
        rdm *= 0.5
    if what == "rotate":
        t = 0.3 + 0.4 * step
        m = np.eye(n)
        if n > 1:
            m[0, 0] = m[1, 1] = np.cos(t)
            m[0, 1], m[1, 0] = -np.sin(t), np.sin(t)
        rdm.rotate_basis(m)
    return (k, s) if what == "both" else None


def step_changing(ctx, case):
    n, k, s, history = case
    base = prepared(n, k, s)[1]
    rdm = InteractionRDM(np.array(base.one_body_tensor), np.array(base.two_body_tensor))
    ws = words(n)
    ops = [operator_of(ws[:4], [0.5, -2.0, 1.5, 0.25]), operator_of(ws, [1.0 / (i + 1) for i in range(len(ws))]), operator_of(ws[:4], [1.0, 1.0, -1.0, 2.0])]
    fermi = InteractionOperator(0.5, np.eye(n) * 0.7, np.ones((n,) * 4) * 0.1)
    ctx.state((n, k, s, tuple(history)))
    truth = prepared(n, k, s)[0]
    for i in range(len(history) + 1):
        if i:
            kind = CHANGES[history[i - 1]]
            now = change(rdm, kind, n, i)
            truth = prepared(n, *now)[0] if now else None
        fresh = InteractionRDM(np.array(rdm.one_body_tensor), np.array(rdm.two_body_tensor))
        label = [CHANGES[x] for x in history[:i]]
        for op in ops:
            ctx.step()
            got = rdm.expectation(op)
            ctx.check(abs(got - fresh.expectation(op)) < 1e-9, lambda: "after %s the expectation value of %r is %s, that of an equal density matrix %s" % (label, op.terms, got, fresh.expectation(op)))
            if truth is not None:
                ctx.check(abs(got - expect(om.terms(op.terms.items(), n, "q"), truth)) < 1e-8, lambda: "after %s the expectation value of %r is %s" % (label, op.terms, got))
            a, b = rdm.get_qubit_expectations(op), fresh.get_qubit_expectations(op)
            ctx.check(set(a.terms) == set(b.terms) and all(abs(a.terms[t] - b.terms[t]) < 1e-9 for t in a.terms), lambda: "after %s: expectation values of the terms %r, expected %r" % (label, a.terms, b.terms))
            a.terms.clear()
            try:
                b = get_expectation_values_from_rdms(fresh, op).values
            except RuntimeWarning:
                continue
            ctx.check(np.allclose(get_expectation_values_from_rdms(rdm, op).values, b, atol=1e-9), lambda: "after %s: expectation values from the density matrix" % label)
        ctx.check(abs(rdm.expectation(fermi) - fresh.expectation(fermi)) < 1e-9, lambda: "after %s: expectation value of an interaction operator" % label)


FRESH = zqfresh.Fresh(zqfreshlist.C39)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("terms", gen_terms, step_terms, "states of every particle number on up to 3 modes; all combinations of up to 3 terms on up to 2 modes (3 modes: a third (thorough: all) of the terms with two others each) in all orders with 5 coefficient patterns"),
    Space("lists", gen_lists, step_lists, "all lists of up to 3 of 5 operators"),
    Space("unphysical", gen_unphysical, step_unphysical, "diagonal density matrices with occupations from -3 to 4 and imaginary parts"),
    Space("modes", gen_modes, step_modes, "all orders of up to 4 (5) modes, and all pairs of orders of up to 3 modes"),
    Space("changing", gen_changing, step_changing, "density matrices of all states on up to 2 modes, asked before and after every step of all histories of up to 2 (3) of 7 changes"),
]
