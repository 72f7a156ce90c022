"""C31: freezing modes, conjugation, counting."""
import itertools

import numpy as np
import scipy.sparse
import sympy

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc.core import Space
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, PolynomialTensor, QubitOperator, count_qubits, freeze_orbitals, hermitian_conjugated, is_hermitian, is_identity
from zquantum.core.openfermion.ops.representations import InteractionOperatorError  # noqa: F401
from zquantum.core.openfermion.transforms import get_fermion_operator
from zquantum.core.openfermion.transforms.repconversions import prune_unused_indices
from zquantum.core.openfermion.zapata_utils import remove_inactive_orbitals

ID = "C31"
ASSUMPTIONS = ["a mode is frozen at most once, either occupied or unoccupied", "coefficients are not negligible", "molecular orbitals are alternating spin-up and spin-down modes"]
TECHNIQUE = "exhaustive enumeration of operators and choices of frozen modes, compared with blocks of sparse reference matrices"


def letters(n):
    return [(i, a) for i in range(n) for a in (0, 1)]


def block(full, n, occ):
    """restriction of the matrix on n modes to the states with the occupations occ {mode: 0/1}, on the other modes in order"""
    free = [i for i in range(n) if i not in occ]

    def small(k):
        for m, v in occ.items():
            if (k >> (n - 1 - m) & 1) != v:
                return None
        out = 0
        for m in free:
            out = out << 1 | (k >> (n - 1 - m) & 1)
        return out

    out = {}
    for (i, j), x in full.items():
        a, b = small(i), small(j)
        if a is not None and b is not None:
            out[a, b] = out.get((a, b), 0) + x
    return out, free


FORMS = [list, tuple, lambda x: list(np.array(x, dtype=np.int64)), lambda x: list(reversed(x))]


def check_freeze(ctx, terms, n, occ):
    """terms: [(term, coefficient)]"""
    op = FermionOperator()
    for t, c in terms:
        op += FermionOperator(t, c)
    snap = dict(op.terms)
    occupied, empty = [m for m in occ if occ[m]], [m for m in occ if not occ[m]]
    want, free = block(om.terms(op.terms, n, "f"), n, occ)
    place = {m: i for i, m in enumerate(free)}
    form = FORMS[(len(terms) + sum(occ) + len(snap)) % len(FORMS)]
    got = freeze_orbitals(op, form(occupied), form(empty), prune=False)
    ctx.step()
    what = lambda: "freezing %s in %s" % (occ, terms)  # noqa: E731
    ctx.check(op.terms == snap, lambda: what() + " changed the operator")
    ctx.check(all(i in place for t in got.terms for i, _ in t), lambda: what() + " left a frozen mode in %s" % got)
    mine = [(tuple((place[i], a) for i, a in t), c) for t, c in got.terms.items()]
    ctx.check(om.dist(om.terms(mine, len(free), "f"), want) < 1e-9, lambda: what() + " gave %s" % got)
    used = sorted({i for t in got.terms for i, _ in t})
    compact = {tuple((used.index(i), a) for i, a in t): c for t, c in got.terms.items()}
    default = freeze_orbitals(op, form(occupied), form(empty))
    ctx.check(dict(default.terms) == compact, lambda: what() + " and renumbering gave %s instead of %s" % (default, compact))
    if not empty:
        ctx.check(freeze_orbitals(op, occupied) == default, lambda: what() + " without a list of unoccupied modes")
    ctx.outcome(len(got.terms))


def choices(n):
    for c in itertools.product((None, 1, 0), repeat=n):
        yield {i: x for i, x in enumerate(c) if x is not None}


def gen_words(tier):
    for n, top in ((3, 4), (4, 3)) if tier == "quick" else ((3, 5), (4, 4), (5, 3)):
        for length in range(top + 1):
            if length < 2:
                yield [n, length, []]
            else:
                for first in itertools.product(letters(n), repeat=2):
                    yield [n, length, [list(x) for x in first]]


def step_words(ctx, case):
    n, length, first = case
    first = [tuple(x) for x in first]
    ctx.state((n, length, tuple(first)))
    for rest in itertools.product(letters(n), repeat=length - len(first)):
        for occ in choices(n):
            check_freeze(ctx, [(tuple(first) + rest, 1.5)], n, occ)


POOL = [(), ((0, 1), (0, 0)), ((1, 0), (1, 1)), ((2, 1), (0, 0)), ((0, 1), (2, 0)), ((2, 1), (1, 1), (1, 0), (0, 0)), ((3, 1), (2, 0)), ((2, 0), (3, 1)), ((3, 1), (1, 1), (2, 0), (0, 0)), ((4, 1), (0, 0)), ((4, 1), (3, 1), (3, 0), (0, 0)),
        ((1, 1), (1, 0), (4, 1), (4, 0)), ((2, 0),), ((3, 0), (3, 1), (3, 0)), ((4, 0), (1, 1), (3, 0))]
COEFS = [1.0, -0.5, 2j, 0.25 + 1j]


def gen_sums(tier):
    for k in (2,) if tier == "quick" else (2, 3):
        for ts in itertools.combinations(range(len(POOL)), k):
            yield list(ts)
    yield []


def step_sums(ctx, case):
    ctx.state(tuple(case))
    for shift in range(2):
        terms = [(POOL[i], COEFS[(j + shift) % 4]) for j, i in enumerate(case)]
        for occ in choices(5):
            check_freeze(ctx, terms, 5, occ)


# ---- renumbering ---------------------------------------------------------------------------
def gen_prune(tier):
    top = 5 if tier == "quick" else 6
    for r in range(0, 4):
        for idx in itertools.combinations(range(top), r):
            yield list(idx)
    yield [3, 300, 1000]


def step_prune(ctx, case):
    ctx.state(tuple(case))
    for cls, acts in ((FermionOperator, (1, 0)), (QubitOperator, ("X", "Y", "Z")), (IsingOperator, ("Z",))):
        for use in itertools.product((0, 1, 2), repeat=len(case)):
            # each mode is used in the first term, the second one, or both
            for perm in itertools.permutations(range(len(case))) if cls is FermionOperator else [range(len(case))]:
                a = tuple((case[i], acts[i % len(acts)]) for i in perm if use[i] != 1)
                b = tuple((case[i], acts[-1]) for i in perm if use[i] != 0)
                op = cls(a, 1.5) + cls(b, -0.5) + cls((), 2.0)
                snap = dict(op.terms)
                got = prune_unused_indices(op)
                ctx.step()
                ctx.check(type(got) is cls and got is not op and op.terms == snap, "renumbering changed its argument")
                used = sorted({i for t in snap for i, _ in t})
                ctx.eq(dict(got.terms), {tuple((used.index(i), x) for i, x in t): c for t, c in snap.items()}, f"renumbered {op}")


# ---- conjugates, hermiticity, counting -----------------------------------------------------------
def gen_conj(tier):
    n = 3
    words = [()] + [w for k in (1, 2, 3) for w in itertools.product(letters(n), repeat=k)]
    for i in range(0, len(words), 4):
        yield ["f", i]
    for i in range(4 ** 3):
        yield ["q", i]


FW = [()] + [w for k in (1, 2, 3) for w in itertools.product(letters(3), repeat=k)]
QW = [tuple((i, p) for i, p in enumerate(w) if p != "I") for w in itertools.product("IXYZ", repeat=3)]
CS = [1, 1.0, -2.5, 1j, 0.5 - 1.25j, np.complex128(1 - 2j), np.float64(0.5)]


def step_conj(ctx, case):
    kind, i0 = case
    n = 3
    ctx.state(tuple(case))
    cls = FermionOperator if kind == "f" else QubitOperator
    words = FW[i0:i0 + 4] if kind == "f" else [QW[i0]]
    others = FW[:60:3] if kind == "f" else QW
    for w in words:
        for o in others:
            for ci, c in enumerate(CS):
                d = CS[(ci + len(o)) % len(CS)]
                op = cls(w, c) + cls(o, d)
                m = om.terms(op.terms, n, kind)
                h = hermitian_conjugated(op)
                ctx.step()
                ctx.check(type(h) is cls and om.dist(om.terms(h.terms, n, kind), om.dagger(m)) < 1e-9, lambda: "conjugate of %s is %s" % (op, h))
                ctx.check(hermitian_conjugated(h) == op, lambda: "twice conjugated %s" % op)
                ctx.eq(bool(is_hermitian(op)), om.dist(m, om.dagger(m)) < 1e-8, f"hermiticity of {op}")
                both = op + h
                ctx.check(bool(is_hermitian(both)), lambda: "%s should be Hermitian" % both)
                ctx.eq(count_qubits(op), max([i + 1 for t in op.terms for i, _ in t] or [0]), f"number of qubits of {op}")
                ctx.eq(bool(is_identity(op)), list(op.terms) == [()], "identity test")
    if kind == "q":
        # gapped registers
        t = tuple((i + 3 * (i > 0), p) for i, p in QW[i0])
        ctx.eq(count_qubits(QubitOperator(t, 2) + QubitOperator("X0")), max([i + 1 for i, _ in t] + [1]), "number of qubits")
        z = tuple((i, "Z") for i, _ in t)
        ctx.eq(count_qubits(IsingOperator(z)), max([i + 1 for i, _ in t] or [0]), "number of qubits of an Ising operator")


def gen_tensors(tier):
    top = 6 if tier == "quick" else 10
    for n in (1, 2, 3):
        for k in range(top):
            for cplx in (0, 1):
                yield [n, k, cplx]


def arr(shape, k, cplx):
    size = int(np.prod(shape))
    a = np.array([((3 * i * i + (k + 2) * i + k) % 7 - 3) * 0.5 for i in range(size)])
    if cplx:
        a = a + 1j * np.array([(i * (k + 1)) % 3 - 1 for i in range(size)])
    return a.reshape(shape)


def step_tensors(ctx, case):
    n, k, cplx = case
    ctx.state(tuple(case))
    const = 1.5 - (0.5j if cplx else 0)
    op = InteractionOperator(const, arr((n,) * 2, k, cplx), arr((n,) * 4, k + 1, cplx))
    mat = lambda x: om.terms(get_fermion_operator(x).terms, n, "f")  # noqa: E731
    m = mat(op)
    h = hermitian_conjugated(op)
    ctx.step()
    ctx.check(type(h) is InteractionOperator and om.dist(mat(h), om.dagger(m)) < 1e-9, "conjugate of an interaction operator")
    ctx.check(hermitian_conjugated(h) == op, "twice conjugated interaction operator")
    ctx.eq(bool(is_hermitian(op)), om.dist(m, om.dagger(m)) < 1e-8, "hermiticity of an interaction operator")
    ctx.check(bool(is_hermitian(op + h)), "sum with the conjugate")
    ctx.eq(count_qubits(op), n, "number of modes")
    ctx.eq(count_qubits(PolynomialTensor({(1,): arr((n,), k, cplx)})), n, "number of modes of a tensor")
    a = arr((n + 1, n + 1), k, cplx)
    for x in (a, scipy.sparse.csc_matrix(a), scipy.sparse.csr_matrix(a), scipy.sparse.coo_matrix(a)):
        h = hermitian_conjugated(x)
        dense = np.asarray(h.todense() if scipy.sparse.issparse(h) else h)
        ctx.check(np.allclose(dense, a.conj().T), "conjugate of a matrix")
        ctx.eq(bool(is_hermitian(x)), bool(np.allclose(a, a.conj().T)), "hermiticity of a matrix")
        s = x + h
        ctx.check(bool(is_hermitian(s)), "hermiticity of a sum")
    ctx.raises(lambda: hermitian_conjugated("x"), "conjugate of text", TypeError)
    ctx.raises(lambda: is_hermitian(3), "hermiticity of a number", TypeError)
    ctx.raises(lambda: count_qubits([1]), "number of qubits of a list", TypeError)
    ctx.raises(lambda: is_identity(3), "identity test of a number", TypeError)


# ---- molecular orbitals ------------------------------------------------------------------------
def gen_inactive(tier):
    top = 3 if tier == "quick" else 4
    for orb in range(1, top + 1):
        for core in range(orb + 1):
            for act in [None, *range(orb - core + 1)]:
                for kind in range(7):
                    yield [orb, core, act, kind]


def step_inactive(ctx, case):
    orb, core, act, kind = case
    n = 2 * orb
    ctx.state(tuple(case))
    one, two = np.zeros((n, n), complex), np.zeros((n,) * 4, complex)
    if kind == 0:  # generic, with and without symmetries
        one, two = arr((n, n), 1, 0), arr((n,) * 4, 2, 0)
    elif kind == 1:
        one, two = arr((n, n), 3, 1), arr((n,) * 4, 0, 1)
    elif kind == 2:  # diagonal
        for i in range(n):
            one[i, i] = i + 0.5
    elif kind == 3:  # two electrons in each orbital
        for o in range(orb):
            two[2 * o, 2 * o + 1, 2 * o + 1, 2 * o] = 1.0 + o
    elif kind == 4:  # single sites only
        one[n - 1, 0] = one[0, n - 1] = 1.0
        two[0, 1, 1, 0] = 2.0
    elif kind == 5:  # the last orbital of each spin
        one[n - 2, n - 2] = 1.25
    op = InteractionOperator(0.75, one, two)
    full = om.terms(get_fermion_operator(op).terms, n, "f")
    keep = orb - core if act is None else act
    occ = {i: 1 for i in range(2 * core)}
    occ.update({i: 0 for i in range(2 * (core + keep), n)})
    want, free = block(full, n, occ)
    got = remove_inactive_orbitals(op, act, core) if core else remove_inactive_orbitals(op, act)
    ctx.step()
    ctx.check(isinstance(got, InteractionOperator), "type")
    ctx.eq(got.n_qubits, 2 * keep, f"number of modes for {case}")
    ctx.check(om.dist(om.terms(get_fermion_operator(got).terms, 2 * keep, "f"), want) < 1e-8, lambda: "removing inactive orbitals for %s gave %s" % (case, get_fermion_operator(got)))
    ctx.check(np.array_equal(op.one_body_tensor, one) and np.array_equal(op.two_body_tensor, two), "the operator changed")


# ---- many modes, long words, long lists of frozen modes -------------------------------------------------
WIDE = {8: [0, 3, 7], 12: [0, 4, 5, 11], 20: [1, 9, 10, 19], 300: [2, 255, 257, 299]}


def gen_wide(tier):
    for n, ms in WIDE.items():
        for length in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            for i, w in enumerate(itertools.product(ms, repeat=length)):
                if length == 4 and (i % 4 if tier == "quick" else i % 2) or length == 5 and i % 16:
                    continue
                yield [n, list(w)]
    for n in (6, 9, 14):
        for s in range(4 if tier == "quick" else 12):
            yield [n, ["long", s]]


def step_wide(ctx, case):
    n, w = case
    ctx.state(repr(case))
    if w[0] == "long":
        s = w[1]
        # words over all modes, creation and annihilation mixed, in an order that is neither sorted nor reversed
        words = []
        for k in (1, 5) if n != 6 else (1,):
            order = [(k * i + s) % n for i in range(n)]
            words.append(tuple((q, (q + s) % 2) for q in order) + tuple((q, 1 - (q + s) % 2) for q in order[s % 3:]))
        words += [((n - 1, 1), (s % n, 0)), ()]
        sets = [{q: (q + s) % 2 for q in range(0, n, 2)}, {q: (q // 2) % 2 for q in range(n)}, {q: 1 for q in range(n // 2)}, {q: q % 3 == 0 for q in range(n - 1, -1, -1) if q != s % n}]
    else:
        words = [tuple(zip(w, acts)) for acts in ([1, 0] * 3, [0, 1] * 3, [1, 1, 0, 0, 1], [0, 0, 1, 1, 0])]
        ms = sorted(set(w))
        sets = [{m: o for m, o in zip(ms, occ) if o is not None} for occ in itertools.product((None, 1, 0), repeat=len(ms))] if len(ms) < 4 else [{m: o for m, o in zip(ms, occ) if o is not None} for occ in itertools.product((None, 1, 0), repeat=4)][::5]
        # frozen modes no word acts on, in unsorted lists
        sets += [{**{m: (m + 1) % 2 for m in (n - 1, 0, n // 2)}}, {m: 1 for m in reversed(range(min(n, 12)))}]
    op = FermionOperator()
    for k, t in enumerate(words):
        op += FermionOperator(t, COEFS[k % 4])
    snap = dict(op.terms)
    for occ in sets:
        occ = {m: int(x) for m, x in occ.items()}
        want = []
        for t, c in snap.items():
            now, alive = dict(occ), True
            for q, a in reversed(t):
                if q in now:
                    alive = alive and now[q] != a
                    now[q] = a
            if not alive or now != occ:
                continue
            # every factor passes the occupied modes below it: the frozen ones count here, the free ones when the word acts on a state
            now, sign, passed = dict(occ), 1, []
            for q, a in reversed(t):
                sign *= (-1) ** sum(now[m] for m in now if m < q)
                if q in now:
                    passed.append(("string", q))
                    now[q] = a
                else:
                    passed.append((q, a))
            want.append((passed, c * sign))
        got = freeze_orbitals(op, [m for m in occ if occ[m]], [m for m in occ if not occ[m]], prune=False)
        ctx.step()
        ctx.check(op.terms == snap, "freezing changed the operator")
        ctx.check(not any(q in occ for t in got.terms for q, _ in t), lambda: "freezing %s left a frozen mode in %s" % (occ, got))
        modes = sorted({q for t in snap for q, _ in t if q not in occ})
        extra = [m for m in range(n) if m not in occ and m not in modes][:1]
        modes = sorted(modes + extra)
        for bits in itertools.product((0, 1), repeat=len(modes)) if len(modes) <= 6 else [tuple((k >> i) & 1 for i in range(len(modes))) for k in (0, 1, 5, 42, 85, 3, 1000, 8191, 16383 & ~36)]:
            state = dict(zip(modes, bits))

            def act(items):
                out = {}
                for seq, c in items:
                    s = dict(state)
                    for q, a in seq:
                        if q == "string":
                            c = c * (-1) ** sum(s[m] for m in s if m < a)
                        elif s[q] == a:
                            c = 0
                            break
                        else:
                            c = c * (-1) ** sum(s[m] for m in s if m < q)
                            s[q] = a
                    if c:
                        k = tuple(s[m] for m in modes)
                        out[k] = out.get(k, 0) + c
                return {k: x for k, x in out.items() if abs(x) > 1e-12}

            a = act(want)
            b = act([(list(reversed(t)), c) for t, c in got.terms.items()])
            ctx.check(set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a), lambda: "freezing %s in %s gave %s: from state %s to %s instead of %s" % (occ, snap, got, state, b, a))
        if n <= 20:
            used = sorted({i for t in got.terms for i, _ in t})
            ctx.eq(dict(freeze_orbitals(op, [m for m in occ if occ[m]], [m for m in occ if not occ[m]]).terms), {tuple((used.index(i), a) for i, a in t): c for t, c in got.terms.items()}, "renumbered operator")


FRESH = zqfresh.Fresh(zqfreshlist.C31)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("words", gen_words, step_words, "all ladder products (quick: length <=4 on 3 modes, <=3 on 4; thorough: <=5, <=4, and <=3 on 5) x every choice of occupied, empty and free modes"),
    Space("sums", gen_sums, step_sums, "all pairs (thorough triples) of 15 terms on 5 modes x every choice of occupied, empty and free modes"),
    Space("renumbering", gen_prune, step_prune, "sums of two terms and a constant over all sets of up to three indices below 5 (thorough 6)"),
    Space("conjugates", gen_conj, step_conj, "all ladder products up to length 3 and all Pauli words on 3 modes, in sums with others, over 7 coefficients"),
    Space("tensors", gen_tensors, step_tensors, "interaction operators, arrays and sparse matrices of sizes 1-4"),
    Space("orbitals", gen_inactive, step_inactive, "interaction operators of 7 kinds on 1-3 (thorough 4) orbitals x all numbers of core and active orbitals"),
    Space("wide", gen_wide, step_wide, "words of up to 4 (thorough 5) factors on 8 to 300 modes x choices of up to 12 frozen modes in any order; words over all of up to 14 modes with half, all, or all but one of them frozen"),
]
