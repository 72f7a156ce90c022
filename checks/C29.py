"""C29: reordering of ladder operators keeps the operator, predicates decide what they say."""
import itertools

import numpy as np
import scipy.sparse
import sympy

from checks import C27, C30, C39, zqfresh, zqfreshlist
from checks.C26 import d_op
from mc import opmat as om
from mc.core import Space
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, PolynomialTensor, QubitOperator
from zquantum.core.openfermion.transforms import chemist_ordered, normal_ordered, normal_ordered_ladder_term
from zquantum.core.openfermion.utils import count_qubits, hermitian_conjugated, is_hermitian, is_identity

ID = "C29"
ASSUMPTIONS = ["coefficients are zero or at least 1e-4 (smaller ones are negligible by the library's convention), except where the predicates' tolerance is tested"]
TECHNIQUE = "exhaustive enumeration of products and sums of ladder operators, tensor entries and small matrices against sparse reference matrices and independent definitions of the orders"


def ordered(t):
    """creation operators first, each kind with strictly falling modes"""
    ups = [q for q, a in t if a]
    downs = [q for q, a in t if not a]
    return list(t) == [(q, 1) for q in sorted(set(ups), reverse=True)] + [(q, 0) for q in sorted(set(downs), reverse=True)]


def chemist(t):
    return [a for _, a in t] in ([], [1, 0], [1, 0, 1, 0])


def fm(op, n):
    return om.terms(op.terms, n, "f")


def close(a, b):
    return om.dist(a, b) < 1e-8 * max(1.0, om.size(b))


def conserving(t, spin):
    """the term moves 0, 1 or 2 particles (and keeps the numbers of particles on even and on odd modes)"""
    if len(t) not in (0, 2, 4):
        return False
    up = [q for q, a in t if a]
    down = [q for q, a in t if not a]
    if len(up) != len(down):
        return False
    return not spin or sum(q % 2 for q in up) == sum(q % 2 for q in down)


def check_terms(ctx, op, n):
    """op: FermionOperator"""
    terms = dict(op.terms)
    m = fm(op, n)
    no = normal_ordered(op)
    ctx.step()
    ctx.check(type(no) is FermionOperator and close(fm(no, n), m), lambda: "normal order of %r is %r" % (terms, no.terms))
    ctx.check(all(ordered(t) for t in no.terms), lambda: "normal order of %r is %r" % (terms, no.terms))
    ctx.check(no.is_normal_ordered(), "the normal order is recognized")
    ctx.eq(op.is_normal_ordered(), all(ordered(t) for t in terms), "is_normal_ordered of %r" % terms)
    if om.size(m) > 0.01:
        ctx.check(len(no.terms) > 0 and all(abs(c) > 1e-6 for c in no.terms.values()), lambda: "negligible terms in the normal order of %r: %r" % (terms, no.terms))
    again = normal_ordered(no)
    ctx.check(again == no, "normal order of the normal order")
    for spin in (False, True):
        ctx.eq(op.is_two_body_number_conserving(spin), all(conserving(t, spin) for t in terms), "is_two_body_number_conserving(%s) of %r" % (spin, terms))
    if all(conserving(t, False) for t in terms):
        ch = chemist_ordered(op)
        ctx.step()
        ctx.check(close(fm(ch, n), m) and all(chemist(t) for t in ch.terms), lambda: "chemist order of %r is %r" % (terms, ch.terms))
    else:
        ctx.raises(lambda: chemist_ordered(op), "chemist order of %r" % terms, TypeError)
    hc = hermitian_conjugated(op)
    ctx.check(close(fm(hc, n), om.dagger(m)), lambda: "conjugate of %r is %r" % (terms, hc.terms))
    ctx.check(hermitian_conjugated(hc).terms == terms, "conjugate of the conjugate")
    herm = close(m, om.dagger(m))
    ctx.eq(bool(is_hermitian(op)), herm, "is_hermitian of %r" % terms)
    ctx.eq(count_qubits(op), max([q + 1 for t in terms for q, _ in t] or [0]), "number of modes of %r" % terms)
    ctx.eq(is_identity(op), list(terms) == [()], "is_identity of %r" % terms)
    ctx.eq(op.terms, terms, "operator after the queries")
    return herm


def gen_products(tier):
    for n, depth in ((1, 6), (2, 5), (3, 4)) if tier == "quick" else ((1, 8), (2, 6), (3, 5), (4, 4)):
        fs = [(q, a) for q in range(n) for a in (1, 0)]
        for d in range(0, depth + 1):
            for t in itertools.product(fs, repeat=d):
                yield [n, [list(f) for f in t]]


def step_products(ctx, case):
    n, t = case
    t = tuple(tuple(f) for f in t)
    ctx.state(repr(case))
    for c in (1.0, -2, 1.5 - 0.5j, 1j):
        check_terms(ctx, FermionOperator(t, c), n)
    one = normal_ordered_ladder_term(t, -0.75)
    ctx.check(close(fm(one, n), om.scale(om.term(t, n, "f"), -0.75)), "normal order of one term")
    th = sympy.Symbol("theta")
    sym = normal_ordered(FermionOperator(t, 2 * th))
    ctx.check(close(om.terms([(s, complex(sympy.sympify(c).subs({th: 0.5}))) for s, c in sym.terms.items()], n, "f"), om.term(t, n, "f")), "normal order with a symbolic coefficient")
    # the Hermitian part of the term
    op = FermionOperator(t, 0.5 - 1j) + hermitian_conjugated(FermionOperator(t, 0.5 - 1j))
    ctx.check(check_terms(ctx, op, n), "sum of a term and its conjugate is Hermitian")


POOL = [((), 1.0), ((), 1j), (((0, 1), (0, 0)), 1.0), (((0, 0), (0, 1)), 1.0), (((0, 0), (0, 1)), -1.0), (((0, 1), (1, 0)), 1.0), (((1, 1), (0, 0)), 1.0), (((0, 0), (1, 1)), -1.0), (((0, 1), (1, 0)), 1j), (((1, 1), (0, 0)), -1j),
        (((0, 1), (2, 0)), 2.0), (((2, 1), (0, 0)), 2), (((0, 1), (1, 1), (1, 0), (0, 0)), 0.5), (((1, 1), (0, 1), (1, 0), (0, 0)), 0.5), (((0, 1), (0, 0), (1, 1), (1, 0)), -0.5), (((2, 1), (1, 1), (0, 0), (1, 0)), 1.0),
        (((1, 1), (0, 1), (1, 0), (2, 0)), 1.0), (((0, 1),), 1.0), (((0, 0),), 1.0), (((0, 1), (1, 1)), 1.0), (((1, 0), (0, 0)), 1.0), (((0, 0), (1, 0)), -1.0)]


def gen_sums(tier):
    for r in (2, 3) if tier == "quick" else (2, 3, 4):
        for ks in itertools.combinations(range(len(POOL)), r):
            yield list(ks)


def step_sums(ctx, case):
    ctx.state(tuple(case))
    for signs in itertools.product((1, -1), repeat=len(case) - 1) if len(case) < 4 else [(1,) * (len(case) - 1)]:
        op = FermionOperator()
        for k, s in zip(case, (1,) + signs):
            op += FermionOperator(POOL[k][0], s * POOL[k][1])
        check_terms(ctx, op, 3)
    # equal operators have equal normal orders
    a = FermionOperator(*POOL[case[0]])
    b = FermionOperator(*POOL[case[1]])
    ctx.eq(normal_ordered(a) == normal_ordered(b), close(fm(a, 3), fm(b, 3)), "normal orders of %r and %r" % (POOL[case[0]], POOL[case[1]]))


# ---- tensors ----------------------------------------------------------------------------------
def gen_tensors(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for quad in itertools.product(range(n), repeat=4):
            yield ["one", n, list(quad)]
    for n in (2,):
        for a in itertools.product(range(n), repeat=4):
            for b in itertools.product(range(n), repeat=4):
                yield ["two", n, [list(a), list(b)]]
    for n in (1, 2, 3, 4):
        for s in range(3):
            yield ["full", n, [s]]


def items(op):
    out = {(): op.constant}
    for key in ((1, 0), (1, 1, 0, 0)):
        for idx, x in np.ndenumerate(op.n_body_tensors[key]):
            if x:
                out[tuple(zip(idx, key))] = complex(x)
    return out


def check_tensor(ctx, op, what):
    n = op.n_qubits
    m = om.terms(items(op), n, "f")
    keep = (op.one_body_tensor.copy(), op.two_body_tensor.copy(), op.constant)
    no = normal_ordered(op)
    ctx.step()
    ctx.check(type(no) is InteractionOperator and close(om.terms(items(no), n, "f"), m), lambda: "normal order of %s" % what())
    for idx, x in np.ndenumerate(no.two_body_tensor):
        ctx.check(not x or (idx[0] > idx[1] and idx[2] > idx[3]), lambda: "entry %s in the normal order of %s" % (idx, what()))
    hc = hermitian_conjugated(op)
    ctx.check(type(hc) is InteractionOperator and close(om.terms(items(hc), n, "f"), om.dagger(m)), lambda: "conjugate of %s" % what())
    ctx.eq(bool(is_hermitian(op)), close(m, om.dagger(m)), "is_hermitian of %s" % what())
    ctx.eq(count_qubits(op), n, "number of modes")
    ctx.check(np.array_equal(op.one_body_tensor, keep[0]) and np.array_equal(op.two_body_tensor, keep[1]) and op.constant == keep[2], "operator after the queries")
    no.one_body_tensor[0, 0] += 1
    no.two_body_tensor[0, 0, 0, 0] += 1
    ctx.check(np.array_equal(op.one_body_tensor, keep[0]) and np.array_equal(op.two_body_tensor, keep[1]), "the normal order shares memory with the operator")


def step_tensors(ctx, case):
    what, n, arg = case
    ctx.state(repr(case))
    if what == "full":
        s = arg[0]
        one = np.array([[((3 * i + 5 * j + s) % 7 - 3) + 1j * ((i * j + s) % 3) for j in range(n)] for i in range(n)])
        two = np.zeros((n,) * 4, dtype=complex)
        for q in itertools.product(range(n), repeat=4):
            two[q] = (q[0] * 7 + q[1] * 3 + q[2] * 5 + q[3] + s) % 11 - 5 + 1j * ((q[0] + 2 * q[1] + 3 * q[2] + s) % 4)
        ops = [InteractionOperator(0.5 - 1j, one, two), InteractionOperator(1.5, one.real, two.real), InteractionOperator(1, one + one.conj().T, two + two.conj().transpose(3, 2, 1, 0))]
        for k, op in enumerate(ops):
            check_tensor(ctx, op, lambda: "full tensors %d %d on %d modes" % (s, k, n))
        return
    quads = [tuple(arg)] if what == "one" else [tuple(x) for x in arg]
    for c in ((1.0, 2j) if what == "one" else ((1.0, 1.0), (1.0, -1.0), (1j, -1j), (1.0 + 1j, 1.0 - 1j))):
        two = np.zeros((n,) * 4, dtype=complex)
        for q, x in zip(quads, c if isinstance(c, tuple) else (c,)):
            two[q] += x
        check_tensor(ctx, InteractionOperator(0.0, np.zeros((n, n), dtype=complex), two), lambda: "entries %s %s" % (quads, c))
        one = np.zeros((n, n), dtype=complex)
        one[quads[0][0], quads[-1][1]] = 0.5
        one[quads[-1][1], quads[0][0]] += 0.5
        check_tensor(ctx, InteractionOperator(-2.0, one, two), lambda: "entries %s %s with one-body entries" % (quads, c))


# ---- other operators -------------------------------------------------------------------------
ENTRY = [0, 1.0, -1.0, 1j, -1j, 1 + 1j, 1 - 1j]


def gen_other(tier):
    for a in itertools.product(range(len(ENTRY)), repeat=3):
        yield ["matrix", list(a)]
    words = list(itertools.product("IXYZ", repeat=2))
    for a in range(len(words)):
        for b in range(len(words)):
            yield ["pauli", [a, b]]
    yield ["types", []]


def step_other(ctx, case):
    what, arg = case
    ctx.state(repr(case))
    ctx.step()
    if what == "types":
        for bad in (1.0, "X0", None, InteractionRDM(np.zeros((1, 1)), np.zeros((1,) * 4))):
            ctx.raises(lambda: hermitian_conjugated(bad), "conjugate of %r" % (type(bad),), TypeError)
            ctx.raises(lambda: is_hermitian(bad), "is_hermitian of %r" % (type(bad),), TypeError)
            ctx.raises(lambda: normal_ordered(bad), "normal order of %r" % (type(bad),), TypeError)
            ctx.raises(lambda: is_identity(bad), "is_identity of %r" % (type(bad),), TypeError)
            if not isinstance(bad, PolynomialTensor):
                ctx.raises(lambda: count_qubits(bad), "count_qubits of %r" % (type(bad),), TypeError)
        ctx.raises(lambda: normal_ordered(QubitOperator("X0")), "normal order of a qubit operator", TypeError)
        for n in range(1, 5):
            ctx.eq(count_qubits(PolynomialTensor({(1, 0): np.zeros((n, n))})), n, "count_qubits of a tensor")
            ctx.eq(count_qubits(PolynomialTensor({(): 1.0, (1, 0): np.zeros((n, n))})), n, "count_qubits of a tensor")
        return
    if what == "matrix":
        for d in range(len(ENTRY)):
            m = np.array([[ENTRY[arg[0]], ENTRY[arg[1]]], [ENTRY[arg[2]], ENTRY[d]]], dtype=complex)
            want = all(abs(m[i, j] - np.conj(m[j, i])) < 1e-8 for i in range(2) for j in range(2))
            hc = [[complex(m[j, i]).conjugate() for j in range(2)] for i in range(2)]
            for form in (m, scipy.sparse.csc_matrix(m), scipy.sparse.csr_matrix(m), scipy.sparse.coo_matrix(m)):
                ctx.eq(bool(is_hermitian(form)), want, "is_hermitian of %s %s" % (type(form).__name__, m.tolist()))
                got = hermitian_conjugated(form)
                got = got.toarray() if scipy.sparse.issparse(got) else got
                ctx.eq(got.tolist(), hc, "conjugate of %s" % type(form).__name__)
        return
    words = list(itertools.product("IXYZ", repeat=2))
    ta, tb = [tuple((q, p) for q, p in enumerate(words[k]) if p != "I") for k in arg]
    for ca in ENTRY[1:] + [2, 1 + 1e-10j]:
        for cb in ENTRY[1:]:
            op = QubitOperator(ta, ca) + QubitOperator(tb, cb)
            m = om.terms(op.terms, 2, "q")
            hc = hermitian_conjugated(op)
            ctx.check(type(hc) is QubitOperator and close(om.terms(hc.terms, 2, "q"), om.dagger(m)), "conjugate of %r" % op.terms)
            ctx.eq(bool(is_hermitian(op)), close(m, om.dagger(m)), "is_hermitian of %r" % op.terms)
            ctx.eq(count_qubits(op), max([q + 1 for t in op.terms for q, _ in t] or [0]), "count_qubits of %r" % op.terms)
            ctx.eq(is_identity(op), set(op.terms) == {()}, "is_identity of %r" % op.terms)
    za, zb = tuple((3 * q, "Z") for q, _ in ta), tuple((2 * q + 1, "Z") for q, _ in tb)
    ising = IsingOperator(za) + IsingOperator(zb, 2)
    ctx.eq(count_qubits(ising), max([q + 1 for t in ising.terms for q, _ in t] or [0]), "count_qubits of %r" % ising.terms)


# ---- many terms, distant modes -----------------------------------------------------------------
FAR = {5: [0, 3, 9, 10, 100], 6: [1, 2, 10, 11, 19, 1000]}


def gen_wide(tier):
    for n in FAR:
        for k in (4, 15) if tier == "quick" else (4, 15, 60):
            for seed in range(12 if tier == "quick" else 40):
                yield [n, k, seed]


def step_wide(ctx, case):
    n, k, seed = case
    ctx.state(tuple(case))
    d = d_op("f", seed, k, list(range(n)))
    if seed % 3 == 1:
        d = {t: c for t, c in d.items() if conserving(t, False)} or {((2, 1), (0, 0)): 1.0}
    elif seed % 3 == 2:
        h = {}
        for t, c in d.items():
            h[t] = h.get(t, 0) + c
            u = tuple((q, 1 - a) for q, a in reversed(t))
            h[u] = h.get(u, 0) + complex(c).conjugate()
        d = {t: c for t, c in h.items() if abs(c) > 1e-6}

    def build(m):
        op = FermionOperator()
        for t, c in d.items():
            op += FermionOperator(tuple((m[q], a) for q, a in t), c)
        return op

    low = build(list(range(n)))
    herm = check_terms(ctx, low, n)
    if seed % 3 == 2:
        ctx.check(herm, "operator plus its conjugate")
    # the same on distant modes in the same order
    far, m = build(FAR[n]), FAR[n]
    move = lambda op: {tuple((m[q], a) for q, a in t): c for t, c in op.terms.items()}
    same = lambda a, b: all(abs(a.get(t, 0) - b.get(t, 0)) < 1e-8 for t in set(a) | set(b))
    ctx.step()
    ctx.check(same(normal_ordered(far).terms, move(normal_ordered(low))), "normal order on distant modes")
    ctx.check(same(hermitian_conjugated(far).terms, move(hermitian_conjugated(low))), "conjugate on distant modes")
    ctx.eq(bool(is_hermitian(far)), herm, "is_hermitian on distant modes")
    ctx.eq(count_qubits(far), max([m[q] + 1 for t in d for q, _ in t] or [0]), "number of modes")
    ctx.eq(far.is_normal_ordered(), low.is_normal_ordered(), "is_normal_ordered on distant modes")
    if all(conserving(t, False) for t in d):
        ctx.check(same(chemist_ordered(far).terms, move(chemist_ordered(low))), "chemist order on distant modes")
    # one coefficient off breaks the symmetry
    if herm:
        for t in [t for t, c in far.terms.items() if t != tuple((q, 1 - a) for q, a in reversed(t))][:3]:
            off = FermionOperator() + far
            off += FermionOperator(t, 0.01)
            lo = {tuple((m.index(q), a) for q, a in s): c for s, c in off.terms.items()}
            mm = om.terms(lo, n, "f")
            ctx.eq(bool(is_hermitian(off)), close(mm, om.dagger(mm)), "is_hermitian with one coefficient changed")


def gen_majority(tier):
    for d in (5, 6, 7, 8) if tier == "quick" else (5, 6, 7, 8, 9, 10):
        for k in range(24):
            yield [d, k]


def step_majority(ctx, case):
    """long products on few modes"""
    d, k = case
    n = 3 if d < 8 else 4
    t = tuple((((k * (i + 1) + i * i) // 2) % n, ((k >> (i % 5)) + i) % 2) for i in range(d))
    ctx.state((d, k))
    for c in (1.0, 0.5 - 2j):
        check_terms(ctx, FermionOperator(t, c) + FermionOperator((), 0.5), n)


FRESH = zqfresh.Fresh(zqfreshlist.C29)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("products", gen_products, step_products, bound={"products": "all products of up to 6/5/4 (thorough 8/6/5/4) ladder operators on 1/2/3 (4) modes with real, integer, complex and symbolic coefficients"}),
    Space("sums", gen_sums, step_sums, bound={"sums": "all sums of 2 and 3 (4) of 22 terms with all signs"}),
    Space("tensors", gen_tensors, step_tensors, bound={"entries": "every two-body entry on up to 3 (4) modes, all pairs of entries on 2 modes, full tensors on up to 4 modes"}),
    Space("other operators", gen_other, step_other, bound={"matrices": "all 2x2 matrices over 7 entries in dense and sparse form", "Pauli sums": "all pairs of Pauli strings on 2 qubits with 9x6 coefficients"}),
    Space("wide", gen_wide, step_wide, bound={"sums": "4 and 15 (60) terms of up to 5 factors on 5 and 6 modes, plain, number conserving and Hermitian; the same on modes of up to four digits"}),
    Space("long products", gen_majority, step_majority, bound={"products": "24 patterns of 5-8 (10) ladder operators on 3-4 modes"}),
    # the same enumerations as for storage, tensors and density matrices, as far as they are about reordering
    Space("relabelling", C27.gen_relabel, C27.step_relabel, bound={"terms": "all products of up to 2-3 factors on 3 (4) modes", "relabellings": "all permutations of the modes and of one more, forwards and backwards"}),
    Space("modes", C39.gen_modes, C39.step_modes, bound={"orders": "all orders of up to 4 (5) modes of interaction operators, and all pairs of orders of up to 3 modes"}),
    Space("conversions", C30.gen_conv, C30.step_conv, bound={"operators": "all sums of up to 3 (4) of 15 terms on 3 modes, on up to 4 modes, between operator and tensor forms"}),
]
