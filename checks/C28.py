"""C28: fermion-to-qubit transforms are faithful representations of the operators."""
import itertools

import numpy as np

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc.core import Space
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.transforms import bravyi_kitaev, jordan_wigner, jordan_wigner_one_body, jordan_wigner_two_body, reverse_jordan_wigner

ID = "C28"
ASSUMPTIONS = ["interaction operators are Hermitian (the transforms document that they return Hermitian operators)",
               "the Bravyi-Kitaev qubit i stores the parity of the modes i+1-lowbit(i+1) .. i"]
TECHNIQUE = "exhaustive enumeration of ladder products, Hermitian orbits of tensor entries and Pauli strings against sparse reference matrices in the occupation basis and in the Fenwick-tree basis"


def parity_map(n):
    """occupation number -> Bravyi-Kitaev bits (mode 0 = most significant bit)"""
    out = []
    for j in range(1 << n):
        r = 0
        for i in range(n):
            low = (i + 1) & -(i + 1)
            p = sum((j >> (n - 1 - k)) & 1 for k in range(i + 1 - low, i + 1)) % 2
            r |= p << (n - 1 - i)
        out.append(r)
    assert sorted(out) == list(range(1 << n))
    return out


_maps = {}


def encoded(m, n):
    if n not in _maps:
        _maps[n] = parity_map(n)
    p = _maps[n]
    return {(p[i], p[j]): x for (i, j), x in m.items()}


def qmat(op, n):
    return om.terms(op.terms, n, "q")


def close(a, b):
    return om.dist(a, b) < 1e-8 * max(1.0, om.size(b))


def check_both(ctx, op, ferm, n_min, n_max, what):
    """ferm(n): reference matrix on n modes; op: operator to transform"""
    jw = jordan_wigner(op)
    bk0 = bravyi_kitaev(op)
    ctx.step(2)
    ctx.check(type(jw) is QubitOperator and type(bk0) is QubitOperator, "type of the transforms")
    for n in range(n_min, n_max + 1):
        f = ferm(n)
        if n == n_min:
            ctx.check(close(qmat(bk0, n), encoded(f, n)), lambda: "Bravyi-Kitaev transform of %s is %s" % (what(), bk0.terms))
        ctx.check(close(qmat(jw, n), f), lambda: "Jordan-Wigner transform of %s is %s" % (what(), jw.terms))
        bk = bravyi_kitaev(op, n)
        ctx.step()
        ctx.check(close(qmat(bk, n), encoded(f, n)), lambda: "Bravyi-Kitaev transform of %s on %d qubits is %s" % (what(), n, bk.terms))
    if n_min > 0:
        ctx.raises(lambda: bravyi_kitaev(op, n_min - 1), "Bravyi-Kitaev transform on too few qubits", ValueError)


# ---- products of ladder operators -----------------------------------------------------------
def gen_ladder(tier):
    for n, depth in ((3, 4), (4, 3), (6, 2)) if tier == "quick" else ((3, 5), (4, 4), (6, 3)):
        fs = [(q, a) for q in range(n) for a in (1, 0)]
        for d in range(0, depth + 1):
            for t in itertools.product(fs, repeat=d):
                yield [n, [list(f) for f in t]]


def step_ladder(ctx, case):
    n, t = case
    t = tuple(tuple(f) for f in t)
    ctx.state(repr(case))
    used = max([q for q, _ in t] or [-1]) + 1
    op = FermionOperator(t, 1.5 - 0.5j)
    check_both(ctx, op, lambda k: om.terms(op.terms, k, "f"), used, n + 1, lambda: repr(op.terms))
    two = op + FermionOperator(((0, 1), (n - 1, 0)), -2.0) + FermionOperator((), 0.25)
    check_both(ctx, two, lambda k: om.terms(two.terms, k, "f"), n, n, lambda: repr(two.terms))
    ctx.eq(op.terms, {t: 1.5 - 0.5j}, "operator after the transforms")


# ---- one-body operators on many modes ----------------------------------------------------------
def gen_one(tier):
    for n in range(1, 9 if tier == "quick" else 10):
        for p in range(n):
            for q in range(n):
                yield [n, p, q]
    for p in range(16):
        for q in range(16):
            yield [16, p, q]


def action(terms, n, kind, j):
    out = {}
    f = om._pauli if kind == "q" else om._ladder
    for t, c in terms.items():
        i, x = f(t, n, j)
        if x != 0 and c != 0:
            out[i] = out.get(i, 0) + c * x
    return {i: x for i, x in out.items() if abs(x) > 1e-10}


def step_one(ctx, case):
    n, p, q = case
    ctx.state(tuple(case))
    for c in (1.0, 0.75 - 2j):
        if p == q:
            c = abs(c)
        one = np.zeros((n, n), dtype=complex)
        one[p, q] += c
        if p != q:
            one[q, p] += np.conj(c)
        ferm = FermionOperator(((p, 1), (q, 0)), c)
        if p != q:
            ferm += FermionOperator(((q, 1), (p, 0)), np.conj(c).item())
        if n <= 9:
            want = om.terms(ferm.terms, n, "f")
            ops = [ferm]
            if n <= 6:
                ops.append(InteractionOperator(0.0, one, np.zeros((n,) * 4)))
            for op in ops:
                ctx.step(2)
                ctx.check(close(qmat(jordan_wigner(op), n), want), lambda: "Jordan-Wigner transform of %s %s with %s" % (type(op).__name__, (p, q), c))
                ctx.check(close(qmat(bravyi_kitaev(op, n), n), encoded(want, n)), lambda: "Bravyi-Kitaev transform of %s %s with %s on %d qubits" % (type(op).__name__, (p, q), c, n))
            half = jordan_wigner_one_body(p, q, c)
            ctx.check(close(qmat(half, n), want), lambda: "jordan_wigner_one_body(%d, %d, %s) is %s" % (p, q, c, half.terms))
        else:
            # on 16 modes: the action on selected basis states
            pm = None
            jw, bk = jordan_wigner(ferm), bravyi_kitaev(ferm, n)
            for j in [0, (1 << n) - 1, 0x5555, 0xAAAA, 0x0F0F, 0x00FF, 0x1234] + [1 << k for k in range(n)] + [((1 << n) - 1) ^ (1 << k) for k in range(n)]:
                want = action(ferm.terms, n, "f", j)
                ctx.step()
                got = action(jw.terms, n, "q", j)
                ctx.check(set(got) == set(want) and all(abs(got[i] - want[i]) < 1e-9 for i in want), "Jordan-Wigner transform on 16 modes")
                enc = {bk_bits(i, n): x for i, x in want.items()}
                got = action(bk.terms, n, "q", bk_bits(j, n))
                ctx.check(set(got) == set(enc) and all(abs(got[i] - enc[i]) < 1e-9 for i in enc), "Bravyi-Kitaev transform on 16 modes")


def bk_bits(j, n):
    r = 0
    for i in range(n):
        low = (i + 1) & -(i + 1)
        r |= (sum((j >> (n - 1 - k)) & 1 for k in range(i + 1 - low, i + 1)) % 2) << (n - 1 - i)
    return r


# ---- interaction operators -----------------------------------------------------------------
def gen_inter(tier):
    for n in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7):
        for quad in itertools.product(range(n), repeat=4):
            if n >= 5 and (quad[0] < quad[1] or quad < quad[::-1]):
                continue
            yield ["quad", n, list(quad)]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for s in range(4):
            yield ["full", n, [s]]
    for n in (2, 3):
        yield ["errors", n, []]


def iop_items(const, one, two):
    n = one.shape[0]
    out = {(): const}
    for p, q in itertools.product(range(n), repeat=2):
        if one[p, q]:
            out[(p, 1), (q, 0)] = one[p, q]
    for p, q, r, s in itertools.product(range(n), repeat=4):
        if two[p, q, r, s]:
            out[(p, 1), (q, 1), (r, 0), (s, 0)] = two[p, q, r, s]
    return out


def step_inter(ctx, case):
    what, n, arg = case
    ctx.state(repr(case))
    if what == "errors":
        for bad in (QubitOperator("X0"), IsingOperator("Z0"), 1.0, "0^", None):
            ctx.raises(lambda: jordan_wigner(bad), "Jordan-Wigner transform of %r" % (bad,), TypeError)
            ctx.raises(lambda: bravyi_kitaev(bad), "Bravyi-Kitaev transform of %r" % (bad,), TypeError)
        for bad in (FermionOperator("0^"), IsingOperator("Z0"), None):
            ctx.raises(lambda: reverse_jordan_wigner(bad), "reverse transform of %r" % (bad,), TypeError)
        iop = InteractionOperator(0.5, np.eye(n), np.ones((n,) * 4))
        for k in range(1, n):
            ctx.raises(lambda: bravyi_kitaev(iop, k), "Bravyi-Kitaev transform of %d modes on %d qubits" % (n, k), ValueError)
            ctx.raises(lambda: bravyi_kitaev(FermionOperator(((n - 1, 1),)), k), "Bravyi-Kitaev transform of mode %d on %d qubits" % (n - 1, k), ValueError)
        return
    if what == "quad":
        p, q, r, s = arg
        for c in (1.5, 0.5 - 2j):
            one, two = np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
            two[p, q, r, s] += c
            two[s, r, q, p] += np.conj(c)
            items = iop_items(0.0, one, two)
            op = InteractionOperator(0.0, one, two)
            check_both(ctx, op, lambda k: om.terms(items, k, "f"), n, n + (1 if n < 4 else 0), lambda: "interaction operator with entry %s %s" % (arg, c))
            # the same one with the indices split between equivalent entries
            if n >= 2:
                alt = np.zeros((n,) * 4, dtype=complex)
                for (a, b, d, e), x in (((p, q, r, s), c / 2), ((q, p, s, r), c / 4), ((q, p, r, s), -c / 8), ((p, q, s, r), -c / 8)):
                    alt[a, b, d, e] += x
                    alt[e, d, b, a] += np.conj(x)
                op2 = InteractionOperator(0.0, one, alt)
                ctx.check(close(qmat(jordan_wigner(op2), n), om.terms(items, n, "f")), lambda: "Jordan-Wigner transform of split entries of %s" % (arg,))
                ctx.check(close(qmat(bravyi_kitaev(op2), n), encoded(om.terms(items, n, "f"), n)), lambda: "Bravyi-Kitaev transform of split entries of %s" % (arg,))
            # the helper of one term and its conjugate
            diag = {p, q} == {r, s}
            cc = c.real if diag and isinstance(c, complex) else c
            ref = {((p, 1), (q, 1), (r, 0), (s, 0)): cc}
            m = om.terms(ref, n, "f")
            if not diag:
                m = om.add(m, om.dagger(m))
            helper = jordan_wigner_two_body(p, q, r, s, cc)
            ctx.step()
            ctx.check(close(qmat(helper, n), m), lambda: "jordan_wigner_two_body%s with %s is %s" % (tuple(arg), cc, helper.terms))
        return
    s = arg[0]
    rs = lambda *i: ((sum((k + 2) * x * x + x for k, x in enumerate(i)) * 37 + 11 * s) % 19 - 9) / 8
    ri = lambda *i: ((sum((k + 3) * x + x * x for k, x in enumerate(i)) * 23 + 5 * s) % 17 - 8) / 8 if s % 2 else 0.0
    one, two = np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for p, q in itertools.product(range(n), repeat=2):
        one[p, q] = rs(p, q) + 1j * ri(p, q)
    for p, q, r, t in itertools.product(range(n), repeat=4):
        two[p, q, r, t] = rs(p, q, r, t) + 1j * ri(p, q, r, t)
    one = (one + one.conj().T) / 2
    two = (two + two.conj().transpose(3, 2, 1, 0)) / 2
    if s == 2:
        one, two = one.real, two.real
    const = [0.0, -1.25, 2.0, 0.5][s]
    keep = (one.copy(), two.copy())
    items = iop_items(const, one, two)
    op = InteractionOperator(const, one, two)
    check_both(ctx, op, lambda k: om.terms(items, k, "f"), n, n + 1, lambda: "full interaction operator %d on %d modes" % (s, n))
    ctx.check(np.array_equal(op.one_body_tensor, keep[0]) and np.array_equal(op.two_body_tensor, keep[1]) and op.constant == const, "operator after the transforms")


# ---- reverse transform ----------------------------------------------------------------------
def gen_reverse(tier):
    n = 5 if tier == "quick" else 6
    for w in itertools.product("IXYZ", repeat=n):
        yield ["".join(w)]


def step_reverse(ctx, case):
    w = case[0]
    ctx.state(w)
    t = tuple((q, p) for q, p in enumerate(w) if p != "I")
    used = max([q for q, _ in t] or [-1]) + 1
    extra = QubitOperator("Y0 Z1 X2", 0.5) + QubitOperator((), 2.0)
    for op, low in ((QubitOperator(t, 0.75 - 2j), used), (QubitOperator(t, -1.0) + extra, max(used, 3))):
        terms = dict(op.terms)
        for n in (None, low, len(w), len(w) + 1):
            f = reverse_jordan_wigner(op) if n is None else reverse_jordan_wigner(op, n)
            k = low if n is None else n
            ctx.step()
            ctx.check(type(f) is FermionOperator and close(om.terms(f.terms, k, "f"), om.terms(terms, k, "q")), lambda: "reverse Jordan-Wigner transform of %r on %s qubits is %r" % (terms, n, f.terms))
            ctx.check(jordan_wigner(f) == op, "forth and back")
        ctx.eq(op.terms, terms, "operator after the transform")
        if low:
            ctx.raises(lambda: reverse_jordan_wigner(op, low - 1), "reverse transform on too few qubits", ValueError)


# ---- far apart modes -----------------------------------------------------------------------------
MODES = {9: [0, 1, 3, 4, 7, 8], 12: [0, 2, 5, 7, 8, 11], 17: [0, 1, 7, 8, 14, 15, 16], 33: [0, 3, 15, 16, 17, 31, 32]}


def probes(n):
    full = (1 << n) - 1
    out = [0, full, full // 3, (full // 3) << 1 & full, full // 5, full // 17, 0x1234567 & full, full ^ (0x1234567 & full), full // 7, full ^ full // 7]
    return out + [1 << k for k in range(0, n, max(1, n // 6))] + [full ^ (1 << k) for k in range(0, n, max(1, n // 6))]


def gen_far(tier):
    for n, ms in MODES.items():
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for qs in itertools.product(ms, repeat=d):
                if d == 3 and tier == "quick" and (n not in (9, 17) or qs[0] < qs[1]) or d == 4 and (qs[0] <= qs[1] or qs[2] >= qs[3] or n > 17):
                    continue
                yield [n, list(qs)]


def step_far(ctx, case):
    n, qs = case
    ctx.state((n, tuple(qs)))
    for acts in itertools.product((1, 0), repeat=len(qs)) if len(qs) < 3 else [(1,) * (len(qs) - 1) + (0,), (1, 0, 0, 1)[: len(qs)], (0,) * len(qs)]:
        t = tuple(zip(qs, acts))
        op = FermionOperator(t, 0.5 - 1j) + FermionOperator(((n - 1, 1), (0, 0)), 2.0) + FermionOperator((), 0.25)
        jw, bk, bk1 = jordan_wigner(op), bravyi_kitaev(op), bravyi_kitaev(op, n + 3)
        ctx.step(3)
        # states with the modes of the word in every occupation
        for base in probes(n)[:: 1 if ctx.thorough else 4]:
            for occ in itertools.product((0, 1), repeat=len(set(qs))):
                j = base
                for q, o in zip(sorted(set(qs)), occ):
                    j = j & ~(1 << (n - 1 - q)) | o << (n - 1 - q)
                want = action(op.terms, n, "f", j)
                same = lambda a, b: set(a) == set(b) and all(abs(a[i] - b[i]) < 1e-9 for i in b)
                ctx.check(same(action(jw.terms, n, "q", j), want), lambda: "Jordan-Wigner transform of %r is %r" % (op.terms, jw.terms))
                ctx.check(same(action(bk.terms, n, "q", bk_bits(j, n)), {bk_bits(i, n): x for i, x in want.items()}), lambda: "Bravyi-Kitaev transform of %r is %r" % (op.terms, bk.terms))
                w = {bk_bits(i, n + 3): x for i, x in action(op.terms, n + 3, "f", j << 3 | 5).items()}
                ctx.check(same(action(bk1.terms, n + 3, "q", bk_bits(j << 3 | 5, n + 3)), w), lambda: "Bravyi-Kitaev transform of %r on %d qubits is %r" % (op.terms, n + 3, bk1.terms))
        ctx.raises(lambda: bravyi_kitaev(op, n - 1), "Bravyi-Kitaev transform on too few qubits", ValueError)


def gen_sparse(tier):
    for n in (6, 8) if tier == "quick" else (6, 7, 8, 9):
        sel = list(range(n)) if tier == "thorough" else ([0, 1, 3, 5] if n == 6 else [0, 3, 4, 7])
        for quad in itertools.product(sel, repeat=4):
            p, q, r, s = quad
            if p == q or r == s or p < q or (p, q) < (s, r) and tier == "quick":
                continue
            yield [n, list(quad)]


def step_sparse(ctx, case):
    n, (p, q, r, s) = case
    ctx.state((n, p, q, r, s))
    c = 0.5 - 2j
    one, two = np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
    two[p, q, r, s] += c
    two[s, r, q, p] += np.conj(c)
    one[p, r] += 1.5
    one[r, p] += 1.5
    items = iop_items(0.75, one, two)
    op = InteractionOperator(0.75, one, two)
    jw, bk = jordan_wigner(op), bravyi_kitaev(op)
    ctx.step(2)
    for base in probes(n)[::2]:
        for occ in itertools.product((0, 1), repeat=len({p, q, r, s})):
            j = base
            for k, o in zip(sorted({p, q, r, s}), occ):
                j = j & ~(1 << (n - 1 - k)) | o << (n - 1 - k)
            want = action(items, n, "f", j)
            same = lambda a, b: set(a) == set(b) and all(abs(a[i] - b[i]) < 1e-9 for i in b)
            ctx.check(same(action(jw.terms, n, "q", j), want), lambda: "Jordan-Wigner transform of entry %s of %d modes" % ((p, q, r, s), n))
            ctx.check(same(action(bk.terms, n, "q", bk_bits(j, n)), {bk_bits(i, n): x for i, x in want.items()}), lambda: "Bravyi-Kitaev transform of entry %s of %d modes" % ((p, q, r, s), n))


def gen_back(tier):
    n = 9 if tier == "quick" else 12
    for k in range(1, n + 1):
        for a in "XYZ":
            for b in "IXYZ":
                for fill in ("I", "Z", "X"):
                    yield [k, a, b, fill]


def step_back(ctx, case):
    k, a, b, fill = case
    w = [fill if i % 3 == 1 else "I" for i in range(k)]
    w[-1], w[k // 2] = a, b if k // 2 != k - 1 else a
    t = tuple((q, p) for q, p in enumerate(w) if p != "I")
    ctx.state("".join(w))
    op = QubitOperator(t, 0.5 - 1j) + QubitOperator((), -1.0)
    f = reverse_jordan_wigner(op)
    ctx.step()
    for j in probes(k):
        got, want = action(f.terms, k, "f", j), action(op.terms, k, "q", j)
        ctx.check(set(got) == set(want) and all(abs(got[i] - want[i]) < 1e-9 for i in want), lambda: "reverse Jordan-Wigner transform of %s" % "".join(w))
    ctx.check(reverse_jordan_wigner(op, k + 2) == f, "transform on more qubits")


FRESH = zqfresh.Fresh(zqfreshlist.C28)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("ladder products", gen_ladder, step_ladder, bound={"products": "all products of up to 4 (5) ladder operators on 3 modes, 3 (4) on 4 and 2 (3) on 6, in sums, on up to one more qubit"}),
    Space("one-body", gen_one, step_one, bound={"modes": "all pairs of up to 8 (9) modes; all pairs of 16 modes on 39 basis states"}),
    Space("interaction operators", gen_inter, step_inter, bound={"entries": "all Hermitian orbits of two-body entries on up to 5 (7) modes, real and complex", "full": "full tensors on up to 4 (5) modes"}),
    Space("reverse", gen_reverse, step_reverse, bound={"strings": "all Pauli strings on 5 (6) qubits, alone and in a sum"}),
    Space("far", gen_far, step_far, bound={"products": "all words of 1-2 (and selected of 3, thorough 4) ladder operators over 6-7 of 9, 12, 17 and 33 modes, on basis states with every occupation of their modes"}),
    Space("sparse", gen_sparse, step_sparse, bound={"entries": "orbits over 4 (thorough all) of 6 and 8 (6-9) modes on basis states with every occupation of their modes"}),
    Space("back", gen_back, step_back, bound={"strings": "patterns on up to 9 (12) qubits"}),
]
