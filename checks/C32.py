"""C32: sparse matrices, expectation values, spectra and number-restricted forms."""
import itertools

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc import ref
from mc.core import Space
from zquantum.core.openfermion import FermionOperator, InteractionOperator, IsingOperator, PolynomialTensor, QubitOperator, get_sparse_operator
from zquantum.core.openfermion.linalg import (eigenspectrum, expectation, get_density_matrix, get_ground_state, get_number_preserving_sparse_operator, inner_product, jordan_wigner_ladder_sparse, jordan_wigner_sparse,
                                              jw_configuration_state, jw_get_ground_state_at_particle_number, jw_hartree_fock_state, jw_number_indices, jw_number_restrict_operator, kronecker_operators, qubit_operator_sparse,
                                              sparse_eigenspectrum, wrapped_kronecker)

ID = "C32"
ASSUMPTIONS = ["operators whose ground states are asked for are Hermitian and not zero", "operators restricted to a number of particles conserve it (and the spin, where a spin is fixed)", "states are numpy arrays, density matrices are sparse",
               "coefficients are numbers"]
TECHNIQUE = "exhaustive enumeration of operators, registers, particle numbers, reference determinants and excitation levels against a definition on basis states"


def dense(m):
    return np.asarray(m.todense() if scipy.sparse.issparse(m) else m, dtype=complex)


def full(m, n):
    out = np.zeros((1 << n, 1 << n), dtype=complex)
    for (i, j), x in m.items():
        out[i, j] += x
    return out


def same(got, want):
    return got.shape == want.shape and (got.size == 0 or np.abs(dense(got) - want).max() < 1e-9)


# ---- matrices ------------------------------------------------------------------------------
PW = [tuple((i, p) for i, p in enumerate(w) if p != "I") for w in itertools.product("IXYZ", repeat=3)]
LET = [(i, a) for i in range(3) for a in (0, 1)]
CS = [1.0, -2, 0.5j, 1.25 - 0.75j, np.float64(0.25), np.complex128(2 + 1j), 0.0]


def gen_paulis(tier):
    for i in range(len(PW)):
        yield [i]


def step_paulis(ctx, case):
    i = case[0]
    ctx.state(i)
    t = PW[i]
    for j, u in enumerate(PW):
        op = QubitOperator(t, CS[(i + j) % len(CS)]) + QubitOperator(u, CS[(2 * i + j) % (len(CS) - 1)])
        n = max([q + 1 for x in op.terms for q, _ in x] or [0])
        for k in {None, n + 1, 4} if j % 3 else {None, n, n + 2}:
            want = full(om.terms(op.terms, n if k is None else k, "q"), n if k is None else k)
            for got in [get_sparse_operator(op) if k is None else get_sparse_operator(op, n_qubits=k)] + ([qubit_operator_sparse(op, k)] if j % 3 == 0 else []):
                ctx.step()
                ctx.check(scipy.sparse.issparse(got) and same(got, want), lambda: "matrix of %s on %s qubits: %s" % (op, k, got))
                ctx.check(got.format == "csc" and (got.nnz == 0 or abs(got.data).min() > 0), "stored zeros")
        if n:
            ctx.raises(lambda: qubit_operator_sparse(op, n - 1), "too few qubits", ValueError)
    if i == 0:
        for k in (1, 2, 3):
            ctx.check(same(get_sparse_operator(QubitOperator(), k), np.zeros((1 << k, 1 << k))), "zero operator")
        ctx.raises(lambda: get_sparse_operator(IsingOperator("Z0")), "matrix of an Ising operator", TypeError)
        ctx.raises(lambda: get_sparse_operator("X0"), "matrix of text", TypeError)
    # gaps in the register
    for gap in (1, 2):
        u = tuple((q + gap * (q > 0) + gap * (q > 1), p) for q, p in t)
        n = u[-1][0] + 1 if u else 1
        if n <= 6:
            ctx.check(same(get_sparse_operator(QubitOperator(u, 1.5), n), full(om.terms({u: 1.5}, n, "q"), n)), lambda: "matrix of %s" % (u,))


def gen_words(tier):
    for length in range(0, 4 if tier == "quick" else 5):
        for w in itertools.product(range(len(LET)), repeat=length):
            if length == 4 and (w[0] + w[1] * 3 + w[2]) % 2 and tier == "quick":
                continue
            yield list(w)


def step_words(ctx, case):
    t = tuple(LET[i] for i in case)
    ctx.state(tuple(case))
    others = [(), ((0, 1), (2, 0)), ((1, 1), (1, 0)), ((2, 1), (1, 1), (0, 0), (1, 0))]
    for j, o in enumerate(others):
        op = FermionOperator(t, CS[sum(case) % 6]) + FermionOperator(o, CS[(sum(case) + j) % 6])
        n = max([q + 1 for x in op.terms for q, _ in x] or [0])
        for k in {None, n + 1, 4} if n else {None, 1}:
            want = full(om.terms(op.terms, n if k is None else k, "f"), n if k is None else k)
            for got in (get_sparse_operator(op, k), jordan_wigner_sparse(op, k)):
                ctx.step()
                ctx.check(scipy.sparse.issparse(got) and same(got, want), lambda: "matrix of %s on %s modes: %s" % (op, k, got))
    if len(case) == 1:
        for n in range(t[0][0] + 1, 6):
            ctx.check(same(jordan_wigner_ladder_sparse(n, *t[0]), full(om.term(t, n, "f"), n)), "ladder operator")


def gen_tensors(tier):
    for n in (1, 2, 3):
        for k in range(6):
            for cut in range(n + 1):
                yield [n, k, cut]


def arr(shape, k):
    size = int(np.prod(shape))
    a = np.array([((3 * i * i + (k + 2) * i + k) % 7 - 3) * 0.5 for i in range(size)]) + (k % 2) * 1j * np.array([(i * (k + 1)) % 3 - 1 for i in range(size)])
    return a.reshape(shape)


def step_tensors(ctx, case):
    n, k, cut = case
    ctx.state(tuple(case))
    one, two = arr((n, n), k), arr((n,) * 4, k + 1)
    for ax in range(2):
        one = np.where(np.indices(one.shape)[ax] >= n - cut, 0, one)
    for ax in range(4):
        two = np.where(np.indices(two.shape)[ax] >= n - cut, 0, two)
    for const in (1.5, 0.0):
        for op, keys in ((InteractionOperator(const, one, two), {(): const, (1, 0): one, (1, 1, 0, 0): two}), (PolynomialTensor({(0, 1): one}), {(0, 1): one}), (PolynomialTensor({(): const, (1,): one[0]}), {(): const, (1,): one[0]})):
            terms = []
            for key, v in keys.items():
                terms += [((), v)] if key == () else [(tuple(zip(idx, key)), v[idx]) for idx in itertools.product(range(n), repeat=len(key))]
            want = full(om.terms(terms, n, "f"), n)
            got = get_sparse_operator(op)
            ctx.step()
            ctx.check(same(got, want), lambda: "matrix of tensors %s: shape %s, %s" % (case, got.shape, got))
            big = get_sparse_operator(op, n_qubits=n + 1)
            ctx.check(same(big, full(om.terms(terms, n + 1, "f"), n + 1)), lambda: "matrix of tensors %s on one more mode: shape %s" % (case, big.shape))
            if const and np.abs(want - want.conj().T).max() < 1e-9:
                ctx.check(np.allclose(np.sort(eigenspectrum(op).real), np.linalg.eigvalsh(want)), "spectrum of tensors")


# ---- products, states ------------------------------------------------------------------------
def gen_states(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        yield ["basis", n]
    for n in (1, 2, 3):
        for k in range(8):
            yield ["lin", n, k]
    for k in range(12):
        yield ["kron", k]


def mats(k):
    d = [1, 2, 3][k % 3]
    e = [2, 1, 4][(k // 3) % 3]
    return arr((d, e), k), arr((e + 1, d), k + 1)


HERM = [{(): 0.5, ((0, "X"),): 1.0}, {((0, "Y"),): 1.0, ((0, "Z"),): -0.5}, {((0, "Z"),): 1.0}, {((0, "Y"),): -2.0}, {((0, "X"),): 0.75, ((0, "Y"),): 0.5, (): -3.0}]


def hermitian_terms(n, k):
    words = [tuple((i, p) for i, p in enumerate(w) if p != "I") for w in itertools.product("IXYZ", repeat=n)]
    rnd = [(5 * i * i + 3 * i + k * (i + 2)) % 11 - 5 for i in range(len(words))]
    return {w: 0.25 * r for w, r in zip(words, rnd) if r and (i_ok(w, k))}


def i_ok(w, k):
    if k == 0:
        return all(p == "Z" for _, p in w)
    if k == 1:
        return all(p != "Y" for _, p in w)
    if k == 2:
        return len(w) == 1
    return True


def step_states(ctx, case):
    ctx.state(tuple(case))
    ctx.step()
    if case[0] == "basis":
        n = case[1]
        for r in range(n + 1):
            for occ in itertools.combinations(range(n), r):
                for form in (list, tuple, lambda x: reversed(x), lambda x: np.array(x, dtype=int)):
                    v = jw_configuration_state(form(occ), n)
                    ctx.check(v.shape == (1 << n,) and abs(np.abs(v).sum() - 1) < 1e-12 and v[sum(1 << (n - 1 - i) for i in occ)] == 1, lambda: "basis state %s" % (occ,))
            v = jw_hartree_fock_state(r, n)
            ctx.check((v == jw_configuration_state(range(r), n)).all(), "Hartree-Fock state")
            idx = jw_number_indices(r, n)
            want = [i for i in range(1 << n) if bin(i).count("1") == r]
            ctx.check(sorted(idx) == want and len(idx) == len(set(idx)), lambda: "indices with %d of %d particles: %s" % (r, n, idx))
            a = arr((1 << n, 1 << n), 3)
            for m in (a, scipy.sparse.csc_matrix(a), scipy.sparse.csr_matrix(a)):
                for k in (None, n):
                    got = jw_number_restrict_operator(m, r, k) if n else jw_number_restrict_operator(m, r, n)
                    ctx.check(same(got, a[np.ix_(idx, idx)]), "restricted operator")
        return
    if case[0] == "kron":
        a, b = mats(case[1])
        sa, sb = scipy.sparse.csc_matrix(a), scipy.sparse.csr_matrix(b)
        ctx.check(same(wrapped_kronecker(sa, sb), np.kron(a, b)), "Kronecker product")
        ctx.check(same(kronecker_operators([sa, sb, sa]), np.kron(np.kron(a, b), a)), "Kronecker product of three")
        return
    n, k = case[1:]
    t = hermitian_terms(n, k) if k < 7 else HERM[n]
    op = QubitOperator()
    for w, c in t.items():
        op += QubitOperator(w, c)
    m = full(om.terms(op.terms, n, "q"), n)
    sp = get_sparse_operator(op, n)
    # expectation values
    vecs = [np.array(ref.generic_state(n, s)) for s in range(3)] + [np.eye(1 << n)[i] for i in range(1 << n)]
    for v in vecs:
        want = np.vdot(v, m @ v)
        for o in (sp, sp.tocsr(), scipy.sparse.linalg.aslinearoperator(sp)):
            ctx.check(abs(expectation(o, v) - want) < 1e-9, "expectation value")
            ctx.check(abs(expectation(o, v.reshape(-1, 1)) - want) < 1e-9, "expectation value of a column")
        for u in vecs[:4]:
            ctx.check(abs(inner_product(v, u) - np.vdot(v, u)) < 1e-12, "inner product")
    for probs in ([1.0], [0.25, 0.75], [0.5, 0.25, 0.25]):
        rho = get_density_matrix(vecs[:len(probs)], probs)
        want = sum(p * np.outer(v, v.conj()) for p, v in zip(probs, vecs))
        ctx.check(same(rho, want), "density matrix")
        ctx.check(abs(expectation(sp, rho) - np.trace(m @ want)) < 1e-9, "expectation value of a density matrix")
    ctx.raises(lambda: expectation(scipy.sparse.linalg.aslinearoperator(sp), rho), "expectation of a linear operator with a density matrix", ValueError)
    ctx.raises(lambda: expectation(sp, [1, 0]), "expectation with a list", ValueError)
    # spectra
    ev = np.linalg.eigvalsh(m)
    ctx.check(np.allclose(eigenspectrum(op, n), ev) and np.allclose(sparse_eigenspectrum(sp), ev), "spectrum")
    nh = QubitOperator("X0", 1j) + QubitOperator("Z0", 2.0)
    got = eigenspectrum(nh)
    ctx.check(np.allclose(np.sort_complex(got), np.sort_complex(np.linalg.eigvals(dense(get_sparse_operator(nh))))), "spectrum of an operator that is not Hermitian")
    # ground states
    for o in (sp, scipy.sparse.csr_matrix(m), sp + 7 * scipy.sparse.identity(1 << n)):
        d = dense(o)
        for guess in (None, vecs[0]):
            e, v = get_ground_state(o, guess) if guess is not None else get_ground_state(o)
            ctx.check(abs(e - np.linalg.eigvalsh(d)[0]) < 1e-7, lambda: "ground energy of %s: %r" % (op, e))
            ctx.check(v.shape == (1 << n,) and abs(np.linalg.norm(v) - 1) < 1e-7 and np.linalg.norm(d @ v - e * v) < 1e-6, "ground state")


# ---- ground states at a number of particles ----------------------------------------------------------
NUM = [(), ((0, 1), (0, 0)), ((1, 1), (1, 0)), ((2, 1), (2, 0)), ((3, 1), (3, 0)), ((0, 1), (1, 0)), ((0, 1), (3, 0)), ((1, 1), (2, 0)), ((2, 1), (3, 0)), ((0, 1), (1, 1), (1, 0), (0, 0)), ((3, 1), (1, 1), (2, 0), (0, 0)), ((2, 1), (1, 1), (1, 0), (3, 0))]


def gen_number(tier):
    for r in (1, 2) if tier == "quick" else (1, 2, 3):
        for ks in itertools.combinations(range(len(NUM)), r):
            yield list(ks)


def step_number(ctx, case):
    ctx.state(tuple(case))
    for phase in (1.0, 0.6 - 0.8j):
        for n in (3, 4):
            op = FermionOperator((), 0.0)
            for j, k in enumerate(case):
                c = [1.0, -0.75, 0.5][j] * (1 if len(set(NUM[k])) and all((i, 1 - a) in NUM[k] for i, a in NUM[k]) else phase)
                t = FermionOperator(NUM[k], c)
                h = FermionOperator(tuple((i, 1 - a) for i, a in reversed(NUM[k])), np.conjugate(c))
                op += t + h
            if max([i for t in op.terms for i, _ in t] or [0]) >= n:
                continue
            m = full(om.terms(op.terms, n, "f"), n)
            sp = get_sparse_operator(op, n)
            for p in range(n + 1):
                idx = [i for i in range(1 << n) if bin(i).count("1") == p]
                sub = m[np.ix_(idx, idx)]
                e, v = jw_get_ground_state_at_particle_number(sp, p)
                ctx.step()
                ctx.check(abs(e - np.linalg.eigvalsh(sub)[0]) < 1e-7, lambda: "ground energy of %s with %d particles: %r instead of %r" % (op, p, e, np.linalg.eigvalsh(sub)[0]))
                ctx.check(v.shape == (1 << n,) and abs(np.linalg.norm(v) - 1) < 1e-7 and np.linalg.norm(m @ v - e * v) < 1e-6, "ground state")
                ctx.check(all(abs(v[i]) < 1e-12 for i in range(1 << n) if i not in idx), "ground state with other numbers of particles")


# ---- number-preserving matrices -----------------------------------------------------------------
def gen_sector(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for p in range(n + 1):
            refs = [None] + [list(c) for c in itertools.combinations(range(n), p)]
            for r in refs:
                for spin in (False, True):
                    for level in [None, *range(p + 1)]:
                        yield [n, p, r, spin, level]


def step_sector(ctx, case):
    n, p, r, spin, level = case
    ctx.state(str(case))
    occ = set(range(p) if r is None else r)
    lv = p if level is None else level
    refd = None if r is None else [i in occ for i in range(n)]
    kw = {}
    if spin:
        kw["spin_preserving"] = True
    if r is not None:
        kw["reference_determinant"] = refd if (p + n) % 2 else np.array(refd)
    if level is not None:
        kw["excitation_level"] = level
    space = [c for c in itertools.combinations(range(n), p) if len(set(c) - occ) <= lv and (not spin or sum(1 - i % 2 for i in c) == sum(1 - i % 2 for i in occ))]
    code = {sum(1 << (n - 1 - i) for i in c): len(set(c) - occ) for c in space}
    # the diagonal operator sum 2^(n-1-i) n_i names the basis states
    names = FermionOperator()
    for i in range(n):
        names += FermionOperator(((i, 1), (i, 0)), float(1 << (n - 1 - i)))
    got = dense(get_number_preserving_sparse_operator(names, n, p, **kw))
    ctx.step()
    ctx.check(got.shape == (len(space),) * 2, lambda: "size of the space for %s: %s instead of %d" % (case, got.shape, len(space)))
    ctx.check(np.abs(got - np.diag(np.diag(got))).max() < 1e-9, "diagonal operator")
    order = [int(round(x.real)) for x in np.diag(got)]
    ctx.check(sorted(order) == sorted(code), lambda: "basis states for %s: %s" % (case, order))
    ctx.eq(order[0], sum(1 << (n - 1 - i) for i in occ), "first basis state")
    ranks = [code[x] for x in order]
    ctx.eq(ranks, sorted(ranks), "excitation ranks in order")

    def ok(t):
        return not spin or sum((2 * a - 1) * (1 - i % 2) for i, a in t) == 0

    ops = [((), 2.0 - 1j)]
    for i, j in itertools.product(range(n), repeat=2):
        ops.append((((i, 1), (j, 0)), 1.5))
        ops.append((((j, 0), (i, 1)), -0.5j))
    for (i, j), (k, l) in itertools.product(itertools.combinations(range(n), 2), repeat=2):
        ops.append((((i, 1), (j, 1), (k, 0), (l, 0)), 1.0))
        ops.append((((i, 1), (k, 0), (l, 0), (j, 1)), 0.25 + 1j))
    if n >= 3:
        ops.append((((2, 1), (1, 1), (0, 1), (n - 1, 0), (1, 0), (0, 0)), 1.0))
        ops.append((((2, 1), (1, 1), (n - 1, 1), (0, 0), (1, 0), (2, 0)), 2.0))
    ops = [o for o in ops if ok(o[0])]
    total = FermionOperator()
    for t, c in ops:
        total += FermionOperator(t, c)
    for op in [FermionOperator(t, c) for t, c in ops] + [total, FermionOperator()]:
        want = full(om.terms(op.terms, n, "f"), n)[np.ix_(order, order)]
        snap = dict(op.terms)
        got = get_number_preserving_sparse_operator(op, n, p, **kw)
        ctx.step()
        ctx.check(same(got, want), lambda: "matrix of %s for %s: %s instead of %s" % (op, case, got, want))
        ctx.check(op.terms == snap, "the operator changed")
    ctx.raises(lambda: get_number_preserving_sparse_operator(FermionOperator(((0, 1),)), n, p, **kw), "operator changing the number of particles", ValueError)
    ctx.outcome(len(space))


# ---- larger registers ------------------------------------------------------------------------------
def gen_wide(tier):
    for n in (7, 9, 10) if tier == "quick" else (7, 9, 10, 12):
        ms = [0, 1, n // 2, n - 2, n - 1]
        for r in (1, 2, 3):
            for qs in itertools.combinations(ms, r):
                yield ["paulis", n, list(qs)]
        for r in (1, 2, 3, 4):
            for i, qs in enumerate(itertools.product(ms, repeat=r)):
                if r < 3 or i % (5 if r == 3 else 31) == 0:
                    yield ["ladder", n, list(qs)]
    for n in (5, 6, 7) if tier == "quick" else (5, 6, 7, 8):
        for p in range(n + 1):
            for spin in (False, True):
                for level in (None, 0, 1, 2, 3):
                    if level is None or level <= p:
                        yield ["sector", n, [p, spin, level]]
    for n in (5, 6, 8) if tier == "quick" else (5, 6, 8, 9):
        for p in range(n + 1):
            yield ["ground", n, p]
    yield ["many", 4, 0]


def step_wide(ctx, case):
    what, n, x = case
    ctx.state(repr(case))
    ctx.step()

    def compare(got, items, k, kind, say):
        want = {i: c for i, c in om.terms(items, k, kind).items() if abs(c) > 1e-12}
        coo = got.tocoo()
        have = {}
        for i, j, c in zip(coo.row.tolist(), coo.col.tolist(), coo.data.tolist()):
            have[i, j] = have.get((i, j), 0) + c
        ctx.check(got.shape == (1 << k, 1 << k) and all(abs(have.get(i, 0) - want.get(i, 0)) < 1e-9 for i in set(have) | set(want)), lambda: "matrix of %s on %d" % (say, k))

    if what == "paulis":
        words = list(itertools.product("XYZ", repeat=len(x)))
        for w in words if len(x) < 3 else words[:: 3]:
            op = QubitOperator(tuple(zip(x, w)), 0.5 - 1j) + QubitOperator(((n // 2, "Y"),), 2.0) + QubitOperator((), 0.25)
            compare(get_sparse_operator(op, n), op.terms, n, "q", op)
    elif what == "ladder":
        for acts in ((1, 0, 1, 0), (0, 1, 1, 0), (1, 1, 0, 0)):
            op = FermionOperator(tuple(zip(x, acts)), 0.5 - 1j) + FermionOperator(((n - 1, 1), (0, 0)), 2.0)
            compare(get_sparse_operator(op), op.terms, n, "f", op)
    elif what == "many":
        # sums of all words, each matrix entry collects many contributions
        for kind, cls, words in (("q", QubitOperator, [tuple((i, p) for i, p in enumerate(w) if p != "I") for w in itertools.product("IXYZ", repeat=4)]), ("f", FermionOperator, [tuple(w) for r in (0, 1, 2, 3) for w in itertools.permutations([(i, a) for i in range(4) for a in (0, 1)], r)])):
            op = cls()
            for i, w in enumerate(words):
                op += cls(w, ((i * i + 3 * i) % 17 - 8 + 0.5) * (1 if i % 3 else 1j))
            compare(get_sparse_operator(op, 4), op.terms, 4, kind, "a sum of %d words" % len(words))
            compare(get_sparse_operator(op, 6), op.terms, 6, kind, "a sum of %d words" % len(words))
    elif what == "ground":
        op = FermionOperator()
        for q in range(n):
            op += FermionOperator(((q, 1), (q, 0)), [0.3, -0.7, 1.1, 0.45, -0.2, 0.9, -1.3, 0.6, 0.05][q])
            for r in range(q):
                if (q + r) % 2 or r == 0:
                    c = 0.2 + 0.05 * q + 0.1j * r
                    op += FermionOperator(((q, 1), (r, 0)), c) + FermionOperator(((r, 1), (q, 0)), c.conjugate())
                op += FermionOperator(((q, 1), (q, 0), (r, 1), (r, 0)), 0.15 * ((q * r) % 4 - 1))
        idx = [i for i in range(1 << n) if bin(i).count("1") == x]
        place = {i: k for k, i in enumerate(idx)}
        sub = np.zeros((len(idx),) * 2, dtype=complex)
        for (i, j), c in om.terms(op.terms, n, "f").items():
            if i in place and j in place:
                sub[place[i], place[j]] += c
        e, v = jw_get_ground_state_at_particle_number(get_sparse_operator(op, n), x)
        want = np.linalg.eigvalsh(sub)[0]
        ctx.check(abs(e - want) < 1e-6, lambda: "ground energy of %d particles on %d modes: %r instead of %r" % (x, n, e, want))
        u = np.array([v[i] for i in idx])
        ctx.check(v.shape == (1 << n,) and abs(np.linalg.norm(u) - 1) < 1e-6 and abs(np.linalg.norm(v) - 1) < 1e-6 and np.linalg.norm(sub @ u - e * u) < 1e-5, "ground state at a number of particles")
        nop = get_number_preserving_sparse_operator(op, n, x)
        ctx.check(np.allclose(np.linalg.eigvalsh(dense(nop)), np.linalg.eigvalsh(sub)), "spectrum of the restricted operator")
    else:
        p, spin, level = x
        lv = p if level is None else level
        refs = [None, [i in set(range(n - p, n)) for i in range(n)], [i in {(3 * k + 1) % n for k in range(p)} for i in range(n)]]
        for ref_ in refs:
            if ref_ is not None and sum(ref_) != p:
                continue
            occ = set(range(p)) if ref_ is None else {i for i in range(n) if ref_[i]}
            space = [c for c in itertools.combinations(range(n), p) if len(set(c) - occ) <= lv and (not spin or sum(1 - i % 2 for i in c) == sum(1 - i % 2 for i in occ))]
            names = FermionOperator()
            for i in range(n):
                names += FermionOperator(((i, 1), (i, 0)), float(1 << (n - 1 - i)))
            kw = dict(spin_preserving=spin, reference_determinant=ref_, excitation_level=level)
            order = [int(round(y.real)) for y in get_number_preserving_sparse_operator(names, n, p, **kw).diagonal()]
            ctx.check(sorted(order) == sorted(sum(1 << (n - 1 - i) for i in c) for c in space), lambda: "basis states for %s and reference %s" % (case, ref_))
            op = FermionOperator((), 0.25)
            for i in range(n):
                for d in (2, 4):
                    op += FermionOperator(((i, 1), ((i + d) % n if n % 2 == 0 or not spin else i, 0)), 0.5 * i - 1j)
                j, k = (i + 1) % n, (i + 2) % n
                op += FermionOperator(((i, 1), (j, 1), (i, 0), (j, 0)), 1.5 + i) + FermionOperator(((k, 1), (j, 1), (j, 0), ((k + 2) % n if n % 2 == 0 or not spin else k, 0)), 0.75j + i)
            place = {s: k for k, s in enumerate(order)}
            want = np.zeros((len(order),) * 2, dtype=complex)
            for t, c in op.terms.items():
                for s in order:
                    i, y = om._ladder(t, n, s)
                    if y and i in place:
                        want[place[i], place[s]] += c * y
            got = get_number_preserving_sparse_operator(op, n, p, **kw)
            ctx.check(same(got, want), lambda: "restricted matrix for %s and reference %s" % (case, ref_))


FRESH = zqfresh.Fresh(zqfreshlist.C32)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("paulis", gen_paulis, step_paulis, "all pairs of Pauli words on 3 qubits on several registers"),
    Space("ladder words", gen_words, step_words, "all ladder products up to length 3 (thorough 4) on 3 modes, in sums with 4 others, on several registers"),
    Space("tensors", gen_tensors, step_tensors, "interaction operators and tensors on 1-3 modes, the last ones possibly unused"),
    Space("states", gen_states, step_states, "basis states and index sets up to 4 (thorough 6) modes; expectation values, spectra and ground states of 24 Hermitian operators"),
    Space("numbers", gen_number, step_number, "Hermitian sums of up to two (thorough three) of 12 number-conserving terms on 3 and 4 modes x all numbers of particles x two phases"),
    Space("sectors", gen_sector, step_sector, "all numbers of particles, reference determinants, spin flags and excitation levels up to 4 (thorough 5) modes x all one- and two-body terms"),
    Space("wide", gen_wide, step_wide, "Pauli and ladder words on 7 to 10 (thorough 12) qubits, sums of 256 words, spaces of every number of particles on 5 to 7 (thorough 8) modes, ground states on up to 8 (thorough 9) modes"),
]
