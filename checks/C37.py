"""C37: comparing unitaries, and random objects for tests."""
import itertools
import random

import numpy as np

from checks import zqfresh, zqfreshlist
from mc import ref
from mc.core import Space
from mc.rng import closed
from zquantum.core.openfermion import IsingOperator, QubitOperator
from zquantum.core.testing import create_random_isingop, create_random_qubitop, create_random_wavefunction
from zquantum.core.utils import compare_unitary, is_identity, is_unitary

ID = "C37"
ASSUMPTIONS = ["differences below a tenth of the tolerance count as equal and differences above 1e-3 as different; nothing is claimed in between (numpy's own relative tolerance applies there)",
               "a continuous draw takes one of the listed points; loops that draw until they find a new value do so within a bounded number of draws"]
TECHNIQUE = "exhaustive enumeration of pairs of matrices (gate words, phases, small deviations) and of all answers of the random source"

I, X, Y, Z = ref.eye(2), ref.gate("X"), ref.gate("Y"), ref.gate("Z")
H, S, T = ref.gate("H"), ref.gate("S"), ref.gate("T")
PH = [1, 1j, -1, np.exp(0.3j), np.exp(-2.9j)]


def one_qubit(tier):
    base = {"I": I, "X": X, "Y": Y, "Z": Z, "H": H, "S": S, "T": T, "R": ref.gate("RX", 0.7), "Q": ref.gate("RZ", -1.1)}
    out = dict(base)
    for a, b in itertools.product("XYZHSTRQ", repeat=2):
        out[a + b] = ref.matmul(base[a], base[b])
    if tier != "quick":
        for a, b, c in itertools.product("XHTR", repeat=3):
            out[a + b + c] = ref.matmul(ref.matmul(base[a], base[b]), base[c])
    return out


def two_qubit(tier):
    cx = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]
    sw = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
    base = {"C": cx, "W": sw, "z": ref.kron(Z, I), "x": ref.kron(X, I), "h": ref.kron(H, I), "y": ref.kron(I, Y), "t": ref.kron(I, T)}
    out = dict(base)
    for a, b in itertools.product(base, repeat=2):
        out[a + b] = ref.matmul(base[a], base[b])
    return out


def three_level(tier):
    out = {}
    ph = [1, 1j] if tier == "quick" else [1, -1, 1j]
    for p in itertools.permutations(range(3)):
        for k, d in enumerate(itertools.product(ph, repeat=3)):
            m = ref.zeros(3)
            for r in range(3):
                m[r][p[r]] = d[r]
            out[f"{p}{k}"] = m
    return out


def deviated(m, kind, size):
    """m times a unitary that is `size` away from a phase"""
    n = len(m)
    g = ref.eye(n)
    if kind[0] == "d":
        i = kind[1]
        g[i][i] = np.exp(1j * size)
    else:
        i, j = kind[1], kind[2]
        c, s = np.cos(size), np.sin(size)
        g[i][i], g[j][j], g[i][j], g[j][i] = c, c, -s, s
    return ref.matmul(m, g)


FAMILY = {"one-qubit": one_qubit, "two-qubit": two_qubit, "three-level": three_level}


def fam(name, tier, cache={}):
    if (name, tier) not in cache:
        cache[name, tier] = {k: np.array(v, dtype=complex) for k, v in FAMILY[name](tier).items()}
    return cache[name, tier]


def diff_up_to_phase(a, b):
    """largest element of b - c*a for the phase c that fits the largest element of a"""
    k = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    c = b[k] / a[k]
    if abs(c) < 1e-12:
        return 1.0
    c = c / abs(c)
    return float(np.max(np.abs(b - c * a)))


def gen_pairs(tier):
    for name in FAMILY:
        for k in fam(name, tier):
            yield [name, k]


def as_kind(m, kind):
    if kind == "matrix":
        return np.matrix(m)
    if kind == "real":
        return np.array(m.real)
    if kind == "int":
        return np.array(np.rint(m.real), dtype=int)
    return m


def step_pairs(ctx, case):
    name, k = case
    u = fam(name, ctx.tier)[k]
    for k2, v in fam(name, ctx.tier).items():
        d = diff_up_to_phase(u, v)
        if 1e-11 < d < 1e-3:
            continue
        same = d < 1e-11
        for i, ph in enumerate(PH):
            kinds = ["array"]
            if i == 0:
                kinds.append("matrix")
                if np.abs(u.imag).max() == 0 and np.abs(v.imag).max() == 0:
                    kinds.append("real")
                    if np.abs(u - np.rint(u.real)).max() == 0 and np.abs(v - np.rint(v.real)).max() == 0:
                        kinds.append("int")
            for kind in kinds:
                for tol in (1e-9, 1e-12)[: 2 if i == 0 else 1]:
                    got = compare_unitary(as_kind(u, kind), as_kind(ph * v, kind), tol)
                    ctx.step()
                    ctx.check(bool(got) is same, lambda: f"compare_unitary({k}, {ph}*{k2}) with {kind} and tolerance {tol} is {got}, the matrices differ by {d:.2g} up to a phase")
        if set(np.unique(u)) <= {0, 1} and set(np.unique(v)) <= {0, 1}:
            ctx.check(bool(compare_unitary(u, v)) is same, lambda: f"compare_unitary({k}, {k2}) at the default tolerance")
        ctx.outcome("equal" if same else "different")
    ctx.state((name, k))


def gen_near(tier):
    for name in FAMILY:
        n = {"one-qubit": 2, "two-qubit": 4, "three-level": 3}[name]
        kinds = [["d", i] for i in range(n)] + [["g", i, j] for i in range(n) for j in range(i)]
        for k in fam(name, tier):
            for kind in kinds:
                yield [name, k, kind]


def step_near(ctx, case):
    name, k, kind = case
    u = fam(name, ctx.tier)[k]
    n = len(u)
    for size in (2e-3, -2e-3, 0.5, 1e-11, np.pi / 2, np.pi):
        v = np.array(deviated(u.tolist(), kind, size))
        d = diff_up_to_phase(u, v)
        tol = 1e-9
        if 1e-10 < d < 1e-3:
            continue
        for ph in (1, 1j, PH[3]):
            for a, b in ((u, ph * v), (ph * v, u)):
                got = compare_unitary(a, b, tol)
                ctx.step()
                ctx.check(bool(got) is (d < 1e-10), lambda: f"compare_unitary of {k} and its deviation {kind} by {size} (phase {ph}) is {got}")
        g = u.conj().T @ v
        want = float(np.max(np.abs(g - np.eye(n))))
        if want < 1e-10 or want > 1e-3:
            ctx.check(bool(is_identity(g, tol)) is (want < 1e-10), lambda: f"is_identity of a matrix {want:.3g} away from the identity")
    for i, j in itertools.product(range(n), repeat=2):
        for delta in (0.01, -0.01, 0.01j, 0.6):
            w = u.copy()
            w[i, j] += delta
            e = float(np.max(np.abs(w.conj().T @ w - np.eye(n))))
            if e < 1e-3 and e > 1e-10:
                continue
            ok = e < 1e-10
            ctx.check(bool(is_unitary(w, 1e-9)) is ok and bool(is_unitary(w.tolist(), 1e-9)) is ok, lambda: f"is_unitary of {k} with element {i},{j} changed by {delta}")
            ctx.step()
            if not ok:
                ctx.raises(lambda: compare_unitary(w, u, 1e-9), "compare_unitary of a first matrix that is not unitary")
                ctx.raises(lambda: compare_unitary(u, w, 1e-9), "compare_unitary of a second matrix that is not unitary")
    ctx.check(bool(is_unitary(u, 1e-9)) and bool(is_identity(u.conj().T @ u, 1e-9)), "is_unitary of a unitary")
    for f in (0.5, 2, 1 + 5e-3):
        ctx.check(not is_unitary(f * u, 1e-9), f"is_unitary of {f} times a unitary")
    for shape in ((n, n - 1), (n - 1, n), (n, 1)):
        if shape[0] != shape[1]:
            rect = u[: shape[0], : shape[1]]
            ctx.raises(lambda: is_unitary(rect, 1e-9), f"is_unitary of a {shape} matrix")
            ctx.raises(lambda: is_identity(rect, 1e-9), f"is_identity of a {shape} matrix")
            ctx.raises(lambda: compare_unitary(u, rect, 1e-9), f"compare_unitary with a {shape} matrix")
    ctx.state(tuple(map(str, case)))


# ---- random objects ------------------------------------------------------------------------------
class Abandon(Exception):
    pass


def gen_random(tier):
    for kind in ("qubit", "ising"):
        for n, t in ((0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (() if tier == "quick" else ((1, 3), (1, 4))):
            if kind == "qubit" and (n, t) == (2, 2) and tier == "quick":
                continue
            yield [kind, n, t]


def step_random(ctx, case):
    kind, n, t = case
    make, cls = (create_random_qubitop, QubitOperator) if kind == "qubit" else (create_random_isingop, IsingOperator)
    limit = {0: 99, 1: 99, 2: 5, 3: 8}[n] * max(t, 1)
    reached = set()

    def body(ch):
        rs = []

        def choice(seq):
            seq = list(seq)
            r = seq[ch.choose(len(seq))]
            rs.append(r)
            if len(rs) > limit + t:
                raise Abandon
            return r

        old = random.choice
        random.choice = choice
        try:
            return make(n, t), rs
        except Abandon:
            return None, rs
        finally:
            random.choice = old

    for ch, (op, rs) in ref.explore_choices(body):
        ctx.step()
        if op is None:
            ctx.outcome("still drawing")
            continue
        ctx.outcome("complete")
        ctx.check(type(op) is cls, f"{kind}: wrong kind of operator")
        total = 0
        for term, c in op.terms.items():
            total += c
            ctx.check(c == int(c.real if isinstance(c, complex) else c) and abs(c) >= 1, lambda: f"coefficient {c} in {op}")
            qs = [q for q, _ in term]
            ctx.check(qs == sorted(set(qs)) and all(0 <= q < n for q in qs), lambda: f"term {term} for {n} qubits")
            ctx.check(all(p in ("XYZ" if kind == "qubit" else "Z") for _, p in term), lambda: f"term {term} of an {kind} operator")
        ctx.check(total == t, lambda: f"{t} terms asked for, the coefficients add up to {total}: {op}")
        reached.add(tuple(sorted((k, complex(v)) for k, v in op.terms.items())))
    if t == 1:
        ctx.eq(len(reached), (4 if kind == "qubit" else 2) ** n, f"number of different {kind} operators of one term on {n} qubits")
    ctx.state(tuple(case) + (len(reached),))


def gen_wave(tier):
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        yield [n]


def step_wave(ctx, case):
    n = case[0]
    points = (0.0, 0.5, 1 - 2 ** -40) if n < 2 else (0.25, 0.5) if n == 2 else (0.25,)

    def body(ch):
        with closed(ch, points=points) as src:
            try:
                return create_random_wavefunction(n), None
            except Exception as e:
                return None, e

    for ch, (w, e) in ref.explore_choices(body):
        ctx.step()
        if w is None:
            vals = [points[i] for i in ch.trace]
            ctx.check(not any(vals), lambda: f"{n} qubits with draws {vals}: {e!r}")
            ctx.outcome("only zeros drawn")
            continue
        ctx.outcome("complete")
        v = np.array(w.amplitudes).flatten()
        ctx.eq(len(v), 2 ** n, "number of amplitudes")
        ctx.check(abs(np.sum(np.abs(v) ** 2) - 1) < 1e-9, "the wavefunction is not normalized")
        vals = [points[i] for i in ch.trace]
        raw = np.array([complex(a, b) for a, b in zip(vals[: 2 ** n], vals[2 ** n:])])
        ctx.check(np.max(np.abs(raw / np.linalg.norm(raw) - v)) < 1e-9, lambda: f"amplitudes for draws {vals}: {v}")
    ctx.state(n)


def gen_seed(tier):
    hist = range(3) if tier == "quick" else range(4)
    for what in ("qubit", "ising", "wave"):
        for seed in (0, 1, 7, 2 ** 31):
            for other in hist:
                yield [what, seed, other]


def step_seed(ctx, case):
    what, seed, other = case
    make = {"qubit": lambda **k: create_random_qubitop(3, 4, **k), "ising": lambda **k: create_random_isingop(3, 4, **k), "wave": lambda **k: create_random_wavefunction(2, **k)}[what]

    def image(o):
        return list(np.array(o.amplitudes).flatten()) if what == "wave" else o.terms

    a = image(make(seed=seed))
    for _ in range(other):
        make()
        random.random(), np.random.rand()
    b = image(make(seed=seed))
    ctx.step(2 + other)
    ctx.check(a == b, lambda: f"{what}: seed {seed} used twice gives {a} and {b}", key="seed-zero" if what == "wave" and seed == 0 else None)
    ctx.state(tuple(case))


FRESH = zqfresh.Fresh(zqfreshlist.C37)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("pairs", gen_pairs, step_pairs, "all pairs of one-qubit gate words of length 2 (thorough 3), two-qubit words of length 2 and three-level monomial matrices, with five phases, as complex, real and integer arrays and matrices"),
    Space("near", gen_near, step_near, "every such matrix with each deviation of one diagonal phase or one rotation by 0, 1e-11, 2e-3, 0.5, pi/2, pi, each element changed, rescaled and cut to rectangles"),
    Space("random-operators", gen_random, step_random, "all answers of the random source for up to 3 qubits and 2 terms (draws until a new qubit is found bounded)"),
    Space("random-wavefunctions", gen_wave, step_wave, "all draws from three points for up to 1 qubit, from two points for 2 qubits"),
    Space("seeds", gen_seed, step_seed, "four seeds, histories of up to 2 other draws in between"),
]
