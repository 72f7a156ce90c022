"""C33: Hubbard Hamiltonians and unitary coupled cluster generators."""
import itertools

import numpy as np

from checks import zqfresh, zqfreshlist
from mc.core import Space
from zquantum.core.openfermion import FermionOperator
from zquantum.core.openfermion.circuits.unitary_cc import uccsd_convert_amplitude_format, uccsd_generator, uccsd_singlet_generator, uccsd_singlet_get_packed_amplitudes, uccsd_singlet_paramsize
from zquantum.core.openfermion.hamiltonians import general_hubbard
from zquantum.core.openfermion.hamiltonians.hubbard import fermi_hubbard
from zquantum.core.openfermion.hamiltonians.special_operators import number_operator

ID = "C33"
ASSUMPTIONS = ["singlet amplitude arrays hold the same amplitude for every spin combination", "both amplitude arguments have the same form (lists or arrays)", "sites are numbered row by row, spin-up modes are even"]
TECHNIQUE = "exhaustive enumeration of lattices, couplings and amplitude patterns, compared as normal-ordered polynomials with the sums in the definitions"


# ---- reference algebra: normal-ordered polynomials ---------------------------------------------------
def normal(word, c, out):
    """adds c*word (tuple of (mode, 1/0)) to the dictionary of normal-ordered words, descending in each half"""
    work = [(list(word), c)]
    while work:
        w, c = work.pop()
        i = 1
        while i < len(w):
            (p, a), (q, b) = w[i - 1], w[i]
            if a == 0 and b == 1:
                if p == q:
                    work.append((w[: i - 1] + w[i + 1:], c))
                w[i - 1], w[i], c = (q, b), (p, a), -c
                i = max(i - 1, 1)
            elif a == b and p == q:
                break
            elif a == b and p < q:
                w[i - 1], w[i], c = (q, b), (p, a), -c
                i = max(i - 1, 1)
            else:
                i += 1
        else:
            k = tuple(w)
            out[k] = out.get(k, 0) + c
    return out


def poly(items):
    out = {}
    for w, c in items.items() if hasattr(items, "items") else items:
        normal(w, c, out)
    return out


def same(a, b, tol=1e-7):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


def conj(p):
    return poly((tuple((m, 1 - a) for m, a in reversed(w)), np.conj(c)) for w, c in p.items())


def n_(m):
    return ((m, 1), (m, 0))


def prod(a, b):
    return [(w + v, c * d) for w, c in a for v, d in b]


# ---- Hubbard models -----------------------------------------------------------------------------------
def edges(x, y, periodic):
    out = set()
    for r in range(y):
        for c in range(x):
            for nr, nc in ((r, c + 1), (r + 1, c)):
                if periodic:
                    nr, nc = nr % y, nc % x
                if nr < y and nc < x and (nr, nc) != (r, c):
                    out.add(frozenset((r * x + c, nr * x + nc)))
    return out


def density(m, phs):
    return [(n_(m), 1.0)] + ([((), -0.5)] if phs else [])


def hubbard(x, y, t, u, mu, h, periodic, spinless, phs):
    out = []
    for e in edges(x, y, periodic):
        i, j = sorted(e)
        for s in (0,) if spinless else (0, 1):
            p, q = (i, j) if spinless else (2 * i + s, 2 * j + s)
            out += [(((p, 1), (q, 0)), -t), (((q, 1), (p, 0)), -t)]
        if spinless:
            out += [(w, u * c) for w, c in prod(density(i, phs), density(j, phs))]
    for i in range(x * y):
        if spinless:
            out.append((n_(i), -mu))
        else:
            out += [(w, u * c) for w, c in prod(density(2 * i, phs), density(2 * i + 1, phs))]
            out += [(n_(2 * i), -mu - h), (n_(2 * i + 1), -mu + h)]
    return poly(out)


VALUES = [(1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0), (0.0, 0.0, 0.0, 1.0), (1.5, 4.25, -0.75, 0.375), (-2, 3, 1, 2), (0.5, -1.0, 0.25, -3.0)]


def gen_hubbard(tier):
    top = 4 if tier == "quick" else 6
    for x in range(1, top + 1):
        for y in range(1, top + 1):
            if x * y <= (16 if tier == "quick" else 24):
                yield [x, y]
    for x, y in ([7, 1], [1, 7], [6, 2], [2, 6], [5, 3], [3, 5]):
        if max(x, y) > top:
            yield [x, y]


def step_hubbard(ctx, case):
    x, y = case
    for periodic, spinless, phs in itertools.product((True, False), repeat=3):
        for vals in VALUES:
            t, u, mu, h = vals
            ctx.state((x, y, periodic, spinless, phs, vals))
            op = fermi_hubbard(x, y, t, u, mu, h, periodic, spinless, phs)
            ctx.step()
            what = lambda: f"{x} x {y} Hubbard model, t, U, mu, h = {vals}, periodic={periodic}, spinless={spinless}, particle-hole={phs}"  # noqa: E731
            got = poly(op.terms)
            want = hubbard(x, y, t, u, mu, h, periodic, spinless, phs)
            ctx.check(same(got, want), lambda: what() + f": {sorted(op.terms.items())}")
            ctx.check(same(conj(got), got), lambda: what() + " is not Hermitian")
            ctx.outcome(len(op.terms))
    # defaults: no chemical potential, no field, periodic, with spin, no particle-hole symmetry
    ctx.check(same(poly(fermi_hubbard(x, y, 2.0, 3.0).terms), hubbard(x, y, 2.0, 3.0, 0, 0, True, False, False)), f"defaults of the {x} x {y} model")
    ctx.check(same(poly(fermi_hubbard(x, y, 2.0, 3.0, spinless=True, magnetic_field=5.0).terms), hubbard(x, y, 2.0, 3.0, 0, 0, True, True, False)), f"field on the spinless {x} x {y} model")
    for periodic, spinless in itertools.product((True, False), repeat=2):
        got = poly(fermi_hubbard(x, y, 0.5 + 1.25j, 1.0, periodic=periodic, spinless=spinless).terms)
        ctx.check(same(conj(got), got), f"complex hopping on the {x} x {y} model is not Hermitian")


def gen_number(tier):
    for n in range(0, 6 if tier == "quick" else 9):
        yield [n]


def step_number(ctx, case):
    (n,) = case
    ctx.state(n)
    for c in (1.0, -2.5, 0.5j, 3):
        ctx.check(same(poly(number_operator(n, coefficient=c).terms), poly([(n_(m), c) for m in range(n)])), f"number of particles in {n} modes, coefficient {c}")
        for m in range(n):
            ctx.step()
            ctx.check(same(poly(number_operator(n, m, c).terms), poly([(n_(m), c)])), f"number operator of mode {m} of {n}")
            for phs in (True, False):
                want = [(w, c * x) for w, x in density(m, phs)]
                ctx.check(same(poly(general_hubbard.number_operator(m, c, phs).terms), poly(want)), f"number operator of mode {m}, coefficient {c}, particle-hole={phs}")
                for k in range(n):
                    got = general_hubbard.interaction_operator(m, k, c, phs)
                    ctx.check(same(poly(got.terms), poly(prod(want, density(k, phs)))), f"interaction of modes {m}, {k}, coefficient {c}, particle-hole={phs}: {got}")
    ctx.check(same(poly(number_operator(n).terms), poly([(n_(m), 1.0) for m in range(n)])), "default coefficient")
    for parity in (1, 0, 2, -2):
        ctx.raises(lambda: number_operator(n, 0, 1.0, parity), f"parity {parity}", ValueError)


# ---- coupled cluster ------------------------------------------------------------------------------------
def gen_lists(tier):
    n = 3 if tier == "quick" else 4
    singles = list(itertools.product(range(n), repeat=2))
    doubles = list(itertools.product(range(n), repeat=4))
    for s in range(len(singles)):
        for part in range(4):
            yield [n, s, part]


AMPS = [0.5, -1.25, 2.0, 0.375j, 1 - 2j]


def step_lists(ctx, case):
    n, s, part = case
    single = list(itertools.product(range(n), repeat=2))[s]
    doubles = list(itertools.product(range(n), repeat=4))[part::4]
    ctx.state(case)
    for k, d in enumerate(doubles):
        t1, t2, t3 = AMPS[(s + k) % 5], AMPS[(s + 2 * k + 1) % 5], AMPS[(k + 2) % 5]
        other = ((single[1] + 1) % n, single[0])
        amps1 = {single: t1}
        if k % 2:
            amps1[other] = amps1.get(other, 0) + t3
        d2 = (d[3], d[1], d[0], d[2])
        amps2 = {d: t2}
        if k % 3 == 0:
            amps2[d2] = amps2.get(d2, 0) + t3
        a1, a2 = np.zeros((n,) * 2, dtype=complex), np.zeros((n,) * 4, dtype=complex)
        for i, v in amps1.items():
            a1[i] = v
        for i, v in amps2.items():
            a2[i] = v
        l1, l2 = [[list(i), v] for i, v in amps1.items() if v], [[list(i), v] for i, v in amps2.items() if v]
        if all(np.imag(v) == 0 for v in list(amps1.values()) + list(amps2.values())) and k % 2:
            a1, a2 = a1.real.copy(), a2.real.copy()
        b1, b2 = a1.copy(), a2.copy()
        c1, c2 = uccsd_convert_amplitude_format(a1, a2)
        ctx.step()
        for got, want in ((c1, l1), (c2, l2)):
            ctx.check(sorted((tuple(int(x) for x in i), complex(v).real, complex(v).imag) for i, v in got) == sorted((tuple(i), complex(v).real, complex(v).imag) for i, v in want), lambda: f"list of amplitudes {want}: {got}")
        up = [(((i, 1), (j, 0)), v) for (i, j), v in amps1.items()]
        up += [(((i, 1), (j, 0), (k_, 1), (l, 0)), v) for (i, j, k_, l), v in amps2.items()]
        down = [(tuple((m, 1 - a) for m, a in reversed(w)), -v) for w, v in up]
        for anti in (True, False):
            want = poly(up + down if anti else up)
            for got in (uccsd_generator(a1, a2, anti), uccsd_generator(l1, l2, anti), uccsd_generator(tuple(l1), tuple(l2), anti_hermitian=anti)):
                ctx.step()
                ctx.check(same(poly(got.terms), want), lambda: f"generator of {amps1} and {amps2}, anti-Hermitian {anti}: {got}")
        ctx.check(same(poly(uccsd_generator(l1, l2).terms), poly(up + down)), "generators are anti-Hermitian by default")
        if all(np.imag(v) == 0 for v in list(amps1.values()) + list(amps2.values())):
            g = poly(uccsd_generator(a1, a2).terms)
            ctx.check(same(conj(g), {k_: -v for k_, v in g.items()}), "the generator is not anti-Hermitian")
        ctx.check(np.array_equal(a1, b1) and np.array_equal(a2, b2), "the amplitudes were changed")


def pairs(n, e):
    occ = -(-e // 2)
    return [(v, o) for v in range(occ, n // 2) for o in range(occ)], occ


def single_exc(v, o):
    return [(((2 * v + s, 1), (2 * o + s, 0)), 1.0) for s in (0, 1)]


def singlet(packed, n, e, anti):
    ps, _ = pairs(n, e)
    up = []
    k = len(ps)
    for t, (v, o) in zip(packed[:k], ps):
        up += [(w, t) for w, _ in single_exc(v, o)]
    for t, (v, o) in zip(packed[k:2 * k], ps):
        for s in (0, 1):
            up.append((((2 * v + s, 1), (2 * o + s, 0), (2 * v + 1 - s, 1), (2 * o + 1 - s, 0)), t))
    for t, (a, b) in zip(packed[2 * k:], itertools.combinations(ps, 2)):
        up += [(w, t) for w, _ in prod(single_exc(*a), single_exc(*b))]
    if anti:
        up += [(tuple((m, 1 - a) for m, a in reversed(w)), -c) for w, c in up]
    return up


def gen_singlet(tier):
    for n in range(0, 9 if tier == "quick" else 11):
        for e in range(0, n + 1):
            yield [n, e]


def apply_(word, state):
    """ladder operators on a set of occupied modes (int mask); returns mask, sign or None"""
    sign = 1
    for m, a in reversed(word):
        if bool(state >> m & 1) == bool(a):
            return None
        if bin(state & ((1 << m) - 1)).count("1") % 2:
            sign = -sign
        state ^= 1 << m
    return state, sign


def act(p, vec):
    out = {}
    for st, x in vec.items():
        for w, c in p:
            r = apply_(w, st)
            if r:
                out[r[0]] = out.get(r[0], 0) + r[1] * c * x
    return {k: v for k, v in out.items() if abs(v) > 1e-9}


def step_singlet(ctx, case):
    n, e = case
    ctx.state((n, e))
    if n % 2:
        ctx.raises(lambda: uccsd_singlet_paramsize(n, e), "an odd number of modes", ValueError)
        ctx.raises(lambda: uccsd_singlet_generator([1.0] * 50, n, e), "an odd number of modes", ValueError)
        return
    ps, occ = pairs(n, e)
    size = len(ps) + len(ps) * (len(ps) + 1) // 2
    got = uccsd_singlet_paramsize(n, e)
    ctx.check(int(got) == got == size, f"{got} amplitudes for {n} modes and {e} electrons instead of {size}")
    patterns = [[float(i == j) for i in range(size)] for j in range(size)] if n <= 8 else []
    patterns += [[0.25 * (i + 1) * (-1) ** i for i in range(size)], [0.0] * size, np.linspace(-1, 1, size) ** 3, tuple(0.5 for _ in range(size))]
    # total spin: S+ = sum a+_up a_down; a singlet operator commutes with S+, S- and the numbers of up and down electrons
    raise_ = [(((2 * i, 1), (2 * i + 1, 0)), 1.0) for i in range(n // 2)]
    for pk in patterns:
        vals = [float(x) for x in pk]
        for anti in (True, False):
            gen = uccsd_singlet_generator(pk, n, e, anti)
            ctx.step()
            want = poly(singlet(vals, n, e, anti))
            ctx.check(same(poly(gen.terms), want), lambda: f"singlet generator of {vals} for {n} modes, {e} electrons, anti-Hermitian {anti}: {gen}")
            items = list(gen.terms.items())
            for w, _ in items:
                for s in (0, 1):
                    ctx.check(sum((1 if a else -1) for m, a in w if m % 2 == s) == 0, lambda: f"{w} changes the number of electrons of one spin")
            if n <= 6:
                for st in range(1 << n):
                    ab, ba = act(items, act(raise_, {st: 1.0})), act(raise_, act(items, {st: 1.0}))
                    ctx.check(all(abs(ab.get(k, 0) - ba.get(k, 0)) < 1e-9 for k in set(ab) | set(ba)), lambda: f"the generator of {vals} for {n} modes, {e} electrons mixes spins")
        g = poly(uccsd_singlet_generator(pk, n, e).terms)
        ctx.check(same(conj(g), {k: -v for k, v in g.items()}), "the singlet generator is not anti-Hermitian")
        # arrays with the same amplitude for every spin combination
        a1, a2 = np.zeros((n,) * 2), np.zeros((n,) * 4)
        k = len(ps)
        for t, (v, o) in zip(vals[:k], ps):
            for s in (0, 1):
                a1[2 * v + s, 2 * o + s] = t
        for t, (v, o) in zip(vals[k:2 * k], ps):
            for s in (0, 1):
                a2[2 * v + s, 2 * o + s, 2 * v + 1 - s, 2 * o + 1 - s] = t
        for t, ((v, o), (w, r)) in zip(vals[2 * k:], itertools.combinations(ps, 2)):
            for s, q in itertools.product((0, 1), repeat=2):
                a2[2 * v + s, 2 * o + s, 2 * w + q, 2 * r + q] = t
        back = uccsd_singlet_get_packed_amplitudes(a1, a2, n, e)
        ctx.step()
        ctx.check([float(x) for x in back] == vals, lambda: f"packed amplitudes {back} instead of {vals}")
        if n:
            ctx.check(same(poly(uccsd_generator(a1, a2).terms), g), lambda: f"the generators from {vals} and from arrays differ")
    if len(ps) > 1:
        ctx.raises(lambda: uccsd_singlet_generator([1.0] * (size - 1), n, e), "too few amplitudes", IndexError)


FRESH = zqfresh.Fresh(zqfreshlist.C33)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("hubbard", gen_hubbard, step_hubbard, "all lattices up to 4x4 (6x4, thorough) and chains of 7, every combination of periodic, spinless and particle-hole symmetric, 7 sets of couplings"),
    Space("numbers", gen_number, step_number, "number and interaction operators on up to 5 (8) modes, 4 coefficients"),
    Space("amplitudes", gen_lists, step_lists, "all single with all double excitations of 3 (4) modes, as lists and arrays, with and without their conjugates"),
    Space("singlet", gen_singlet, step_singlet, "all numbers of modes up to 8 (10) and of electrons, each unit amplitude and 4 mixed patterns; spin symmetry on every occupation of up to 6 modes"),
]
