"""C10: estimates from shots are the textbook estimators."""
import collections
import copy
import itertools
import math
import warnings

import numpy as np

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.measurement import (ExpectationValues, Measurements, Parities, check_parity, check_parity_of_vector,
                                       concatenate_expectation_values, convert_bitstring_to_int, expectation_values_to_real,
                                       get_expectation_value_from_frequencies, get_expectation_values_from_parities,
                                       get_parities_from_measurements)
from zquantum.core.openfermion import IsingOperator, QubitOperator

ID = "C10"
ASSUMPTIONS = ["coefficients are real numbers (of any numeric type, also complex with zero imaginary part)",
               "Bessel's correction is asked for only with two or more shots"]
TECHNIQUE = "exhaustive enumeration of shot multisets, their orders and operators against directly computed estimators"

TERMS = {1: [(), (0,)], 2: [(), (0,), (1,), (0, 1)], 3: [(), (0,), (2,), (0, 1), (1, 2), (0, 1, 2)]}


def mk(terms):
    op = IsingOperator()
    for t, c in terms:
        op += IsingOperator(tuple((q, "Z") for q in t), c)
    return op


def sgn(b, t):
    return (-1) ** sum(b[q] for q in t)


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) < 1e-9)))


def ops_for(n):
    """operators as lists of (term, coefficient); the coefficient types and repetitions vary"""
    T = TERMS[n]
    out = [[]]
    cs = [1.5, -2, 0.75, np.float64(-0.3), 1 + 0j]
    for r in (1, 2, 3):
        for j, c in enumerate(itertools.permutations(T, r) if n < 3 or r < 3 else itertools.combinations(T, r)):
            out.append([(t, cs[(i + j) % 5]) for i, t in enumerate(c)])
    out.append([(T[1], 0.5), (T[1], 0.25), (T[0], -1), (T[0], 3.0)])
    return out


def gen_est(tier):
    for n, sizes in ((1, range(1, 7)), (2, range(1, 5)), (3, range(1, 3))) if tier == "quick" else ((1, range(1, 12)), (2, range(1, 8)), (3, range(1, 5))):
        for k in sizes:
            for c in itertools.combinations_with_replacement(range(1 << n), k):
                yield [n, list(c)]


def textbook(shots, terms):
    """terms: ordered dict term->coef"""
    N = len(shots)
    ts = list(terms.items())
    ev = [c * sum(sgn(b, t) for b in shots) / N for t, c in ts]
    co = [[c1 * c2 * sum(sgn(b, t1) * sgn(b, t2) for b in shots) / N for t2, c2 in ts] for t1, c1 in ts]
    return ev, co


def step_est(ctx, case):
    n, idx = case
    shots = [ref.bits(i, n) for i in idx]
    N = len(shots)
    ctx.state((n, tuple(idx)))
    for terms in ops_for(n):
        op = mk(terms)
        before = dict(op.terms)
        order = [tuple(q for q, _ in k) for k in op.terms]
        acc = collections.OrderedDict()
        for t, c in terms:
            acc[t] = acc.get(t, 0) + c
        ctx.eq(sorted(order), sorted(acc), "terms of the operator")
        ev, co = textbook(shots, collections.OrderedDict((t, acc[t]) for t in order))
        what = f"shots {shots}, operator {terms}"
        variants = [list(shots), list(reversed(shots))]
        if N > 2:
            variants.append(shots[1:] + shots[:1])
        for vi, vs in enumerate(variants):
            m = Measurements(list(vs)) if vi != 1 else Measurements([tuple(np.int8(x) for x in b) for b in vs])
            for bessel in (False, True):
                if bessel and N < 2:
                    continue
                r = m.get_expectation_values(op, use_bessel_correction=bessel)
                ctx.step()
                ctx.check(close(r.values, ev), lambda: f"{what}: values {r.values}, expected {ev}")
                ctx.check(len(r.correlations) == 1 and close(r.correlations[0], np.array(co).reshape(len(order), len(order))),
                          lambda: f"{what}: correlations {r.correlations}, expected {co}")
                cov = [[(co[i][j] - ev[i] * ev[j]) / (N - 1 if bessel else N) for j in range(len(order))] for i in range(len(order))]
                ctx.check(len(r.estimator_covariances) == 1 and close(r.estimator_covariances[0], np.array(cov).reshape(len(order), len(order))),
                          lambda: f"{what} bessel={bessel}: covariances {r.estimator_covariances}, expected {cov}")
            if vi == 2:
                break
        m2 = Measurements.from_counts({"".join(map(str, b)): c for b, c in collections.Counter(reversed(shots)).items()})
        r2 = m2.get_expectation_values(op)
        ctx.check(close(r2.values, ev), f"{what}: values from counts")
        # parities
        p = get_parities_from_measurements(list(shots), op)
        wantp = [[sum(1 for b in shots if sgn(b, t) == 1), sum(1 for b in shots if sgn(b, t) == -1)] for t in order]
        ctx.check(np.array_equal(np.array(p.values).reshape(len(order), -1) if order else [], wantp if order else []), lambda: f"{what}: parities {p.values}, expected {wantp}")
        for i, t1 in enumerate(order):
            for j, t2 in enumerate(order):
                w = [sum(1 for b in shots if sgn(b, t1) * sgn(b, t2) == s) for s in (1, -1)]
                ctx.check(list(p.correlations[0][i, j]) == w, lambda: f"{what}: pair parities of {t1}, {t2}: {p.correlations[0][i, j]}, expected {w}")
        if order:
            pe = get_expectation_values_from_parities(p)
            ctx.check(close(pe.values, [e / acc[t] for e, t in zip(ev, order)]), f"{what}: values from parities")
            pp = get_parities_from_measurements(list(reversed(shots)), op)
            ctx.check(np.array_equal(pp.values, p.values) and np.array_equal(pp.correlations[0], p.correlations[0]), f"{what}: parities depend on shot order")
        ctx.eq(dict(op.terms), before, f"{what}: operator changed")
    vec = np.array(shots)
    cnt = collections.Counter("".join(map(str, b)) for b in shots)
    for t in [tuple(x) for r in range(n + 1) for x in itertools.permutations(range(n), r)]:
        w = sum(sgn(b, t) for b in shots) / N
        for mq in (t, list(t), set(t)):
            ctx.check(abs(get_expectation_value_from_frequencies(mq, dict(cnt)) - w) < 1e-12, f"frequency estimate of {mq} for {shots}")
        ctx.eq([int(x) for x in check_parity_of_vector(vec, t)], [1 if sgn(b, t) == 1 else 0 for b in shots], f"parity vector of {t}")
        for b in shots:
            ctx.eq((bool(check_parity(b, t)), bool(check_parity("".join(map(str, b)), t))), (sgn(b, t) == 1,) * 2, f"parity of {b} on {t}")
    for b in shots:
        ctx.eq(convert_bitstring_to_int(b), sum(x << i for i, x in enumerate(b)), f"integer of {b}")
    m = Measurements(list(shots))
    ctx.raises(lambda: m.get_expectation_values(QubitOperator("Z0")), "a general operator", TypeError)
    ctx.raises(lambda: get_parities_from_measurements(list(shots), QubitOperator("Z0")), "a general operator", TypeError)


def gen_par(tier):
    for N in (1, 2, 3, 10, 99, 100, 101, 120) + (() if tier == "quick" else (1000,)):
        for a in range(N + 1):
            yield [a, N - a]
    yield [0, 0]


def step_par(ctx, case):
    a, b = case
    ctx.step()
    ctx.state(tuple(case))
    N = a + b
    if N == 0:
        ctx.raises(lambda: get_expectation_values_from_parities(Parities(np.array([[1, 1], [0, 0]]))), "no samples", ValueError)
        return
    r = get_expectation_values_from_parities(Parities(np.array([[a, b], [b, a], [1, 0]])))
    v = (a - b) / N
    ctx.check(close(r.values, [v, -v, 1.0]), lambda: f"parities {case}: {r.values}")
    p = a / N
    for q, pc in ((0, p), (1, 1 - p)):
        if abs(pc - 0.1) < 1e-12 or abs(pc - 0.9) < 1e-12:
            continue  # on the edge rounding decides
        var = 4 * pc * (1 - pc) / N if N >= 100 and 0.1 <= pc <= 0.9 else 1 / N
        ctx.check(close(r.estimator_covariances[q], [[var]]), lambda: f"parities {case}: variance {r.estimator_covariances[q]}, expected {var}")
    ctx.eq(len(r.estimator_covariances), 3, "number of covariances")


def pool():
    a = np.array
    return [lambda: ExpectationValues(a([1.0, 2.0])),
            lambda: ExpectationValues(a([])),
            lambda: ExpectationValues(a([3.0]), [a([[1.0]])]),
            lambda: ExpectationValues(a([4.0, 5.0]), [a([[1.0, 2.0], [2.0, 3.0]])], [a([[0.1, 0.2], [0.2, 0.3]])]),
            lambda: ExpectationValues(a([6.0]), None, [a([[0.5]])]),
            lambda: ExpectationValues(a([7.0, 8.0]), [a([[1.0]]), a([[2.0]])], [a([[0.25]]), a([[0.75]])])]


def gen_cat(tier):
    for r in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(6), repeat=r):
            yield list(c)


def frames(x):
    return [y.tolist() for y in x] if x else []


def step_cat(ctx, case):
    ctx.step()
    ctx.state(tuple(case))
    P = pool()
    parts = [P[i]() for i in case]
    snap = copy.deepcopy(parts)
    for src in (parts, iter(parts), tuple(parts)):
        r = concatenate_expectation_values(src)
        ctx.eq(list(r.values), [v for p in snap for v in p.values], f"values of {case}")
        ctx.eq(frames(r.correlations), [f for p in snap for f in frames(p.correlations)], f"correlations of {case}")
        ctx.eq(frames(r.estimator_covariances), [f for p in snap for f in frames(p.estimator_covariances)], f"covariances of {case}")
        for p, s in zip(parts, snap):
            ctx.check(list(p.values) == list(s.values) and frames(p.correlations) == frames(s.correlations)
                      and frames(p.estimator_covariances) == frames(s.estimator_covariances), f"{case}: parts changed")


def gen_real(tier):
    v = [1.5, -2 + 0j, 0.25 + 1e-9j, 0.5j]
    for r in range(0, 4):
        for c in itertools.product(range(4), repeat=r):
            for d in range(3):
                yield [list(c), d]


def step_real(ctx, case):
    c, d = case
    v = [[1.5, -2 + 0j, 0.25 + 1e-9j, 0.5j][i] for i in c]
    ctx.step()
    ctx.state((tuple(c), d))
    cor = [None, [np.array([[1.0, 2.0]])], [np.array([[1 + 2j]]), np.array([[3 + 0j, 1j]])]][d]
    cov = [None, [np.array([[0.5]])], None][d]
    e = ExpectationValues(np.array(v), copy.deepcopy(cor), copy.deepcopy(cov))
    r = expectation_values_to_real(e)
    ctx.check(not np.iscomplexobj(r.values) or not len(v), f"{v}: values stay complex")
    ctx.eq([float(x) for x in r.values], [complex(x).real for x in v], f"real values of {v}")
    ctx.check(all(not np.iscomplexobj(x) for x in r.correlations or []), "correlations stay complex")
    ctx.eq(frames(r.correlations), [x.real.tolist() for x in cor or []], "real correlations")
    ctx.eq(frames(r.estimator_covariances), frames(cov), "covariances")


BIG = [1, 2, 127, 128, 255, 256, 1000, 32767, 32768, 40000, 65535, 65536, 70000]


def gen_large(tier):
    for a in BIG:
        for b in BIG if tier != "quick" else (0, 1, 128, 32768, 65536):
            for n in (1, 2, 3):
                yield ["counts", n, a, b]
    for n in (8, 9, 10, 11, 16, 31, 32, 33, 63, 64, 65, 100, 130):
        for k in range(6):
            yield ["wide", n, k, 0]
    for n in range(2, 7 if tier == "quick" else 9):
        yield ["terms", n, 0, 0]
    for a in (2**31 - 1, 2**31, 2**32, 2**40):
        yield ["huge", 2, a, 3]


def step_large(ctx, case):
    """exact estimators for large counts, wide registers and many terms"""
    kind, n, a, b = case
    ctx.step()
    ctx.state(tuple(case))
    if kind == "huge":
        f = get_expectation_value_from_frequencies([0, 1], {"01": a, "11": b, "10": a})
        ctx.check(abs(f - (b - 2 * a) / (2 * a + b)) < 1e-12, f"{case}: {f}")
        return
    if kind == "counts":
        cnt = {"1" * n: a, "0" * n: b} if b else {"1" * n: a}
        terms = [((), 0.5), ((0,), 2.0), (tuple(range(n)), -1.5)]
        terms = terms if n > 1 else terms[:2]
    elif kind == "wide":
        pats = [[0, 1], [n - 1], [0, n - 1], list(range(0, n, 2)), list(range(n)), [n // 2, n - 2]]
        cnt = {}
        for j, pat in enumerate(pats):
            if j == b or (a + j) % 3:
                key = "".join("1" if i in pat else "0" for i in range(n))
                cnt[key] = cnt.get(key, 0) + j + 1
        terms = [((n - 1,), 1.0), ((0,), -1.0), (tuple(pats[a]), 0.5), ((), 2), (tuple(range(n)), 0.25), ((2, n - 3), 3.0), ((n - 2,), 0.125)]
    else:
        # every term of the register at once, in a scrambled order
        cnt = {"".join(map(str, ref.bits(i, n))): 1 + (i * 7) % 5 for i in range(0, 1 << n, 3)}
        al = [tuple(q for q in range(n) if (m >> q) & 1) for m in range(1 << n)]
        terms = [(al[(i * 5 + 3) % len(al)], 0.1 * (i + 1)) for i in range(len(al))]
    N = sum(cnt.values())
    acc = collections.OrderedDict()
    for t, c in terms:
        t = tuple(sorted(t))
        acc[t] = acc.get(t, 0) + c
    op = mk(list(acc.items()))
    pairs = [(tuple(int(x) for x in k), c) for k, c in cnt.items()]
    order = [tuple(q for q, _ in k) for k in op.terms]
    ctx.eq(sorted(order), sorted(acc), "terms of the operator")
    m = Measurements.from_counts(dict(cnt))
    ctx.eq(m.get_counts(), cnt, f"counts of {case}")
    ctx.eq(len(m.bitstrings), N, f"number of shots of {case}")
    S = {t: [sgn(x, t) for x, _ in pairs] for t in order}
    w = [c for _, c in pairs]
    ev = [acc[t] * sum(x * y for x, y in zip(S[t], w)) / N for t in order]
    co = [[acc[t1] * acc[t2] * sum(x * y * z for x, y, z in zip(S[t1], S[t2], w)) / N for t2 in order] for t1 in order]
    for bessel in (False, True):
        if bessel and N < 2:
            continue
        r = m.get_expectation_values(op, use_bessel_correction=bessel)
        cov = [[(co[i][j] - ev[i] * ev[j]) / (N - 1 if bessel else N) for j in range(len(order))] for i in range(len(order))]
        ctx.check(close(r.values, ev), lambda: f"{case}: values {r.values}, expected {ev}")
        ctx.check(close(r.correlations[0], co), lambda: f"{case}: correlations differ")
        ctx.check(close(np.array(r.estimator_covariances[0]) * N, np.array(cov) * N), lambda: f"{case}: covariances differ")
    p = get_parities_from_measurements(m.bitstrings, op)
    for i, t in enumerate(order):
        even = sum(c for x, c in zip(S[t], w) if x == 1)
        ctx.eq([int(x) for x in p.values[i]], [even, N - even], f"{case}: parities of {t}")
        for j, t2 in enumerate(order):
            even = sum(c for x, y, c in zip(S[t], S[t2], w) if x * y == 1)
            ctx.eq([int(x) for x in p.correlations[0][i, j]], [even, N - even], f"{case}: parities of the pair {t}, {t2}")
    e = get_expectation_values_from_parities(p)
    ctx.check(close(e.values, [v / acc[t] for v, t in zip(ev, order)]), f"{case}: values from parities")
    d = m.get_distribution().distribution_dict
    ctx.check(set(d) == {x for x, _ in pairs} and all(abs(d[x] - c / N) < 1e-12 for x, c in pairs), f"{case}: distribution")


FRESH = zqfresh.Fresh(zqfreshlist.C10)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("estimates", gen_est, step_est, "every multiset of up to 6/4/2 (thorough 11/7/4) shots on 1/2/3 qubits in 2-3 orders, every ordered choice of up to 3 terms"),
    Space("parities", gen_par, step_par, "every split of 1,2,3,10,99,100,101,120 (thorough also 1000) shots into even and odd"),
    Space("concatenation", gen_cat, step_cat, "every sequence of up to 3 (thorough 4) of 6 expectation-value objects with and without frames"),
    Space("real", gen_real, step_real, "every vector of up to 3 real/complex values with three kinds of frames"),
    Space("large", gen_large, step_large, "counts of up to 70000 per outcome around every power of two of machine integers, frequencies up to 2^40, registers of up to 130 qubits, all terms of up to 6 (thorough 8) qubits at once"),
]
