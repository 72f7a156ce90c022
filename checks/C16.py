"""C16: shot allocation distributes exactly the budget, in proportion."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import estimation as E
from zquantum.core import hamiltonian as H
from zquantum.core.circuits import Circuit
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import QubitOperator
from zquantum.core.utils import scale_and_discretize

ID = "C16"
ASSUMPTIONS = ["at least one weight is positive", "operators contain no negligible coefficients"]
TECHNIQUE = "exhaustive enumeration of weight vectors, budgets and grouped operators against the documented formulas in exact arithmetic"

W = [0, 1, 2, 3, 5, 0.5, 0.1, 0.3, 1e-6, 1e6, 1 / 3]


def gen_scale(tier):
    for L in (1, 2, 3):
        for c in itertools.product(range(len(W)), repeat=L):
            yield [list(c)]
    for L in (4, 5, 6):
        for c in itertools.product((0, 1, 2, 6) if L == 4 or tier == "thorough" else (0, 1, 6), repeat=L):
            yield [list(c)]
    for L in (7, 10, 13):
        yield [[6] * L]
        yield [[10] * L]
        yield [[1, 2, 3, 4, 5, 6, 7][: L % 7 + 1] * 2]


BUDGETS = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 99, 100, 1000, 12345, 10 ** 6 + 1]


def check_share(ctx, got, weights, total, what):
    ctx.eq(len(got), len(weights), f"{what}: number of shares")
    ctx.check(all(isinstance(x, (int, np.integer)) and x >= 0 for x in got), lambda: f"{what}: {got} are not non-negative integers")
    ctx.eq(sum(int(x) for x in got), total, f"{what}: sum of {got}")
    s = sum(Fraction(float(w)) for w in weights)
    for x, w in zip(got, weights):
        share = Fraction(float(w)) * total / s
        ctx.check(abs(x - share) < 1 + Fraction(1, 10 ** 6), lambda: f"{what}: {x} shots for an exact share of {float(share)} in {got}")
        if abs(share - round(share)) < Fraction(1, 10 ** 9) and all(abs(Fraction(float(v)) * total / s - round(Fraction(float(v)) * total / s)) < Fraction(1, 10 ** 9) for v in weights):
            ctx.eq(int(x), int(round(share)), f"{what}: exact integer share")


def step_scale(ctx, case):
    w = [W[i] for i in case[0]]
    ctx.state(tuple(case[0]))
    if sum(w) == 0:
        return
    for total in BUDGETS:
        for form in (list(w), np.array(w, dtype=float), tuple(w)):
            snap = list(form)
            got = scale_and_discretize(form, total)
            ctx.step()
            check_share(ctx, got, w, total, f"{w} scaled to {total}")
            ctx.eq(list(form), snap, "weights changed")


GROUPS = [[(((0, "Z"),), 2.0)], [(((0, "X"),), 1.0), (((1, "X"),), -1.0)], [(((0, "Y"), (1, "Z")), 0.1)], [((), 5.0)], [((), 3.0), (((1, "Z"),), 0.5)],
          [(((1, "Y"),), 3 + 0j), (((0, "Z"),), -4.0)], [(((0, "Z"), (1, "Z")), 1e-3), (((0, "Z"),), 7.0), ((), -1.0)]]
PRIORS = [None, 0.0, 0.5, -0.9, 1.0, "mix"]


def mk(terms):
    op = QubitOperator()
    for t, c in terms:
        op += QubitOperator(t, c)
    return op


def priors(groups, p):
    if p is None:
        return None
    vals = []
    for g in groups:
        for t, _ in GROUPS[g]:
            vals.append(1.0 if t == () else p if p != "mix" else [0.5, -1.0, 0.0, 0.25, -0.75][len(vals) % 5])
    return vals


def gen_alloc(tier):
    for L in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for c in itertools.product(range(len(GROUPS)), repeat=L):
            for p in range(len(PRIORS)):
                yield [list(c), p]


def step_alloc(ctx, case):
    gs, pi = case
    vals = priors(gs, PRIORS[pi])
    ctx.state((tuple(gs), pi))
    ops = [mk(GROUPS[g]) for g in gs]
    circ = [Circuit([zq.real_op(["g", "X", [], [i % 2], []])], n_qubits=2) for i in range(len(gs))]
    tasks = [EstimationTask(o, c, 3 + i) for i, (o, c) in enumerate(zip(ops, circ))]
    var = []
    k = 0
    for g in gs:
        x = 0.0
        for t, c in GROUPS[g]:
            if vals is None:
                x += 0.0 if t == () else abs(c) ** 2
            else:
                x += abs(c) ** 2 * (1 - vals[k] ** 2)
            k += 1
        var.append(x)

    def ev():
        if vals is None:
            return None
        return ExpectationValues(np.array(vals, dtype=complex if pi == 2 else float))

    what = f"groups {gs} with prior values {vals}"
    got = H.compute_group_variances(ops, ev())
    ctx.step()
    ctx.check(len(got) == len(var) and all(abs(a - b) <= 1e-9 * max(1, b) for a, b in zip(got, var)), lambda: f"{what}: variances {got}, expected {var}")
    sq = [math.sqrt(v) for v in var]
    lam = sum(sq)
    K, nterms, frame = H.estimate_nmeas_for_frames(ops, ev())
    want = [lam * s for s in sq]
    ctx.check(all(abs(a - b) <= 1e-9 * max(1, b) for a, b in zip(frame, want)) and len(frame) == len(want), lambda: f"{what}: measurements per group {frame}, expected {want}")
    ctx.check(abs(K - lam ** 2) <= 1e-9 * max(1, lam ** 2), lambda: f"{what}: total {K}, expected {lam ** 2}")
    ctx.eq(nterms, sum(len(GROUPS[g]) for g in gs), f"{what}: number of terms")
    if vals is not None:
        ctx.raises(lambda: H.compute_group_variances(ops, ExpectationValues(np.array(vals + [0.0]))), f"{what}: one value too many", ValueError)
        ctx.raises(lambda: H.compute_group_variances(ops, ExpectationValues(np.array([1.5] + vals[1:]))), f"{what}: value above one", ValueError)
        ctx.raises(lambda: H.compute_group_variances(ops, ExpectationValues(np.array(vals[:-1] + [-1.1]))), f"{what}: value below minus one", ValueError)
    if lam > 0:
        for total in (1, 2, 5, 10, 101, 10000):
            new = E.allocate_shots_proportionally(tasks, total, ev())
            ctx.step()
            check_share(ctx, [t.number_of_shots for t in new], want, total, f"{what}, {total} shots")
            ctx.check(all(n.operator == t.operator and list(n.operator.terms) == list(t.operator.terms) and n.circuit == t.circuit for n, t in zip(new, tasks)),
                      f"{what}: more than the shots changed")
        if vals is None:
            new = E.allocate_shots_proportionally(tasks, 20)
            check_share(ctx, [t.number_of_shots for t in new], want, 20, f"{what}, default prior")
    for bad in (0, -5):
        ctx.raises(lambda: E.allocate_shots_proportionally(tasks, bad, ev()), f"{bad} shots", ValueError)
        ctx.raises(lambda: E.allocate_shots_uniformly(tasks, bad), f"{bad} shots", ValueError)
    for n in (1, 13):
        new = E.allocate_shots_uniformly(tasks, n)
        ctx.check([t.number_of_shots for t in new] == [n] * len(tasks) and all(a.operator == b.operator and a.circuit == b.circuit for a, b in zip(new, tasks)),
                  f"{what}: uniform allocation of {n}")
    ctx.check([t.number_of_shots for t in tasks] == [3 + i for i in range(len(gs))] and all(t.operator is o and dict(o.terms) == dict(mk(GROUPS[g]).terms) for t, o, g in zip(tasks, ops, gs)),
              f"{what}: input tasks changed")


def gen_large(tier):
    for L in (9, 10, 11, 37, 200) if tier == "quick" else (9, 10, 11, 16, 17, 37, 64, 200, 1001):
        for pat in itertools.product((0, 1, 3, 6, 7, 9, 10), repeat=2 if tier == "quick" else 3):
            if any(W[x] for x in pat):
                yield [L, list(pat)]


def step_large(ctx, case):
    """long weight vectors and large budgets"""
    L, pat = case
    w = [W[pat[i % len(pat)]] for i in range(L)]
    ctx.state((L, tuple(pat)))
    for total in (0, 1, 7, L - 1, L, L + 1, 32768, 65537, 10 ** 6 + 1, 2 ** 31 - 1, 2 ** 31, 10 ** 10 + 7):
        if sum(w) == 0:
            return
        for form in (w, np.array(w)):
            got = scale_and_discretize(form, total)
            ctx.step()
            what = f"{L} weights repeating {[W[x] for x in pat]} scaled to {total}"
            ctx.eq(len(got), L, f"{what}: number of shares")
            ctx.eq(sum(int(x) for x in got), total, f"{what}: sum")
            s = math.fsum(w)
            for x, y in zip(got, w):
                share = y / s * total
                ctx.check(isinstance(x, (int, np.integer)) and x >= 0 and abs(x - share) < 1 + 1e-6 + 1e-11 * share, lambda: f"{what}: {x} shots for a share of {share}")


def gen_groups(tier):
    for L in (10, 12, 25) if tier == "quick" else (8, 10, 11, 12, 25, 60):
        for pat in itertools.product(range(len(GROUPS)), repeat=2):
            yield [L, list(pat)]


def step_groups(ctx, case):
    """many groups with many terms each"""
    L, pat = case
    ctx.state((L, tuple(pat)))
    groups = []
    for i in range(L):
        terms = list(GROUPS[pat[i % 2]])
        for k in range(i % 4 * 3):
            terms.append((((2 + k, "Z"),), 0.25 * (k + 1 + i)))
        groups.append(terms)
    ops = [mk(g) for g in groups]
    n = sum(len(g) for g in groups)
    for vals in (None, [math.cos(k + 1.0) for k in range(n)], [1.0] * (n - 1) + [0.5]):
        var, k = [], 0
        for g in groups:
            x = 0.0
            for t, c in g:
                x += (0.0 if t == () else abs(c) ** 2) if vals is None else abs(c) ** 2 * (1 - vals[k] ** 2)
                k += 1
            var.append(x)
        ev = None if vals is None else ExpectationValues(np.array(vals))
        what = f"{L} groups from {pat} with {'no' if vals is None else 'given'} prior values"
        got = H.compute_group_variances(ops, ev)
        ctx.step()
        ctx.check(len(got) == L and all(abs(a - b) <= 1e-9 * max(1, b) for a, b in zip(got, var)), lambda: f"{what}: variances {got}, expected {var}")
        sq = [math.sqrt(v) for v in var]
        lam = sum(sq)
        K, nterms, frame = H.estimate_nmeas_for_frames(ops, ev)
        ctx.check(all(abs(a - lam * b) <= 1e-9 * max(1, lam * b) for a, b in zip(frame, sq)) and len(frame) == L, lambda: f"{what}: measurements per group {frame}")
        ctx.check(abs(K - lam ** 2) <= 1e-9 * max(1, lam ** 2) and nterms == n, lambda: f"{what}: total {K} over {nterms} terms, expected {lam ** 2} over {n}")
        if lam == 0:
            continue
        tasks = [EstimationTask(o, Circuit([], n_qubits=12), i) for i, o in enumerate(ops)]
        for total in (1, L + 3, 40000, 10 ** 9 + 1):
            new = E.allocate_shots_proportionally(tasks, total, ev)
            ctx.eq(sum(t.number_of_shots for t in new), total, f"{what}: sum of the shots")
            for t, b, o in zip(new, sq, ops):
                ctx.check(abs(t.number_of_shots - total * b / lam) < 1 + 1e-6 * max(1, total * 1e-6) and t.operator == o,
                          lambda: f"{what}: {t.number_of_shots} shots for a share of {total * b / lam}")


FRESH = zqfresh.Fresh(zqfreshlist.C16)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("scaling", gen_scale, step_scale, "all vectors of up to 3 of 11 weights, 4-6 of 3-4, long ties, 15 budgets, three containers"),
    Space("allocation", gen_alloc, step_alloc, "all lists of up to 3 (thorough 4) of 7 groups with 6 kinds of prior values, 6 budgets"),
    Space("large", gen_large, step_large, "9-200 (thorough 1001) weights repeating every pattern of 2 (thorough 3) of 7 weights, budgets to 1e10"),
    Space("groups", gen_groups, step_groups, "10-25 (thorough 60) groups of up to 12 terms, three kinds of prior values, budgets to 1e9"),
]
