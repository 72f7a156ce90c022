"""C12: shots representing a distribution: exact number, near-proportional, for every answer of the random source."""
import collections
import copy
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.measurement import Measurements

ID = "C12"
ASSUMPTIONS = ["a generator's choice only returns items of positive probability",
               "which outcomes are corrected is random by design, so an outcome may get more than one correction; corrections never exceed the surplus or shortfall of rounding"]
TECHNIQUE = "exhaustive enumeration of small rational distributions and shot numbers, with every answer of the random source"


def check_result(ctx, shots, P, N, what):
    """P: {outcome: probability}, exact fractions a/d"""
    ctx.eq(len(shots), N, f"{what}: number of shots")
    cnt = collections.Counter(shots)
    ctx.check(all(P.get(b, 0) > 0 for b in cnt), lambda: f"{what}: {cnt} has outcomes of probability zero")
    low = up = 0
    amb = 0
    base = {}
    for b, p in P.items():
        e = p * N
        fl = math.floor(e + 1e-9)
        frac = e - fl
        if abs(frac) < 1e-9:
            base[b] = (fl, fl)
        elif abs(frac - 0.5) < 1e-9:
            base[b] = (fl, fl + 1)  # either nearest integer
        else:
            r = fl if frac < 0.5 else fl + 1
            base[b] = (r, r)
        low += base[b][0]
        up += base[b][1]
    # python rounds halves to even; any nearest-integer rounding is accepted, but then all corrections go one way
    ok = False
    halves = [b for b in P if base[b][0] != base[b][1]]
    for ch in itertools.product((0, 1), repeat=len(halves)):
        r = {b: base[b][0] for b in P}
        for b, c in zip(halves, ch):
            r[b] += c
        tot = sum(r.values())
        diff = {b: cnt.get(b, 0) - r[b] for b in P}
        if all(x >= 0 for x in diff.values()) and tot <= N or all(x <= 0 for x in diff.values()) and tot >= N:
            # corrections only touch outcomes whose expected number is not an integer
            if all(diff[b] == 0 or abs(P[b] * N - round(P[b] * N)) > 1e-9 for b in P):
                ok = True
                break
    ctx.check(ok, lambda: f"{what}: counts {dict(cnt)} are not the rounded expected numbers plus one-directional corrections")


def one(ctx, P, N, what, cap=20000):
    d = MeasurementOutcomeDistribution(dict(P))
    before = copy.deepcopy(d.distribution_dict)
    runs = 0

    def body(ch):
        with rng.closed(ch, points=(0.0, 0.11, 0.3, 0.52, 0.77, 1 - 2 ** -40)):
            return Measurements.get_measurements_representing_distribution(d, N)

    seen = set()
    for ch, m in ref.explore_choices(body, cap):
        runs += 1
        ctx.step()
        shots = [tuple(b) for b in m.bitstrings]
        key = tuple(sorted(shots))
        ctx.eq(d.distribution_dict, before, f"{what}: the distribution was changed")
        if key not in seen:
            seen.add(key)
            check_result(ctx, shots, P, N, what)
    ctx.check(runs < cap, f"{what}: more than {cap} runs")
    ctx.outcome(min(len(seen), 5))


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for r in compositions(total - i, parts - 1):
            yield (i,) + r


def gen(tier):
    q = tier == "quick"
    for n, dens in ((1, range(1, 17)), (2, range(1, 11 if q else 15)), (3, range(2, 4 if q else 6))):
        for D in dens:
            for c in compositions(D, 1 << n):
                if math.gcd(*[x for x in (c + (D,))][:2]) and D > 1:
                    g = 0
                    for x in c:
                        g = math.gcd(g, x)
                    if g > 1:
                        continue
                for N in range(1, 9 if q else 12):
                    yield [n, D, list(c), N]
    # many small outcomes: rounding loses or adds many shots
    for k in range(3, 7):
        for N in range(1, 5 if q else 6):
            yield [3, k, [1] * k + [0] * (8 - k), N]
            yield [3, 2 * k + 1, [2] * k + [1] + [0] * (7 - k), N]
    for D, w in ((10, [6, 1, 1, 1, 1, 0, 0, 0]), (20, [12, 3, 3, 1, 1, 0, 0, 0]), (20, [5, 5, 5, 5, 0, 0, 0, 0]), (16, [4, 3, 3, 3, 3, 0, 0, 0]), (16, [6, 2, 2, 2, 2, 2, 0, 0])):
        for N in range(1, 9 if q else 12):
            yield [3, D, w, N]


def step(ctx, case):
    n, D, c, N = case
    P = {ref.bits(i, n): x / D for i, x in enumerate(c)}
    ctx.state((n, D, tuple(c)))
    one(ctx, P, N, f"{c}/{D} with {N} shots")


def gen_keys(tier):
    for N in (1, 3, 4, 7):
        for order in itertools.permutations(range(3)):
            yield [N, list(order)]


def step_keys(ctx, case):
    """string keys, key orders, unnormalized input that the distribution normalizes, wide registers"""
    N, order = case
    items = [("010", 2.0), ("110", 1.0), ("001", 5.0)]
    d = {items[i][0]: items[i][1] for i in order}
    P = {tuple(int(x) for x in k): v / 8 for k, v in d.items()}
    dist = MeasurementOutcomeDistribution(d)
    ctx.state((N, tuple(order)))

    def body(ch):
        with rng.closed(ch):
            return [tuple(b) for b in Measurements.get_measurements_representing_distribution(dist, N).bitstrings]

    for ch, shots in ref.explore_choices(body, 5000):
        ctx.step()
        check_result(ctx, shots, P, N, f"{d} with {N} shots")
    one(ctx, {(0,) * 20: 0.5, (1,) * 20: 0.25, (0, 1) * 10: 0.25}, N, "20 qubits")


def gen_large(tier):
    """many shots, many outcomes, probabilities that are not exact fractions"""
    for N in (9, 10, 16, 17, 50, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1024, 4999, 10000, 32768, 65537, 100000):
        for k in range(len(LARGE)):
            yield [N, k]


LARGE = [[1, 2], [1, 1, 1], [1, 6], [2, 3, 5, 7], [1, 9, 90, 900], [1, 999999], [1, 1, 1, 1, 1, 1, 1], [3, 3, 1], [1] * 8, [1, 1, 14], [5, 1, 1, 1, 1, 1, 1, 1]]


def step_large(ctx, case):
    N, k = case
    w = LARGE[k]
    n = 3
    ctx.state((N, k))
    one(ctx, {ref.bits((5 * i + 2) % 8, n): x / sum(w) for i, x in enumerate(w)}, N, f"{w} with {N} shots")


FRESH = zqfresh.Fresh(zqfreshlist.C12)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("rational", gen, step, "all distributions with denominators up to 16/10/3 (thorough 16/14/5) on 1/2/3 qubits and families on 3 qubits, 1-8 (thorough 1-11) shots, every answer"),
    Space("keys", gen_keys, step_keys, "string keys in every order, unnormalized input, 20 qubits"),
    Space("large", gen_large, step_large, "11 distributions of 2 to 8 outcomes x 21 numbers of shots up to 100000, every answer"),
]
