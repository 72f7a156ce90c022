"""C13: outcome distributions stay probability distributions; distances follow their definitions."""
import itertools
import json
import math
import os
import warnings

import numpy as np

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import bitstring_distribution as bd
from zquantum.core import distribution as D
from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
from zquantum.core.utils import bin2dec, dec2bin, get_ordered_list_of_bitstrings

ID = "C13"
ASSUMPTIONS = ["probabilities are finite; one key is not given twice in different spellings",
               "distributions explicitly left unnormalized are normalized when loaded",
               "maximum mean discrepancy is defined on binary outcomes; the symmetrized likelihood is the average of both clipped likelihoods"]
TECHNIQUE = "exhaustive enumeration of small distributions in every key spelling and of all pairs, against the definitions"


def spell(key, how):
    if how == 0:
        return tuple(key)
    if how == 1 and all(k < 10 for k in key):
        return "".join(map(str, key))
    if how == 2 and len(key) > 1:
        return ",".join(map(str, key))
    if how == 3:
        return tuple(np.int64(k) for k in key)
    return tuple(key)


DOMAINS = {"b1": [(0,), (1,)], "b2": [(0, 0), (0, 1), (1, 0), (1, 1)], "q": [(0, 12), (3, 0), (10, 2)], "s": [(7,), (12,), (10,), (0,)], "b3": [(0, 0, 1), (1, 1, 0), (1, 0, 0)]}
WEIGHTS = [None, 0, 1, 0.5, 2.0, 1e-3]


def gen_make(tier):
    for dom, keys in DOMAINS.items():
        W = range(len(WEIGHTS)) if len(keys) < 4 or tier == "thorough" else (0, 1, 2, 3)
        for c in itertools.product(W, repeat=len(keys)):
            for how in range(5):
                yield [dom, list(c), how]


def quiet(fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn(*a, **k)
    return r, [str(x.message) for x in w]


def same_dist(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-12 for k in a)


def step_make(ctx, case):
    dom, c, how = case
    keys = DOMAINS[dom]
    data = [(k, WEIGHTS[i]) for k, i in zip(keys, c) if WEIGHTS[i] is not None]
    mixed = how == 4
    given = {spell(k, j % 4 if mixed else how): v for j, (k, v) in enumerate(data)}
    snap = dict(given)
    tot = sum(v for _, v in data)
    ctx.step()
    ctx.state((dom, tuple(c)))
    what = f"distribution from {given}"
    for cls in (MOD, bd.BitstringDistribution):
        if not data or tot == 0:
            ctx.raises(lambda: cls(dict(given)), what)
            if not data:
                ctx.raises(lambda: cls({}, False), what)
            continue
        d, w = quiet(cls, given)
        ctx.eq(given, snap, f"{what}: input changed")
        want = {k: v / tot for k, v in data}
        ctx.check(same_dist(d.distribution_dict, want), lambda: f"{what}: {d.distribution_dict}, expected {want}")
        ctx.check(abs(sum(d.distribution_dict.values()) - 1) < 1e-9, f"{what}: total probability")
        ctx.check(D.is_normalized(d.distribution_dict) and D.is_measurement_outcome_distribution(d.distribution_dict), f"{what}: predicates")
        ctx.check(all(type(k) is tuple for k in d.distribution_dict), f"{what}: keys are tuples")
        ctx.eq(d.get_number_of_subsystems(), len(keys[0]), f"{what}: subsystems")
        u, w = quiet(cls, given, normalize=False)
        ctx.check(same_dist(u.distribution_dict, dict(data)), lambda: f"{what} without normalization: {u.distribution_dict}")
        ctx.eq(bool(w), abs(tot - 1) > 1e-9, f"{what}: warning about missing normalization")
        ctx.eq(D.is_normalized(u.distribution_dict), abs(tot - 1) < 1e-9, f"{what}: is_normalized")
        ctx.eq(given, snap, f"{what}: input changed")
        n = D.normalize_measurement_outcome_distribution(dict(data))
        ctx.check(same_dist(n, want), f"{what}: normalization helper")
    if data and tot > 0:
        d = MOD(dict(given))
        f = os.path.join(ctx.scratch, "d.json")
        D.save_measurement_outcome_distribution(d, f)
        with open(f) as fh:
            loaded = [D.load_measurement_outcome_distribution(f), D.load_measurement_outcome_distribution(fh), bd.load_measurement_outcome_distribution(f)]
        for x in loaded:
            ctx.eq(x.distribution_dict, d.distribution_dict, f"{what}: loaded")
        # sets
        parts = [d, MOD({(0,) * len(keys[0]): 1.0}), MOD(dict(given), normalize=True)]
        D.save_measurement_outcome_distributions(parts, f)
        with open(f) as fh:
            l2 = D.load_measurement_outcome_distributions(fh)
        for l in (D.load_measurement_outcome_distributions(f), l2):
            ctx.eq([x.distribution_dict for x in l], [x.distribution_dict for x in parts], f"{what}: loaded set")
        # older files
        with open(f) as fh:
            raw = json.load(fh)
        raw["bitstring_distribution"] = raw.pop("measurement_outcome_distribution")
        with open(f, "w") as fh:
            json.dump({"bitstring_distribution": raw["bitstring_distribution"][0]}, fh)
        ctx.eq(D.load_measurement_outcome_distribution(f).distribution_dict, d.distribution_dict, f"{what}: loaded from an older file")
        flat = D.change_tuple_dict_keys_to_comma_separated_integers(d.distribution_dict)
        ctx.eq(D.preprocess_distibution_dict(flat), d.distribution_dict, f"{what}: keys as text and back")


BAD = [({(0, 1): 0.5, (1,): 0.5}, "keys of different length"), ({"01": 0.5, "1": 0.5}, "keys of different length"), ({(0,): -0.5, (1,): 1.5}, "negative value"),
       ({(0,): -1e-3, (1,): 1.001}, "negative value"), ({(0.5,): 1.0}, "fractional key"), ({(-1,): 1.0}, "negative key"), ({3: 1.0}, "integer key"),
       ({"a": 1.0}, "letter key"), ({}, "no outcomes"), ({(0,): float("nan")}, "not a number"), ({"1,2": 0.5, "3": 0.5}, "keys of different length"),
       ({(0,): 0.0}, "all zero"), ({("0", "1"): 1.0}, "key of strings"), ({(0,): 0.4, ("1",): 0.6}, "key of strings"), ({(0, 1): 0.5, (1, 0): 0.5, (1, -1): 0.0}, "negative key"),
       ({(0, 1): 0.5, (1, 0): 0.5, (1,): 0.0}, "keys of different length")]


def gen_bad(tier):
    for i in range(len(BAD)):
        for norm in (True, False):
            yield [i, norm]


def step_bad(ctx, case):
    d, why = BAD[case[0]]
    ctx.step()
    ctx.state(tuple(case))
    if why == "all zero" and not case[1]:
        return
    ctx.raises(lambda: MOD(dict(d), normalize=case[1]), f"{d} ({why})")
    if why.startswith(("key", "negative")) and all(isinstance(k, tuple) for k in d) and d:
        ctx.eq(D.is_measurement_outcome_distribution(dict(d)), False, f"predicate on {d}")


def comps(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for r in comps(total - i, parts - 1):
            yield (i,) + r


def pool(n, tier):
    if n == 1:
        return [(d, c) for d in (1, 3, 5) for c in comps(d, 2)]
    if n == 2:
        return [(d, c) for d in (2, 3) for c in comps(d, 4)] + [(7, (1, 2, 4, 0)), (10, (1, 2, 3, 4))]
    return [(3, c) for c in comps(3, 8) if sum(1 for x in c if x) == 3][:: 1 if tier == "thorough" else 5]


def gen_dist(tier):
    for n in (1, 2, 3):
        P = pool(n, tier)
        for i in range(len(P)):
            yield [n, i]


SIG = [1.0, 0.5, 3, [0.5, 1.0, 4.0], np.array([2.0]), (10, 1)]
EPS = [1e-9, 1e-2, 0.3]


def ref_mmd(p, q, sigma):
    ss = list(sigma) if hasattr(sigma, "__len__") else [sigma]
    keys = sorted(set(p) | set(q))
    x = [int("".join(map(str, k)), 2) for k in keys]
    d = [p.get(k, 0) - q.get(k, 0) for k in keys]
    return sum(d[i] * d[j] * sum(math.exp(-float(x[i] - x[j]) ** 2 / (2 * s)) for s in ss) / len(ss) for i in range(len(x)) for j in range(len(x)))


def ref_nll(p, q, eps):
    return -sum(v * math.log(max(eps, q.get(k, 0))) for k, v in p.items())


def forms(n, d, c):
    full = {ref.bits(i, n): x / d for i, x in enumerate(c)}
    sparse = {k: v for k, v in full.items() if v}
    rev = dict(reversed(list(full.items())))
    part = dict(sorted(sparse.items(), key=lambda kv: (kv[0][-1], kv[0])))
    return [full, sparse, rev, part]


def step_dist(ctx, case):
    n, i = case
    P = pool(n, ctx.tier)
    d1, c1 = P[i]
    ctx.state((n, i))
    A = [MOD(dict(f)) for f in forms(n, d1, c1)]
    for d2, c2 in P:
        p = {ref.bits(k, n): x / d1 for k, x in enumerate(c1)}
        q = {ref.bits(k, n): x / d2 for k, x in enumerate(c2)}
        B = [MOD(dict(f)) for f in forms(n, d2, c2)]
        what = f"{c1}/{d1} against {c2}/{d2}"
        equal = all(abs(p[k] - q[k]) < 1e-12 for k in p)
        for fa, fb in ((0, 0), (1, 1), (0, 1), (1, 0), (2, 3), (3, 2)):
            a, b = A[fa], B[fb]
            sa, sb = list(a.distribution_dict.items()), list(b.distribution_dict.items())
            for s in SIG:
                ctx.step()
                v = D.evaluate_distribution_distance(a, b, D.compute_mmd, distance_measure_parameters={"sigma": s})
                w = ref_mmd(p, q, s)
                ctx.check(abs(v - w) < 1e-9, lambda: f"{what}: mmd {v} with sigma {s}, expected {w}")
                ctx.check(v > -1e-12 and (abs(v) < 1e-12) == equal, lambda: f"{what}: mmd {v} of {'equal' if equal else 'different'} distributions")
                ctx.check(abs(v - D.compute_mmd(b, a, {"sigma": s})) < 1e-12, f"{what}: mmd is not symmetric")
            for e in EPS:
                v = D.evaluate_distribution_distance(a, b, D.compute_clipped_negative_log_likelihood, distance_measure_parameters={"epsilon": e})
                w = ref_nll(p, q, e)
                ctx.check(abs(v - w) < 1e-9, lambda: f"{what}: likelihood {v} with epsilon {e}, expected {w}")
                j = D.evaluate_distribution_distance(a, b, D.compute_jensen_shannon_divergence, distance_measure_parameters={"epsilon": e})
                w = (ref_nll(p, q, e) + ref_nll(q, p, e)) / 2
                ctx.check(abs(j - w) < 1e-9, lambda: f"{what}: symmetrized likelihood {j}, expected {w}")
            for f, w in ((D.compute_mmd, ref_mmd(p, q, 1.0)), (D.compute_clipped_negative_log_likelihood, ref_nll(p, q, 1e-9)),
                         (D.compute_jensen_shannon_divergence, (ref_nll(p, q, 1e-9) + ref_nll(q, p, 1e-9)) / 2)):
                ctx.check(abs(f(a, b, {}) - w) < 1e-9, f"{what}: {f.__name__} with default parameters")
            ctx.check(list(a.distribution_dict.items()) == sa and list(b.distribution_dict.items()) == sb, f"{what}: evaluating changed a distribution")
        # unnormalized against normalized, different sizes
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            un = MOD({k: 2 * v for k, v in q.items()}, normalize=False)
            un2 = MOD({k: 3 * v for k, v in p.items()}, normalize=False)
        for x, y in ((A[0], un), (un, A[0]), (A[0], MOD({(0,) * (n + 1): 1.0})), (MOD({(0,) * (n + 1): 1.0}), A[0])):
            ctx.raises(lambda: D.evaluate_distribution_distance(x, y, D.compute_mmd, distance_measure_parameters={}), f"{what}: inconsistent pair", RuntimeError)
        v = D.evaluate_distribution_distance(un2, un, D.compute_mmd, distance_measure_parameters={"sigma": 1.0})
        ctx.check(abs(v - ref_mmd(un2.distribution_dict, un.distribution_dict, 1.0)) < 1e-9, f"{what}: mmd of two unnormalized")
        ctx.raises(lambda: D.evaluate_distribution_distance(A[0], q, D.compute_mmd, distance_measure_parameters={}), "a plain dict", TypeError)


def gen_wide(tier):
    for n in (5, 15, 16, 17, 20, 25, 30, 31, 32, 33, 40, 48, 62):
        for pat in range(6):
            yield [n, pat]


def step_wide(ctx, case):
    n, pat = case
    ctx.step()
    ctx.state((n, pat))
    one = lambda *on: tuple(1 if (k in on) else 0 for k in range(n))
    keys = [one(), one(n - 1), one(n - 2, n - 1), one(0), one(*range(n)), one(0, n - 1), one(n // 2)]
    p = {keys[0]: 0.25, keys[(pat + 1) % 7]: 0.75}
    q = {keys[3]: 0.5, keys[(pat + 4) % 7]: 0.25, keys[5]: 0.25} if pat != 1 else {keys[3]: 0.5, keys[6]: 0.5}
    if len(q) < 3 and pat != 1:
        q = {keys[3]: 0.5, keys[6]: 0.5}
    if len(p) < 2:
        p = {keys[0]: 1.0}
    for s in (1.0, 2, [1.0, 1e10]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = D.compute_mmd(MOD(dict(p)), MOD(dict(q)), {"sigma": s})
        pp, qq = MOD(dict(p)).distribution_dict, MOD(dict(q)).distribution_dict
        w = ref_mmd(pp, qq, s)
        ctx.check(abs(v - w) < 1e-9, lambda: f"{n} qubits, pattern {pat}: mmd {v}, expected {w}")


def gen_bits(tier):
    for L in range(1, 9):
        for x in range(0, (1 << L) + 3):
            yield [L, x]


def step_bits(ctx, case):
    L, x = case
    ctx.step()
    ctx.state((L, x))
    if x >= 1 << L:
        ctx.raises(lambda: dec2bin(x, L), f"{x} in {L} bits", (SystemExit, Exception))
        return
    b = dec2bin(x, L)
    ctx.eq([int(y) for y in b], list(ref.bits(x, L)), f"bits of {x}")
    ctx.eq(bin2dec(b), x, f"number of {b}")
    if x == 0:
        ctx.eq(get_ordered_list_of_bitstrings(L), ["".join(map(str, ref.bits(i, L))) for i in range(1 << L)], f"strings of {L} bits")
        probs = [(i + 1) / sum(range(1, (1 << L) + 1)) for i in range(1 << L)]
        d = D.create_bitstring_distribution_from_probability_distribution(np.array(probs)).distribution_dict
        ctx.check(same_dist(d, {ref.bits(i, L): v for i, v in enumerate(probs)}), f"distribution of a probability vector over {L} bits")


# ---- distributions over many outcomes

def big(n, pat, k):
    """k outcomes of n bits with unequal weights, in an order that is not sorted"""
    size = 1 << n
    step = {0: 1, 1: 3, 2: 5, 3: 7}[pat]
    keys = []
    for i in range(k):
        x = (i * step + pat * 11) % size
        if x not in keys:
            keys.append(x)
    if pat % 2:
        keys = keys[::-1]
    w = [1 + ((7 * i + pat) % 13) for i in range(len(keys))]
    t = sum(w)
    return {ref.bits(x, n): v / t for x, v in zip(keys, w)}


def gen_large(tier):
    for n in (4, 6, 8) if tier == "quick" else (4, 5, 6, 8, 10):
        for a in itertools.product(range(4), (3, 12, 40)):
            yield [n, list(a)]


def step_large(ctx, case):
    n, (pa, ka) = case
    ctx.state((n, pa, ka))
    p = big(n, pa, ka)
    snap = list(p.items())
    A = MOD(dict(p))
    ctx.check(same_dist(A.distribution_dict, p), f"distribution of {len(p)} outcomes")
    for pb, kb in itertools.product(range(4), (3, 12, 40)):
        q = big(n, pb, kb)
        B = MOD(dict(reversed(list(q.items()))) if pa % 2 else dict(q))
        ctx.step()
        what = f"{len(p)} outcomes (pattern {pa}) against {len(q)} outcomes (pattern {pb}) of {n} bits"
        for s in (1.0, [0.5, 20.0]):
            v, w = D.compute_mmd(A, B, {"sigma": s}), ref_mmd(p, q, s)
            ctx.check(abs(v - w) < 1e-9, lambda: f"{what}: mmd {v}, expected {w}")
        for e in (1e-9, 0.05):
            v, w = D.compute_clipped_negative_log_likelihood(A, B, {"epsilon": e}), ref_nll(p, q, e)
            ctx.check(abs(v - w) < 1e-9, lambda: f"{what}: likelihood {v}, expected {w}")
            v, w = D.compute_jensen_shannon_divergence(A, B, {"epsilon": e}), (ref_nll(p, q, e) + ref_nll(q, p, e)) / 2
            ctx.check(abs(v - w) < 1e-9, lambda: f"{what}: symmetrized likelihood {v}, expected {w}")
    ctx.eq(list(A.distribution_dict.items()), [(k, A.distribution_dict[k]) for k, _ in snap], "order of outcomes changed")
    # weights that do not sum to one
    for f in (3.0, 0.25):
        d, _ = quiet(MOD, {k: f * v for k, v in p.items()})
        ctx.check(same_dist(d.distribution_dict, p), f"{len(p)} outcomes scaled by {f}")
    # files
    names = [os.path.join(ctx.scratch, f"d{i}.json") for i in range(2)]
    D.save_measurement_outcome_distribution(A, names[0])
    back = D.load_measurement_outcome_distribution(names[0])
    ctx.check(same_dist(back.distribution_dict, p), f"{len(p)} outcomes of {n} bits loaded from a file")
    D.save_measurement_outcome_distributions([A, B, A], names[1])
    ls = D.load_measurement_outcome_distributions(names[1])
    ctx.check(len(ls) == 3 and all(same_dist(x.distribution_dict, y) for x, y in zip(ls, (p, q, p))), "set of distributions loaded from a file")
    if n <= 6 or ctx.thorough:
        vec = np.array([p.get(ref.bits(i, n), 0.0) for i in range(1 << n)])
        d = D.create_bitstring_distribution_from_probability_distribution(vec).distribution_dict
        ctx.check(same_dist({k: v for k, v in d.items() if v}, p), "distribution of a probability vector")


def gen_draw(tier):
    for n in range(0, 6):
        for kind in range(4):
            yield [n, kind]


def step_draw(ctx, case):
    n, kind = case
    from zquantum.core import utils as U
    ctx.state(tuple(case))
    ctx.step()
    d = [{(0, 1): 0.25, (1, 1): 0.75}, {"01": 0.5, "10": 0.25, "11": 0.25}, {3: 1.0}, {(0,): 0.2, (1,): 0.3, (2,): 0.1, (12,): 0.4}][kind]
    snap = dict(d)
    # sampled events are among the outcomes of positive probability, and their number is the one asked for
    st = np.random.get_state()
    try:
        for seed in range(5):
            np.random.seed(seed)
            r = U.sample_from_probability_distribution(d, n)
            ctx.eq(sum(r.values()), n, f"{n} samples of {d}")
            ctx.check(set(r) <= set(d), f"samples {r} of {d}")
    finally:
        np.random.set_state(st)
    ctx.eq(d, snap, "distribution changed by sampling")
    for bad in (list(d.items()), tuple(d), [0.5, 0.5], np.array([0.5, 0.5]), None, "01"):
        ctx.raises(lambda: U.sample_from_probability_distribution(bad, n), f"sampling from {bad!r}", RuntimeError)
    for strings in (["01", "11", "00"], [], ["1"], ["0010110", "1111111"]):
        t = U.convert_bitstrings_to_tuples(strings * (n + 1))
        ctx.eq(t, [tuple(int(c) for c in s) for s in strings] * (n + 1), "tuples of bitstrings")
        ctx.eq(U.convert_tuples_to_bitstrings(t), strings * (n + 1), "bitstrings of tuples")


FRESH = zqfresh.Fresh(zqfreshlist.C13)


# ---- sums close to one, values close to zero ------------------------------------------------------
NEAR = [1e-2, 1e-4, 1e-6, 1e-7, 1e-8]
SMALL = [1e-3, 1e-6, 1e-9, 1e-10, 1e-12, 1e-300]


def gen_near(tier):
    for k in (1, 2, 3, 8):
        for i in range(len(NEAR)):
            for sign in (-1, 1):
                yield ["sum", k, i, sign]
        for i in range(len(SMALL)):
            for at in range(k):
                yield ["value", k, i, at]


def step_near(ctx, case):
    what, k, i, x = case
    ctx.state(tuple(case))
    keys = [tuple((j >> b) & 1 for b in (0, 1, 2)) for j in range(k)]
    if what == "sum":
        total = 1 + x * NEAR[i]
        d = {key: total / k for key in keys}
        ctx.check(not D.is_normalized(d), "values adding up to %r are taken as normalized" % total)
        got, warned = quiet(MOD, dict(d))
        ctx.check(abs(sum(got.distribution_dict.values()) - 1) < 1e-12 and all(abs(v - 1 / k) < 1e-12 for v in got.distribution_dict.values()), lambda: "normalized from %r: %s" % (total, got))
        kept, warned = quiet(MOD, dict(d), normalize=False)
        ctx.check(kept.distribution_dict == d and warned, "without normalization from %r: %s" % (total, kept))
        ctx.check(abs(sum(D.normalize_measurement_outcome_distribution(dict(d)).values()) - 1) < 1e-12, "normalized values")
        ctx.step(4)
        return
    for v in (-SMALL[i], SMALL[i]):
        d = {key: 1.0 / k for key in keys}
        d[keys[x]] = v
        ctx.step()
        ctx.eq(D.is_measurement_outcome_distribution(dict(d)), v > 0, "predicate on a value %r" % v)
        if v < 0:
            for norm in (True, False):
                ctx.raises(lambda: quiet(MOD, dict(d), normalize=norm), "a value %r" % v)
        else:
            got = quiet(MOD, dict(d))[0].distribution_dict
            s = sum(d.values())
            ctx.check(set(got) == set(d) and all(abs(got[key] * s - d[key]) <= 1e-9 * d[key] for key in d), lambda: "normalized from %s: %s" % (d, got))


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("construction", gen_make, step_make, "every choice of 6 (4 for the 4-outcome domains when quick) weights per outcome of 5 domains in 5 key spellings, with files"),
    Space("rejection", gen_bad, step_bad, "16 kinds of inconsistent data"),
    Space("distances", gen_dist, step_dist, "all pairs of 12/32/(12, thorough 56) distributions over 1/2/3 bits in 6 representation pairs, 6 bandwidths, 3 cut-offs"),
    Space("wide", gen_wide, step_wide, "6 patterns of outcomes for 13 register sizes up to 62 qubits"),
    Space("bits", gen_bits, step_bits, "every number of up to 8 bits"),
    Space("large", gen_large, step_large, "all pairs of 12 distributions of 3, 12 and 40 outcomes over 4, 6, 8 (thorough 4-10) bits: distances, files, normalization"),
    Space("draws", gen_draw, step_draw, "0-5 samples of four kinds of outcomes; data that is no distribution"),
        Space("near", gen_near, step_near, "1, 2, 3, 8 outcomes with sums off 1 by 5 amounts in both directions, and with one value of 6 tiny sizes of both signs"),
]
