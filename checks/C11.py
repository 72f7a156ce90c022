"""C11: a measurement record is a faithful multiset under any history."""
import collections
import itertools
import json
import os

import numpy as np

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.measurement import Measurements
from zquantum.core.openfermion import IsingOperator
from zquantum.core.utils import convert_bitstrings_to_tuples, convert_tuples_to_bitstrings

ID = "C11"
ASSUMPTIONS = ["one record holds shots of one register size", "counts are non-negative integers"]
TECHNIQUE = "exhaustive exploration of all operation sequences up to a depth on real records next to a multiset model"

COUNTS = [{"01": 2}, {"10": 1, "01": 1}, {"00": 0, "11": 3}, {}]
SHOTS = [[(0, 1)], [(1, 1), (0, 0), (1, 1)], []]
OPS = ([["counts", i] for i in range(len(COUNTS))] + [["assign", i] for i in range(len(SHOTS))] + [["append", 0], ["append", 1]] +
       [["query", k] for k in ("counts", "dist", "exp")] + [["saveload", "path"], ["saveload", "file"], ["rebuild", "shots"], ["rebuild", "counts"],
        ["source"], ["spoil"]])
STARTS = [["empty"], ["none"], ["shots", 0], ["shots", 1], ["fromcounts", 1], ["fromcounts", 2], ["np", 1]]


def gen_hist(tier):
    D = 3 if tier == "quick" else 4
    for s in range(len(STARTS)):
        for h in itertools.product(range(len(OPS)), repeat=D):
            yield [s, list(h)]
    for d in range(D):
        for s in range(len(STARTS)):
            for h in itertools.product(range(len(OPS)), repeat=d):
                yield [s, list(h)]


def norm(bs):
    return [tuple(int(x) for x in b) for b in bs]


def check(ctx, m, model, what):
    got = norm(m.bitstrings)
    ctx.eq(sorted(got), sorted(model), f"{what}: shots")
    cnt = collections.Counter("".join(map(str, b)) for b in model)
    ctx.eq(m.get_counts(), dict(cnt), f"{what}: counts")
    if model:
        d = m.get_distribution()
        ctx.check(isinstance(d, MeasurementOutcomeDistribution), f"{what}: distribution type")
        dd = d.distribution_dict
        ctx.eq(set(dd), set(model), f"{what}: outcomes of the distribution")
        for b in dd:
            ctx.check(abs(dd[b] - model.count(b) / len(model)) < 1e-12, f"{what}: probability of {b}")
    ctx.eq(norm(m.bitstrings), got, f"{what}: queries changed the record")


def step_hist(ctx, case):
    s, h = case
    st = STARTS[s]
    src = None
    if st[0] == "empty":
        m, model = Measurements(), []
    elif st[0] == "none":
        src = []
        m, model = Measurements(src), []
    elif st[0] == "shots":
        src = list(SHOTS[st[1]])
        m, model = Measurements(src), list(src)
    elif st[0] == "np":
        src = [tuple(np.int8(x) for x in b) for b in SHOTS[st[1]]]
        m, model = Measurements(src), list(SHOTS[st[1]])
    else:
        c = dict(COUNTS[st[1]])
        m = Measurements.from_counts(c)
        model = [tuple(int(x) for x in k) for k, v in c.items() for _ in range(v)]
        ctx.eq(c, COUNTS[st[1]], "counts the record was created from")
    others = []  # earlier records and what they must still hold
    path = [st]
    for oi in h:
        op = OPS[oi]
        path.append(op)
        what = f"history {path}"
        ctx.step()
        if op[0] == "counts":
            c = dict(COUNTS[op[1]])
            before = list(src) if src is not None else None
            m.add_counts(c)
            ctx.eq(c, COUNTS[op[1]], f"{what}: counts that were added")
            model = model + [tuple(int(x) for x in k) for k, v in c.items() for _ in range(v)]
            if src is not None:
                ctx.eq(src, before, f"{what}: list the record was created from")
        elif op[0] == "assign":
            m.bitstrings = list(SHOTS[op[1]])
            model = list(SHOTS[op[1]])
        elif op[0] == "append":
            m.bitstrings += list(SHOTS[op[1]])
            model = model + list(SHOTS[op[1]])
        elif op[0] == "query":
            order = norm(m.bitstrings)
            if op[1] == "counts":
                m.get_counts()["01"] = 77
            elif model and op[1] == "dist":
                m.get_distribution().distribution_dict[(0, 1)] = 9
            elif model:
                m.get_expectation_values(IsingOperator("Z0", 2.0) + IsingOperator("Z0 Z1"))
            ctx.eq(norm(m.bitstrings), order, f"{what}: the query changed the record")
        elif op[0] == "saveload":
            f = os.path.join(ctx.scratch, "m.json")
            m.save(f)
            with open(f) as fh:
                data = json.load(fh)
            ctx.eq(data["counts"], dict(collections.Counter("".join(map(str, b)) for b in model)), f"{what}: saved counts")
            order = norm(m.bitstrings)
            others.append((m, list(model)))
            if op[1] == "path":
                m = Measurements.load_from_file(f)
            else:
                with open(f) as fh:
                    m = Measurements.load_from_file(fh)
            ctx.eq(list(m.bitstrings), order, f"{what}: loaded shots")
            ctx.check(all(type(b) is tuple and all(type(x) is int for x in b) for b in m.bitstrings), f"{what}: loaded shots are not tuples of ints")
            src = None
        elif op[0] == "rebuild":
            others.append((m, list(model)))
            m = Measurements(m.bitstrings) if op[1] == "shots" else Measurements.from_counts(m.get_counts())
            src = None
        elif op[0] == "source":
            if src is not None:
                src.append((1, 0))
        elif op[0] == "spoil":
            o = Measurements()
            o.add_counts({"01": 1})
            others.append((o, [(0, 1)]))
        check(ctx, m, model, what)
        for o, mo in others:
            ctx.eq(sorted(norm(o.bitstrings)), sorted(mo), f"{what}: an earlier record")
    if not h:
        check(ctx, m, model, f"start {st}")
    ctx.eq(norm(Measurements().bitstrings), [], f"fresh record after {path}")
    ctx.state(tuple(sorted(model)))


def gen_conv(tier):
    for n in range(0, 5):
        yield [n, []]
        for k in (1, 2) if tier == "quick" or n > 3 else (1, 2, 3):
            for c in itertools.product(range(1 << n), repeat=k):
                yield [n, list(c)]


def step_conv(ctx, case):
    n, c = case
    t = [ref.bits(i, n) for i in c]
    s = ["".join(map(str, b)) for b in t]
    ctx.step()
    ctx.state((n, tuple(c)))
    ctx.eq(list(convert_tuples_to_bitstrings(t)), s, f"bitstrings of {t}")
    ctx.eq(list(convert_bitstrings_to_tuples(s)), t, f"tuples of {s}")
    if n:
        m = Measurements(list(t))
        ctx.eq(sorted(Measurements.from_counts(m.get_counts()).bitstrings), sorted(t), f"counts round trip of {t}")


def gen_large(tier):
    for a in (1, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 1000, 32768, 65536):
        for b in (0, 1, 10, 256):
            yield ["counts", 2, a, b]
    for n in (1, 5, 8, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 128, 200):
        for k in range(4):
            yield ["wide", n, k, 0]
    for n in (4, 5, 6, 7, 8, 10):
        yield ["many", n, 0, 0]


def step_large(ctx, case):
    kind, n, a, b = case
    ctx.step()
    ctx.state(tuple(case))
    if kind == "counts":
        cnt = {"01": a, "11": b, "10": 3}
    elif kind == "wide":
        pats = [{0}, {n - 1}, set(range(0, n, 2)), set(range(n))]
        cnt = {}
        for j in (a, (a + 1) % 4):
            key = "".join("1" if i in pats[j] else "0" for i in range(n))
            cnt[key] = cnt.get(key, 0) + j + 1
    else:
        cnt = {"".join(map(str, ref.bits((i * 37 + 5) % (1 << n), n))): i % 4 + 1 for i in range(1 << n)}
    f = os.path.join(ctx.scratch, "large.json")
    model = [tuple(map(int, k)) for k, c in cnt.items() for _ in range(c)]
    m = Measurements.from_counts(dict(cnt))
    for round_ in range(2):
        ctx.eq(norm(m.bitstrings), model, f"{case}: shots")
        ctx.eq(m.get_counts(), {k: c for k, c in cnt.items() if c}, f"{case}: counts")
        d = m.get_distribution().distribution_dict
        ctx.check(set(d) == set(model) and all(abs(d[tuple(map(int, k))] * len(model) - c) < 1e-9 for k, c in cnt.items() if c), f"{case}: distribution")
        m.save(f)
        m = Measurements.load_from_file(f)
    m.add_counts({k: 1 for k in cnt})
    cnt2 = {k: c + 1 for k, c in cnt.items()}
    ctx.eq(m.get_counts(), cnt2, f"{case}: counts after adding one each")
    ctx.eq(sorted(Measurements(m.bitstrings).bitstrings), sorted(model + [tuple(map(int, k)) for k in cnt]), f"{case}: shots after adding one each")


FRESH = zqfresh.Fresh(zqfreshlist.C11)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("histories", gen_hist, step_hist, "every sequence of up to 3 (thorough 4) of 18 operations (add counts/shots, query, save/load, rebuild, source changes) from 7 initial records"),
    Space("conversion", gen_conv, step_conv, "every list of up to 2 (thorough 3) outcomes of up to 4 qubits"),
    Space("large", gen_large, step_large, "counts up to 65536, registers of up to 200 qubits, all outcomes of up to 10 qubits; saved and loaded twice"),
]
