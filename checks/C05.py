"""C05: composing and splitting circuits."""
import itertools
from fractions import Fraction

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, builtin_gate_by_name, split_circuit

ID = "C05"
ASSUMPTIONS = [
    "two operations are equal exactly when gate, wrappers, parameters (numerically close) and qubit list agree",
    "the predicate given to split_circuit is a pure function of the operation",
]
TECHNIQUE = "exhaustive enumeration of composition programs and split predicates against a list model, on the real code"

th = sympy.Symbol("theta")
# alphabet of operations (distinct in the model: distinct index = distinct operation)
OPS = [
    ["g", "X", [], [0], []],
    ["g", "X", [], [2], []],
    ["g", "CNOT", [], [0, 1], []],
    ["g", "CNOT", [], [1, 0], []],
    ["g", "RX", [0.5], [1], []],
    ["g", "RX", [0.6], [1], []],
    ["g", "RX", [0.5], [1], ["d"]],
    ["g", "RX", [0.5], [1, 0], [1]],
    ["c", "CU2", [3, 0], []],
    ["m", 2, 1],
]


def circ_of(desc):
    """desc = [list of op indices, n or None]"""
    return Circuit([zq.real_op(OPS[i]) for i in desc[0]], n_qubits=desc[1])


def size(desc):
    if desc[1]:
        return desc[1]
    return max([zq.op_size(OPS[i]) for i in desc[0]] or [0])


def check_model(ctx, c, ops, n, what):
    ctx.eq(c.n_qubits, n, f"{what}: register size")
    ctx.eq(len(c.operations), len(ops), f"{what}: number of operations")
    for got, i in zip(c.operations, ops):
        ctx.check(got == zq.real_op(OPS[i]), f"{what}: operation {got} instead of {OPS[i]}")
    ctx.check(c == Circuit([zq.real_op(OPS[i]) for i in ops], n_qubits=n) if n else not ops and c == Circuit(), f"{what}: equality with the model")


CIRCS = [[[], None], [[], 1], [[], 5], [[0], None], [[1], None], [[0], 4], [[2, 4], None], [[8], None], [[4, 4, 7], 3], [[9, 0], None], [[3, 2], 2], [[6], 6]]


def gen_add(tier):
    k = len(CIRCS)
    for L in (2, 3) + ((4,) if tier == "thorough" else ()):
        for idx in itertools.product(range(k), repeat=L):
            yield list(idx)


def step_add(ctx, case):
    ds = [CIRCS[i] for i in case]
    cs = [circ_of(d) for d in ds]
    ops = [i for d in ds for i in d[0]]
    n = max(size(d) for d in ds)
    # every bracketing of the sum
    def brackets(lo, hi):
        if hi - lo == 1:
            yield cs[lo]
            return
        for mid in range(lo + 1, hi):
            for l in brackets(lo, mid):
                for r in brackets(mid, hi):
                    yield l + r
    results = list(brackets(0, len(cs)))
    for r in results:
        ctx.step(len(cs) - 1)
        check_model(ctx, r, ops, n, f"sum of {case}")
        ctx.check(type(r) is Circuit, "type of the sum")
        for c in cs:
            ctx.check(r is not c, "the sum is a new circuit")
    for c, d in zip(cs, ds):
        check_model(ctx, c, d[0], size(d), f"operand of {case} afterwards")
    # appending to the result's operations through another addition never reaches the operands
    ctx.check((results[0] + zq.real_op(OPS[0])).n_qubits == max(n, 1), "appending an operation")
    check_model(ctx, results[0], ops, n, f"sum of {case} after being extended")
    ctx.state(tuple(case))
    e = Circuit()
    ctx.check(results[0] + e == results[0] and e + results[0] == results[0], f"empty circuit as identity for {case}")


def gen_append(tier):
    for ci in range(len(CIRCS)):
        for L in (1, 2, 3) if tier == "thorough" else (1, 2):
            for ops in itertools.product(range(len(OPS) - 1), repeat=L):
                yield [ci, list(ops)]


def step_append(ctx, case):
    ci, ops = case
    d = CIRCS[ci]
    c0 = c = circ_of(d)
    n = size(d)
    done = list(d[0])
    for i in ops:
        old = c
        c = c + zq.real_op(OPS[i])
        ctx.step()
        check_model(ctx, old, done, n, "circuit after appending to it")
        done.append(i)
        n = max(n, zq.op_size(OPS[i]))
        check_model(ctx, c, done, n, f"{case}")
        ctx.state((tuple(done), n))
    c1 = c0
    c1 += zq.real_op(OPS[ops[0]])
    check_model(ctx, c0, d[0], size(d), "circuit after += on another name")
    ctx.raises(lambda: c + 1, "adding a number")
    ctx.raises(lambda: c + "X", "adding text")


def gen_eq(tier):
    seqs = [[]] + [list(s) for L in (1, 2) for s in itertools.product(range(len(OPS)), repeat=L)]
    for s in seqs:
        for n in (None, 3, 4):
            yield [s, n]


def step_eq(ctx, case):
    s, n = case
    c = circ_of(case)
    me = (s, size(case))
    others = [[]] + [list(x) for L in (1, 2) for x in itertools.product(range(len(OPS)), repeat=L)]
    for t in others:
        if len(t) == 2 and len(s) == 2 and t[0] != s[0] and t[1] != s[1]:
            continue
        for m in (None, 4):
            o = circ_of([t, m])
            want = me == (t, size([t, m]))
            ctx.eq(c == o, want, f"equality of {case} and {[t, m]}")
            ctx.eq(c != o, not want, f"inequality of {case} and {[t, m]}")
        ctx.step()
    ctx.state(str(case))
    ctx.check(not (c == "circuit") and not (c == None) and c != 5, "equality with other types")  # noqa: E711


# ---- register sizes ------------------------------------------------------------------
BADN = [-1, -5, 0.5, 2.5, -2.0, 1.0001]
GOODN = [1, 2, 7, 40, 3.0]


def gen_size(tier):
    for ops in ([], [0], [2, 1], [8]):
        for n in BADN + GOODN + ["np3", "npbad"]:
            yield [ops, n]


def step_size(ctx, case):
    ops, n = case
    val = np.int64(3) if n == "np3" else np.float64(3.5) if n == "npbad" else n
    mk = lambda: Circuit([zq.real_op(OPS[i]) for i in ops], n_qubits=val)  # noqa: E731
    ctx.step()
    ctx.state(str(case))
    if n in BADN or n == "npbad":
        ctx.raises(mk, f"register size {n}", ValueError)
    else:
        c = mk()
        ctx.eq(c.n_qubits, int(val), "register size")
    # construction from any iterable
    for it in (tuple, iter, lambda x: (y for y in x)):
        c = Circuit(it([zq.real_op(OPS[i]) for i in ops]), n_qubits=5)
        check_model(ctx, c, ops, 5, "circuit from an iterable")
    src = [zq.real_op(OPS[i]) for i in ops]
    c = Circuit(src, n_qubits=5)
    src.append(zq.real_op(OPS[0]))
    check_model(ctx, c, ops, 5, "circuit after its source list changed")


# ---- splitting ---------------------------------------------------------------------------
def gen_split(tier):
    L = 6 if tier == "quick" else 8
    for k in range(0, L + 1):
        # operation kinds 0..2 in every arrangement, every truth table over the kinds
        for seq in itertools.product(range(3), repeat=k):
            yield [list(seq)]


KINDS = [0, 4, 9]  # X, RX, multi-phase
VALS = [(False, True), (0, 1), ("a", "b"), (None, 2.5)]


def step_split(ctx, case):
    seq = case[0]
    ops = [KINDS[i] for i in seq]
    n = 4 if len(seq) % 2 else 3
    c = Circuit([zq.real_op(OPS[i]) for i in ops], n_qubits=n)
    for table in range(8):
        f, t = VALS[table % 4] if len(seq) < 5 else VALS[0]
        calls = []

        def pred(op):
            k = 2 if isinstance(op, MultiPhaseOperation) else (1 if op.gate.name == "RX" else 0)
            calls.append(k)
            return t if table >> k & 1 else f

        want = []
        for k, i in zip(seq, ops):
            v = t if table >> k & 1 else f
            if want and want[-1][0] == v:
                want[-1][1].append(i)
            else:
                want.append((v, [i]))
        got = list(split_circuit(c, pred))
        ctx.step()
        ctx.eq([g[0] for g in got], [w[0] for w in want], f"predicate values for {seq} with table {table}")
        for g, w in zip(got, want):
            check_model(ctx, g[1], w[1], n, f"part of {seq}")
        total = Circuit(n_qubits=n)
        for g in got:
            total = total + g[1]
        ctx.check(total == c, f"parts of {seq} do not add up to the circuit")
        # consuming the parts one at a time gives the same parts
        it = split_circuit(c, pred)
        for w in want:
            v, part = next(it)
            check_model(ctx, part, w[1], n, f"lazily taken part of {seq}")
        ctx.check(next(it, None) is None, "further parts")
        ctx.state((tuple(seq), table))
        ctx.outcome(len(want))
    check_model(ctx, c, ops, n, "circuit after splitting")


# ---- operations on any qubits ----------------------------------------------------------------
def gen_place(tier):
    top = 5 if tier == "quick" else 6
    for k in range(1, 5):
        for qs in itertools.permutations(range(top), k):
            yield list(qs)


def step_place(ctx, case):
    k = len(case)
    ctx.state(tuple(case))
    forms = [["g", "X", [], case, [k - 1] if k > 1 else []], ["c", f"CU{min(k, 3)}", case, [1] if k == 4 else ["d"]]]
    if k >= 2:
        forms.append(["g", "SWAP", [], case, [k - 2] if k > 2 else []])
    for d in forms:
        op = zq.real_op(d)
        need = max(case) + 1
        ctx.eq(Circuit([op]).n_qubits, need, f"register of {d}")
        for base, n in ((Circuit(), 0), (Circuit([zq.real_op(OPS[0])]), 1), (Circuit([zq.real_op(OPS[3])], n_qubits=3), 3), (Circuit(n_qubits=9), 9)):
            got = base + op
            ctx.step()
            ctx.eq((got.n_qubits, base.n_qubits), (max(n, need), n), f"registers after appending {d} to a circuit on {n} qubits")
            ctx.check(list(got.operations) == [*base.operations, op], f"operations after appending {d}")
            ctx.check(got == base + Circuit([op]) and (Circuit([op]) + base).n_qubits == max(n, need), f"sum with {d}")
        for ops in itertools.permutations([op, zq.real_op(OPS[0]), zq.real_op(OPS[3])]):
            ctx.eq(Circuit(ops).n_qubits, max(need, 2), f"register with {d}")


# ---- long circuits ------------------------------------------------------------------------------
def gen_long(tier):
    for L in (17, 60, 150) if tier == "quick" else (16, 17, 60, 150, 400):
        for pat in itertools.product(range(3), repeat=4):
            for n in (3, 30):
                yield [L, list(pat), n]


def step_long(ctx, case):
    """long circuits: splitting, sums of many parts, growing one operation at a time"""
    L, pat, n = case
    seq = [pat[i % 4] if i % 13 else pat[i % 3] for i in range(L)]
    ops = [KINDS[i] for i in seq]
    real = [zq.real_op(OPS[i]) for i in ops]
    c = Circuit(real, n_qubits=n)
    ctx.state((L, tuple(pat), n))

    def same(got, want, size, what):
        ctx.check(got.n_qubits == size and len(got.operations) == len(want) and all(a == b for a, b in zip(got.operations, want)), lambda: f"{case}, {what}: {got}")

    kind = lambda op: 2 if isinstance(op, MultiPhaseOperation) else (1 if op.gate.name == "RX" else 0)  # noqa: E731
    for table in range(8):
        want = []
        for op in real:
            v = bool(table >> kind(op) & 1)
            if want and want[-1][0] == v:
                want[-1][1].append(op)
            else:
                want.append((v, [op]))
        got = list(split_circuit(c, lambda op: bool(table >> kind(op) & 1)))
        ctx.step()
        ctx.eq([g[0] for g in got], [w[0] for w in want], f"{case}: predicate values with table {table}")
        for g, w in zip(got, want):
            same(g[1], w[1], n, f"part with table {table}")
        total = Circuit(n_qubits=n)
        for g in got:
            total += g[1]
        same(total, real, n, "sum of the parts")
        ctx.check(total == c, f"{case}: sum of the parts differs")
    grown, size = Circuit(), 0
    for op in real:
        grown = grown + (Circuit([op]) if isinstance(op, MultiPhaseOperation) else op)
        size = max(size, max(op.qubit_indices) + 1)
    same(grown, real, size, "grown one at a time")
    parts = [Circuit(real[i:i + 3], n_qubits=3 + i % 17) for i in range(0, L, 3)]
    total = parts[0]
    for p in parts[1:]:
        total = total + p
    same(total, real, max(p.n_qubits for p in parts), "sum of many parts")
    ctx.check(c != Circuit(real[:-1], n_qubits=n) and c != Circuit(real[:-1] + [zq.real_op(OPS[5])], n_qubits=n) and c != Circuit(real, n_qubits=n + 1)
              and c == Circuit(list(real), n_qubits=n), f"{case}: equality")


FRESH = zqfresh.Fresh(zqfreshlist.C05)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("placements", gen_place, step_place, "operations on all ordered tuples of 1-4 qubits out of 5 (thorough 6), alone, appended to circuits on 0, 1, 3, 9 qubits, and in sums"),
    Space("sums", gen_add, step_add, "all sums of 2-3 (thorough 4) circuits from 12, in every bracketing"),
    Space("appends", gen_append, step_append, "12 circuits extended by all sequences of 1-2 (thorough 3) operations from 9"),
    Space("equality", gen_eq, step_eq, "all pairs of circuits of up to two operations from 10 (pairs sharing a position) in two registers"),
    Space("sizes", gen_size, step_size, "all listed register sizes x operation lists"),
    Space("splits", gen_split, step_split, "all arrangements of three kinds of operations up to length 6 (thorough 8) x all 8 predicates"),
    Space("long", gen_long, step_long, "circuits of 17-150 (thorough 400) operations repeating every pattern of 4 kinds: 8 splits, sums of many parts, growth"),
]
