"""C01: circuit unitary / state evolution == product of embedded gate matrices."""
import itertools

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import Circuit
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C01"
ASSUMPTIONS = [
    "gate matrices used by the reference are the textbook definitions (their agreement with the gate set is C02)",
    "amplitudes compared to 1e-7",
]

P1 = {0: [], 1: [0.7], 3: [0.4, 1.1, -0.6]}


def _gates_for(k, tier):
    """descriptions (as functions of the qubit list) of gates acting on k qubits"""
    out = []
    if k <= 3:
        out.append(lambda q: ["c", f"CU{k}", q, []])
    if k == 1:
        for g in ("H", "S", "RX", "U3", "T", "Y"):
            out.append(lambda q, g=g: ["g", g, P1[ref.GATES[g][1]], q, []])
    if k == 2:
        for g in ("CNOT", "CPHASE", "ISWAP", "XY", "SWAP", "YY"):
            out.append(lambda q, g=g: ["g", g, P1[ref.GATES[g][1]], q, []])
        out.append(lambda q: ["c", "CU1", q, [1]])
    if k == 3:
        out.append(lambda q: ["c", "CU2", q, [1]])
        out.append(lambda q: ["g", "RY", [0.9], q, [2, "d"]])
        out.append(lambda q: ["c", "CU3", q, ["d"]])
    if k == 4:
        out.append(lambda q: ["c", "CU3", q, [1]])
        out.append(lambda q: ["c", "CU1", q, ["d", 3]])
    if k == 5:
        out.append(lambda q: ["c", "CU2", q, [2, "d", 1]])
    return out


def gen_place(tier):
    top = {1: 6, 2: 6, 3: 5, 4: 5, 5: 5} if tier == "quick" else {1: 8, 2: 7, 3: 6, 4: 6, 5: 6}
    for n in range(1, 9):
        for k in range(1, 6):
            if k > n or n > top[k]:
                continue
            gs = _gates_for(k, tier)
            for gi, g in enumerate(gs):
                for q in ref.placements(n, k):
                    if gi > 1 and n > 4 and q != tuple(sorted(q)) and q != tuple(sorted(q, reverse=True)):
                        continue
                    yield [n, g(list(q))]


def step_place(ctx, case):
    n, d = case
    real = zq.real_op(d)
    m, q = zq.ref_op(d)
    want = ref.unitary([(m, q)], n)
    for mode in ("explicit", "grown"):
        if mode == "grown" and zq.op_size(d) != n:
            continue
        c = Circuit([real], n_qubits=n if mode == "explicit" else None)
        ctx.eq(c.n_qubits, n, "register size")
        got = zq.num(c.to_unitary())
        ctx.step()
        ctx.state((n, tuple(q), d[1], mode))
        ctx.check(ref.maxdiff(got, want) < ref.TOL, lambda: f"unitary of {d} on {n} qubits is wrong by {ref.maxdiff(got, want)}")
    v = ref.generic_state(n)
    out = zq.vec(real.apply(np.array(v)))
    ctx.step()
    ctx.check(ref.vdiff(out, ref.matvec(want, v)) < ref.TOL, f"applying {d} to a state of {n} qubits")
    out = zq.vec(real.apply(list(v)))
    ctx.check(ref.vdiff(out, ref.matvec(want, v)) < ref.TOL, f"applying {d} to a list state of {n} qubits")


ALPHA3 = [
    ["g", "H", [], [0], []],
    ["g", "RX", [0.7], [2], []],
    ["g", "T", [], [1], ["d"]],
    ["g", "CNOT", [], [2, 0], []],
    ["g", "U3", [0.4, 1.1, -0.6], [1], []],
    ["g", "XY", [0.5], [1, 2], []],
    ["c", "CU2", [2, 1], []],
    ["c", "CU1", [0, 2], [1]],
    ["g", "RZ", [1.3], [0], []],
    ["c", "CU3", [1, 2, 0], []],
    ["m", 3, 1],
    ["m", 3, 2],
]


def gen_seq(tier):
    depth = 3 if tier == "quick" else 4
    yield [[], 1]
    yield [[], 3]
    for L in range(1, depth + 1):
        for s in itertools.product(range(len(ALPHA3)), repeat=L):
            yield [list(s), 3]
    # the same short histories in a register with idle qubits
    for L in range(1, 3):
        for s in itertools.product(range(10), repeat=L):
            yield [list(s), 5]


def step_seq(ctx, case):
    idx, n = case
    ds = [ALPHA3[i] for i in idx]
    rs = [zq.ref_op(d) for d in ds]
    circ = Circuit([zq.real_op(d) for d in ds], n_qubits=n)
    # histories: the circuit is also grown one operation at a time
    grown = Circuit(n_qubits=n)
    for d in ds:
        if d[0] == "m":
            grown = grown + Circuit([zq.real_op(d)])
        else:
            grown += zq.real_op(d)
    ctx.eq(grown.n_qubits, n, "register of grown circuit")
    if all(d[0] != "m" for d in ds):
        got = zq.num(circ.to_unitary())
        want = ref.unitary(rs, n)
        ctx.step(len(ds))
        ctx.check(ref.maxdiff(got, want) < ref.TOL, lambda: f"unitary of {ds} is wrong by {ref.maxdiff(got, want)}")
    sim = SymbolicSimulator()
    for k, init in ((0, None), (1, ref.generic_state(n, 3))):
        v = ref.run(rs, n, init)
        if init is None:
            wf = sim.get_wavefunction(circ)
        else:
            arr = np.array(init)
            wf = sim.get_wavefunction(circ, initial_state=arr)
            ctx.eq(arr.tolist(), init, "initial state must not be modified")
        got = zq.vec(wf)
        ctx.step(len(ds))
        ctx.state((tuple(idx), n, k))
        ctx.check(ref.vdiff(got, v) < ref.TOL, f"simulating {ds} from {'zero' if k == 0 else 'a supplied'} state")
    got = zq.vec(sim.get_wavefunction(grown))
    ctx.check(ref.vdiff(got, ref.run(rs, n)) < ref.TOL, f"simulating the grown circuit {ds}")
    # step by step application
    v = np.array(ref.generic_state(n, 1))
    w = ref.generic_state(n, 1)
    for d, r in zip(ds, rs):
        keep = v.tolist()
        v2 = zq.real_op(d).apply(v)
        ctx.eq(v.tolist(), keep, "apply must not modify its argument")
        v = np.array(zq.vec(v2))
        w = ref.apply(r[0], r[1], n, w)
        ctx.step()
        ctx.check(ref.vdiff(v.tolist(), w) < ref.TOL, f"stepwise application of {ds}")


def gen_basis(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for a in range(len(ALPHA3)):
            d = ALPHA3[a]
            if zq.op_size(d) > n or (d[0] == "m" and d[1] != n):
                continue
            for b in range(1 << n):
                yield [n, a, b]


def step_basis(ctx, case):
    n, a, b = case
    d = ALPHA3[a]
    init = [0j] * (1 << n)
    init[b] = 1 + 0j
    sim = SymbolicSimulator()
    got = zq.vec(sim.get_wavefunction(zq.real_circuit([d], n), initial_state=np.array(init)))
    want = ref.run([zq.ref_op(d)], n, init)
    ctx.step()
    ctx.state((n, a, b))
    ctx.check(ref.vdiff(got, want) < ref.TOL, f"{d} on basis state {b} of {n} qubits")


th, ga = sympy.Symbol("theta"), sympy.Symbol("gamma")
SYM = [
    (lambda: zq.circuits.RX(th)(0), lambda t, g: (ref.gate("RX", t), [0])),
    (lambda: zq.circuits.RZ(th * 2 - ga)(1), lambda t, g: (ref.gate("RZ", 2 * t - g), [1])),
    (lambda: zq.circuits.CNOT(1, 0), lambda t, g: (ref.gate("CNOT"), [1, 0])),
    (lambda: zq.circuits.RY(ga).controlled(1)(2, 0), lambda t, g: (ref.controlled(ref.gate("RY", g), 1), [2, 0])),
    (lambda: zq.circuits.PHASE(ga).dagger(2), lambda t, g: (ref.dagger(ref.gate("PHASE", g)), [2])),
    (lambda: zq.circuits.H(1), lambda t, g: (ref.gate("H"), [1])),
]


def gen_sym(tier):
    for L in (1, 2) if tier == "quick" else (1, 2, 3):
        for s in itertools.product(range(len(SYM)), repeat=L):
            if any(i in (0, 1, 3, 4) for i in s):
                yield [list(s)]


def step_sym(ctx, case):
    ids = case[0]
    circ = Circuit([SYM[i][0]() for i in ids], n_qubits=3)
    t, g = 0.37, -1.21
    want = ref.unitary([SYM[i][1](t, g) for i in ids], 3)
    u = circ.to_unitary()
    ctx.check(hasattr(u, "free_symbols"), "a circuit with free parameters must give a symbolic unitary")
    got = zq.num(u.subs({th: t, ga: g}).evalf())
    ctx.step(len(ids))
    ctx.state(tuple(ids))
    ctx.check(ref.maxdiff(got, want) < ref.TOL, f"symbolic unitary of {ids}")
    # symbolic simulation
    wf = SymbolicSimulator().get_wavefunction(circ)
    amps = [complex(sympy.sympify(wf[i]).subs({th: t, ga: g})) for i in range(8)]
    ctx.check(ref.vdiff(amps, [r[0] for r in want]) < ref.TOL, f"symbolic simulation of {ids}")


def gen_long(tier):
    for L in (4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33) + (() if tier == "quick" else (12, 13, 24, 25, 64, 65, 100, 128)):
        for stride in (1, 5, 7, 11):
            for start in range(0, len(ALPHA3), 3 if tier == "quick" else 1):
                for mp in (False, True):
                    yield [L, stride, start, mp]


def step_long(ctx, case):
    """periodic words over the operations"""
    L, stride, start, mp = case
    base = len(ALPHA3) if mp else len(ALPHA3) - 2
    idx = [(start + stride * j + (j // base)) % base for j in range(L)]
    ds = [ALPHA3[i] for i in idx]
    rs = [zq.ref_op(d) for d in ds]
    circ = Circuit([zq.real_op(d) for d in ds], n_qubits=3)
    ctx.step(L)
    ctx.state(tuple(case))
    sim = SymbolicSimulator()
    v = ref.run(rs, 3, ref.generic_state(3, 3))
    got = zq.vec(sim.get_wavefunction(circ, initial_state=np.array(ref.generic_state(3, 3))))
    ctx.check(ref.vdiff(got, v) < ref.TOL, f"simulating {L} operations {idx}")
    if not mp:
        got = zq.num(circ.to_unitary())
        ctx.check(ref.maxdiff(got, ref.unitary(rs, 3)) < ref.TOL, f"unitary of {L} operations {idx}")


def gen_wide(tier):
    for n in range(7, 10 if tier == "quick" else 12):
        for q in range(n):
            yield [n, ["c", "CU1", [q], []]]
        for q in ([0, n - 1], [n - 1, 0], [n // 2, n - 2], [n - 1, n - 2], [1, 0], [3, n - 3], [n - 4, 2]):
            yield [n, ["c", "CU2", q, []]]
            yield [n, ["g", "CNOT", [], q, []]]
        for q in ([0, n - 1, 3], [n - 1, 2, 1], [4, 5, 6], [6, 4, 5], [n - 1, 0, n - 2]):
            yield [n, ["c", "CU3", q, []]]
            yield [n, ["g", "RY", [0.9], q, [2, "d"]]]
        yield [n, ["c", "CU1", list(range(n - 1, -1, -2))[:5], [len(list(range(n - 1, -1, -2))[:5]) - 1]]]
        yield [n, ["m", n, 1]]


def step_wide(ctx, case):
    """single operations on wide registers, applied to a generic state and to basis states"""
    n, d = case
    real = zq.real_op(d)
    m, q = zq.ref_op(d) if d[0] != "m" else (None, None)
    ctx.step()
    ctx.state((n, repr(d)))
    vs = [ref.generic_state(n)]
    for b in (0, 1, 1 << (n - 1), (1 << n) - 1):
        v = [0j] * (1 << n)
        v[b] = 1 + 0j
        vs.append(v)
    for v in vs:
        if d[0] == "m":
            want = [a * complex(np.cos(t), np.sin(t)) for a, t in zip(v, zq.phases(n, d[2]))]
        else:
            want = ref.apply(m, q, n, v)
        got = zq.vec(real.apply(np.array(v)))
        ctx.check(ref.vdiff(got, want) < ref.TOL, f"applying {d} to a state of {n} qubits")


def gen_bad(tier):
    for k in (0, 1, 2, 3):
        for wrong in (1, 2, 3, 5, 6, 7, 8, 9, 12, 16):
            yield [k, wrong]


def step_bad(ctx, case):
    """states of a wrong length are rejected"""
    k, wrong = case
    ctx.step()
    ctx.state(tuple(case))
    if k == 0:
        op, ok = zq.real_op(["m", 2, 1]), wrong == 4
    else:
        op = zq.real_op(["c", f"CU{k}", list(range(k)), []])
        ok = wrong & (wrong - 1) == 0 and wrong >= 1 << k
    v = np.ones(wrong, dtype=complex) / np.sqrt(wrong)
    if ok:
        ctx.eq(len(zq.vec(op.apply(v))), wrong, "length of the state")
    else:
        ctx.raises(lambda: op.apply(v), f"an operation on {k or 2} qubits applied to {wrong} amplitudes")


PI = np.pi
ANGLES = [0, 0.0, -0.0, 1e-9, PI / 2, PI, -PI, 3 * PI / 2, 2 * PI, -2 * PI, 3 * PI, 4 * PI, 5 * PI, 0.7, -1.3]


def gen_angles(tier):
    names = sorted(g for g in ref.GATES if ref.GATES[g][1]) + ["CP1", "CP2"]
    for g in names:
        k = {"CP1": 1, "CP2": 2}.get(g) or ref.GATES[g][0]
        np_ = {"CP1": 1, "CP2": 2}.get(g) or ref.GATES[g][1]
        for ai in range(len(ANGLES)) if np_ == 1 else itertools.product(range(0, len(ANGLES), 2 if np_ == 2 else 3), repeat=np_):
            for w in ([], ["d"], [1], [1, "d"]) if np_ == 1 or tier != "quick" else ([], ["d", 1]):
                yield [g, k, [ai] if np_ == 1 else list(ai), w]


def step_angles(ctx, case):
    """gates at special angles: twice in a row, next to the same gate at another angle, and on other qubits"""
    g, k, idx, w = case
    ps = [ANGLES[i] for i in idx]
    n = k + sum(x for x in w if x != "d") + 1
    q = list(range(n - 1, 0, -1))
    other = [p + 0.45 for p in ps]
    for ds in ([["g", g, ps, q, w]], [["g", g, ps, q, w]] * 2, [["g", g, ps, q, w], ["g", g, other, q, w], ["g", g, ps, [x - 1 for x in q], w], ["g", g, ps, q, w + ["d"]]]):
        circ = Circuit([zq.real_op(d) for d in ds], n_qubits=n)
        rs = [zq.ref_op(d) for d in ds]
        ctx.step(len(ds))
        ctx.state((g, tuple(idx), tuple(w), len(ds)))
        ctx.check(ref.maxdiff(zq.num(circ.to_unitary()), ref.unitary(rs, n)) < ref.TOL, lambda: f"unitary of {ds}")
        v = ref.generic_state(n, 2)
        got = zq.vec(SymbolicSimulator().get_wavefunction(circ, initial_state=np.array(v)))
        ctx.check(ref.vdiff(got, ref.run(rs, n, v)) < ref.TOL, lambda: f"simulating {ds}")
        for d in ds:
            v2 = zq.vec(zq.real_op(d).apply(np.array(v)))
            v = ref.apply(*zq.ref_op(d), n, v)
            ctx.check(ref.vdiff(v2, v) < ref.TOL, lambda: f"applying {d}")


FRESH = zqfresh.Fresh(zqfreshlist.C01)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("angles", gen_angles, step_angles, "every gate with parameters (2 custom ones included) at 15 angles (0, multiples of pi/2, generic) x 4 wrappings (angle grids and 2 wrappings for several parameters): alone, repeated, and next to another angle"),
    Space("sequences", gen_seq, step_seq, "all sequences of <=3 (thorough 4) operations from 12 on 3 qubits, <=2 on 5 qubits"),
    Space("placements", gen_place, step_place, "all ordered placements of 1..5-qubit gates in registers up to 6 (thorough 8) qubits"),
    Space("basis", gen_basis, step_basis, "every operation from every basis state, n<=3 (4)"),
    Space("symbolic", gen_sym, step_sym, "all sequences of <=2 (3) symbolic operations from 6"),
    Space("long", gen_long, step_long, "periodic words of 4 to 33 (thorough 128) operations with 4 strides"),
    Space("wide", gen_wide, step_wide, "single operations on 7 to 9 (thorough 11) qubits, a generic state and four basis states"),
    Space("wrong-lengths", gen_bad, step_bad, "operations on 1 to 3 qubits applied to vectors of 10 lengths"),
]
