"""C02: gate matrices, wrappers, parameter replacement and gate equality."""
import itertools
import math

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import circuits
from zquantum.core.circuits import CustomGateDefinition, Dagger, ControlledGate

ID = "C02"
ASSUMPTIONS = [
    "textbook gate definitions as documented in the gate matrices' docstrings (rotations exp(-i t P/2), RH with its phase, U3 as in Qiskit)",
    "numerically close: difference 1e-12 counts as equal, 1e-3 as different; nothing is claimed between",
]

ANGLES = [0.0, 0.3, -1.7, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 2 * math.pi,
          3 * math.pi, 4 * math.pi, -3 * math.pi / 2, 7.9, -100.5, 1e-9, 1e-4, 1, -2, 0]
MORE = [math.pi * k / 8 for k in range(-17, 18)]
KINDS = ["float", "npfloat", "sympyfloat", "rational"]
U3A = [0.0, 0.3, -1.7, math.pi, math.pi / 2, 5.0, -2.5]


def cast(x, kind):
    if kind == "npfloat":
        return np.float64(x)
    if kind == "sympyfloat":
        return sympy.Float(x)
    if kind == "rational":
        return sympy.Rational(x).limit_denominator(1000) * 1
    if kind == "pi":
        return sympy.pi * sympy.Rational(x).limit_denominator(16)
    return x


def gen_builtin(tier):
    for name, (nq, np_) in ref.GATES.items():
        if np_ == 0:
            yield [name, [], "float"]
        elif np_ == 1:
            for a in ANGLES + (MORE if tier == "thorough" else []):
                yield [name, [a], "float"]
            for k in KINDS[1:]:
                for a in (0.3, -1.7, 2.0):
                    yield [name, [a], k]
            for a in (0.5, -0.25, 1, 0.125, 0):
                yield [name, [a], "pi"]
        else:
            vals = U3A if tier == "quick" else U3A + [math.pi / 4, 2 * math.pi, -math.pi]
            for p in itertools.product(vals, repeat=np_):
                yield [name, list(p), "float"]
            for k in KINDS[1:]:
                yield [name, [0.3, -1.7, 0.5], k]
            yield [name, [0.5, 0.25, -1], "pi"]


def step_builtin(ctx, case):
    name, ps, kind = case
    nq, np_ = ref.GATES[name]
    vals = [cast(p, kind) for p in ps]
    g = zq.real_gate(name, vals)
    ctx.eq(g.num_qubits, nq, f"{name}.num_qubits")
    ctx.eq(g.name, name, "gate name")
    ctx.eq(tuple(g.params), tuple(vals), f"{name} params")
    ctx.eq(list(g.free_symbols), [], f"{name} free symbols")
    m = zq.gate_num(g)
    want = ref.gate(name, *[float(v) for v in vals])
    ctx.step()
    ctx.state((name, tuple(ps), kind))
    ctx.check(ref.maxdiff(m, want) < ref.TOL, lambda: f"{name}({vals}) matrix {m}, expected {want}")
    ctx.check(ref.maxdiff(ref.matmul(m, ref.dagger(m)), ref.eye(1 << nq)) < ref.TOL, f"{name}({vals}) not unitary")
    d = g.dagger
    ctx.eq(d.num_qubits, nq, "conjugate's qubits")
    ctx.check(ref.maxdiff(zq.gate_num(d), ref.dagger(want)) < ref.TOL, f"conjugate of {name}({vals})")
    ctx.check(ref.maxdiff(zq.gate_num(d.dagger), want) < ref.TOL, f"double conjugate of {name}({vals})")
    # as an operation: same matrix on its own register, params and symbols forwarded
    op = g(*range(nq))
    ctx.eq(tuple(op.params), tuple(vals), "operation params")
    ctx.eq(tuple(op.qubit_indices), tuple(range(nq)), "operation qubits")
    ctx.check(ref.maxdiff(zq.num(op.lifted_matrix(nq)), want) < ref.TOL, f"operation matrix of {name}({vals})")


a_, b_ = sympy.Symbol("alpha"), sympy.Symbol("beta")
PARAM_CUSTOM = CustomGateDefinition(
    "PC", sympy.Matrix([[sympy.exp(sympy.I * a_), 0], [0, sympy.exp(-2 * sympy.I * b_)]]), (b_, a_)
)


def pc_ref(b, a):
    return [[ref._expi(a), 0j], [0j, ref._expi(-2 * b)]]


BASES = [(n, [0.4, 1.1, -0.6][: ref.GATES[n][1]]) for n in ref.GATES] + [
    ("CU1", []), ("CU2", []), ("CU3", []), ("PC", [0.4, 1.1])]
NEWP = {1: [-0.9], 2: [0.2, -0.8], 3: [0.2, -0.8, 1.4]}


def base(name, ps):
    if name == "PC":
        return PARAM_CUSTOM(*ps), pc_ref(*ps)
    return zq.real_gate(name, ps), zq.ref_gate(name, ps)


def gen_wrap(tier):
    depth = 3 if tier == "quick" else 4
    cap = 4 if tier == "quick" else 5
    for L in range(0, depth + 1):
        for w in itertools.product(["d", 1, 2, 3], repeat=L):
            for bi, (n, ps) in enumerate(BASES):
                k = 1 if n == "PC" else (int(n[2]) if n.startswith("CU") else ref.GATES[n][0])
                tot = k + sum(x for x in w if x != "d")
                if tot > cap:
                    continue
                yield [bi, list(w)]


def step_wrap(ctx, case):
    bi, w = case
    name, ps = BASES[bi]
    g, m = base(name, ps)
    k = g.num_qubits
    cur, mat = g, m
    for x in w:
        cur = cur.dagger if x == "d" else cur.controlled(x)
        mat = ref.dagger(mat) if x == "d" else ref.controlled(mat, x)
        ctx.step()
    ctx.state((name, tuple(w)))
    nq = k + sum(x for x in w if x != "d")
    ctx.eq(cur.num_qubits, nq, f"{name} wrapped {w}: qubits")
    ctx.eq(tuple(cur.params), tuple(g.params), f"{name} wrapped {w}: params")
    got = zq.gate_num(cur)
    ctx.check(ref.maxdiff(got, mat) < ref.TOL, f"{name} wrapped {w}: matrix")
    ctx.check(cur.dagger.dagger == cur, f"{name} wrapped {w}: conjugating twice is not the identity")
    ctx.check(ref.maxdiff(zq.gate_num(cur.dagger), ref.dagger(mat)) < ref.TOL, f"{name} wrapped {w}: conjugate")
    # the same controls in one step give the same gate
    total = sum(x for x in w if x != "d")
    nd = sum(1 for x in w if x == "d")
    direct = g.controlled(total) if total else g
    if nd % 2:
        direct = direct.dagger
    ctx.check(direct == cur, f"{name} wrapped {w} differs from the same wrapping done in one step")
    if ps:
        newp = tuple(NEWP[len(ps)])
        r = cur.replace_params(newp)
        ctx.eq(tuple(r.params), newp, "replaced params")
        mm = base(name, newp)[1]
        for x in w:
            mm = ref.dagger(mm) if x == "d" else ref.controlled(mm, x)
        ctx.check(ref.maxdiff(zq.gate_num(r), mm) < ref.TOL, f"{name} wrapped {w}: matrix after replacing parameters")
        ctx.check(r == zq.wrap_real(g.replace_params(newp), w), f"{name} wrapped {w}: replace_params does not commute with wrapping")
        ctx.check(not (r == cur), f"{name} wrapped {w}: different parameters compare equal")
        ctx.eq(tuple(cur.params), tuple(g.params), "replace_params must not modify the gate")
        # as an operation
        op = cur(*range(nq)[::-1]).replace_params(newp)
        ctx.check(op == r(*range(nq)[::-1]), "operation replace_params")


def gen_many(tier):
    for name, ps in [("X", []), ("T", []), ("RX", [0.4]), ("RH", [1.1]), ("CP1", [0.0]), ("CP1", [0.6]), ("CU1", []), ("XY", [0.7]), ("SWAP", []), ("CP2", [0.3, 0.9]), ("CU3", [])]:
        for k in (4, 5, 6, 7) if tier == "quick" else (4, 5, 6, 7, 8, 9):
            for form in ("k", "kd", "dk", "1,k-1", "k-1,d,1", "2,2,k-4"):
                yield [name, ps, k, form]


def step_many(ctx, case):
    """many controls"""
    name, ps, k, form = case
    w = {"k": [k], "kd": [k, "d"], "dk": ["d", k], "1,k-1": [1, k - 1], "k-1,d,1": [k - 1, "d", 1], "2,2,k-4": [2, 2] + ([k - 4] if k > 4 else [])}[form]
    g = zq.real_gate(name, ps)
    cur = zq.wrap_real(g, w)
    ctx.step()
    ctx.state((name, tuple(ps), k, form))
    nq = g.num_qubits + k
    dag = "d" in w
    direct = g.controlled(k)
    direct = direct.dagger if dag else direct
    sym = [sympy.Symbol(f"x{i}") for i in range(len(ps))]
    newp = tuple(p + 0.25 for p in ps)
    variants = [("itself", cur, ps), ("conjugated twice", cur.dagger.dagger, ps), ("parameters replaced and put back", cur.replace_params(newp).replace_params(tuple(ps)) if ps else cur, ps),
                ("empty binding", cur.bind({}), ps), ("bound", zq.wrap_real(zq.real_gate(name, sym), w).bind(dict(zip(sym, ps))) if ps else cur, ps)]
    for what, x, _ in variants:
        ctx.eq(x.num_qubits, nq, f"{name} wrapped {w}, {what}: qubits")
        ctx.eq(tuple(x.params), tuple(ps), f"{name} wrapped {w}, {what}: params")
        ctx.check(bool(x == direct), f"{name} wrapped {w}, {what}: differs from the gate wrapped in one step")
        ctx.check(not bool(x == g.controlled(k - 1)) and not bool(x == g.controlled(k + 1)), f"{name} wrapped {w}, {what}: equals a gate with another number of controls")
    if nq <= (7 if ctx.tier == "quick" else 8):
        m = np.array(cur.matrix.tolist(), dtype=complex)
        b = np.array(zq.ref_gate(name, ps), dtype=complex)
        want = np.eye(1 << nq, dtype=complex)
        want[-len(b):, -len(b):] = b.conj().T if dag else b
        ctx.check(m.shape == want.shape and abs(m - want).max() < ref.TOL, f"{name} wrapped {w}: matrix")
        if ps:
            r = np.array(cur.replace_params(newp).matrix.tolist(), dtype=complex)
            b = np.array(zq.ref_gate(name, newp), dtype=complex)
            want[-len(b):, -len(b):] = b.conj().T if dag else b
            ctx.check(abs(r - want).max() < ref.TOL, f"{name} wrapped {w}: matrix after replacing parameters")


# --- direct construction of wrappers ---

def gen_direct(tier):
    for bi in range(len(BASES)):
        for form in range(4):
            yield [bi, form]


def step_direct(ctx, case):
    bi, form = case
    name, ps = BASES[bi]
    g, m = base(name, ps)
    if form == 0:
        w, mm = Dagger(g), ref.dagger(m)
    elif form == 1:
        w, mm = Dagger(Dagger(g)), m
    elif form == 2:
        w, mm = ControlledGate(ControlledGate(g, 1), 1), ref.controlled(m, 2)
    else:
        w, mm = ControlledGate(Dagger(g), 1), ref.controlled(ref.dagger(m), 1)
    ctx.step()
    ctx.state((name, form))
    if w.num_qubits <= 5:
        ctx.check(ref.maxdiff(zq.gate_num(w), mm) < ref.TOL, f"{name} form {form}: matrix")
        ctx.check(ref.maxdiff(zq.gate_num(w.dagger), ref.dagger(mm)) < ref.TOL, f"{name} form {form}: conjugate")
        ctx.check(ref.maxdiff(zq.gate_num(w.bind({})), mm) < ref.TOL, f"{name} form {form}: empty binding")
        if w.num_qubits < 5:
            ctx.check(ref.maxdiff(zq.gate_num(w.controlled(1)), ref.controlled(mm, 1)) < ref.TOL, f"{name} form {form}: control")
        if ps:
            newp = tuple(NEWP[len(ps)])
            m2 = base(name, newp)[1]
            m2 = [ref.dagger(m2), m2, ref.controlled(m2, 2), ref.controlled(ref.dagger(m2), 1)][form]
            ctx.check(ref.maxdiff(zq.gate_num(w.replace_params(newp)), m2) < ref.TOL, f"{name} form {form}: replace_params")
    for bad in (0, -1):
        ctx.raises(lambda: ControlledGate(g, bad), f"{bad} controls accepted")
        ctx.raises(lambda: g.controlled(bad), f"{bad} controls accepted")


# --- equality: all pairs of a pool ---

x_ = sympy.Symbol("theta")
y_ = sympy.Symbol("gamma")
PVAR = [  # (label of equality class, value)
    ("0.1", 0.1), ("0.1", 0.1 + 1e-12), ("0.1", np.float64(0.1)), ("0.1", sympy.Float(0.1)),
    ("0.1", sympy.Rational(1, 10)),
    ("0.101", 0.101), ("-0.1", -0.1), ("0", 0), ("0", 0.0), ("0", 1e-13), ("t", x_), ("t", x_ + 0.0 * y_ if False else 2 * x_ / 2),
    ("g", y_), ("2t", 2 * x_), ("t+g", x_ + y_), ("t+g", y_ + x_), ("sq", (x_ + y_) ** 2),
    ("0.1+pi", 0.1 + math.pi), ("0.1+2pi", 0.1 + 2 * math.pi), ("0.1-2pi", 0.1 - 2 * math.pi), ("0.1+4pi", 0.1 + 4 * math.pi), ("0.1-4pi", sympy.Float(0.1 - 4 * math.pi)), ("0.1+8pi", 0.1 + 8 * math.pi),
    ("2pi", 2 * math.pi), ("2pi", 2 * sympy.pi), ("4pi", 4 * math.pi), ("1", 1), ("1", 1.0), ("-1", -1), ("t+2pi", x_ + 2 * sympy.pi), ("sin", sympy.sin(x_)), ("sin2pi", sympy.sin(x_) + 1),
    ("sq", x_ ** 2 + 2 * x_ * y_ + y_ ** 2), ("t+0.1", x_ + 0.1), ("-t", -x_),
]


def _pool():
    pool = []

    def add(key, make):
        pool.append((key, make))

    for gname in ("RX", "RY", "PHASE"):
        for lab, v in PVAR:
            add((gname, lab, (), None), lambda gname=gname, v=v: zq.real_gate(gname, [v]))
    for gname in ("X", "Z", "H", "T", "S", "CNOT", "CZ", "SWAP"):
        add((gname, "", (), None), lambda gname=gname: zq.real_gate(gname))
    for w in ([1], [2], ["d"], ["d", 1], [1, "d"], [1, 1], ["d", "d"]):
        for gname, v in (("RX", 0.1), ("RX", 0.101), ("T", None), ("CNOT", None)):
            n = sum(x for x in w if x != "d")
            dag = len([x for x in w if x == "d"]) % 2
            if gname == "CNOT":
                dag = 0
            key = (gname, "0.1" if v == 0.1 else ("0.101" if v else ""), ("c%d" % n if n else "", "d" if dag else ""), None)
            if key[2] == ("", ""):
                key = key[:2] + ((), None)
            add(key, lambda gname=gname, v=v, w=w: zq.wrap_real(zq.real_gate(gname, [v] if v else []), w))
    for p in ((0.1, 0.2, 0.3), (0.1, 0.3, 0.2), (0.1, 0.2, x_)):
        add(("U3", str(p), (), None), lambda p=p: circuits.U3(*p))
    mats = {"A": [[1, 0], [0, 1j]], "B": [[1, 0], [0, -1j]]}
    for nm in ("k1", "k2"):
        for mk, mt in mats.items():
            add((nm, mk, (), None), lambda nm=nm, mt=mt: CustomGateDefinition(nm, sympy.Matrix(mt), ())())
    add(("k1", "A", (), None), lambda: CustomGateDefinition("k1", sympy.Matrix([[1, 0], [0, sympy.I]]), ())())
    for order in ((a_, b_), (b_, a_)):
        for ps in ((0.1, 0.2), (0.2, 0.1)):
            add(("PC2", str(order) + str(ps), (), None), lambda order=order, ps=ps: CustomGateDefinition(
                "PC2", PARAM_CUSTOM.matrix, order)(*ps))
    return pool


POOL = _pool()


def gen_eq(tier):
    for i in range(len(POOL)):
        yield [i]


def step_eq(ctx, case):
    i = case[0]
    ki, mi = POOL[i]
    gi = mi()
    for j in range(len(POOL)):
        kj, mj = POOL[j]
        gj = mj()
        want = ki == kj
        ctx.step()
        ctx.state((i, j))
        ctx.outcome(("equal" if want else "different"))
        ctx.check((gi == gj) is want or bool(gi == gj) == want, lambda: f"{gi} == {gj} should be {want}")
        ctx.check(bool(gi != gj) == (not want), lambda: f"{gi} != {gj} should be {not want}")
        if gi.num_qubits <= 3 and gi.num_qubits == gj.num_qubits:
            q = tuple(range(gi.num_qubits))
            ctx.check(bool(gi(*q) == gj(*q)) == want, lambda: f"operation equality of {gi}, {gj}")
            q2 = tuple(x + 1 for x in q)
            ctx.check(not bool(gi(*q) == gj(*q2)), lambda: f"operations on different qubits compare equal: {gi}, {gj}")
            if len(q) > 1:
                ctx.check(not bool(gi(*q) == gj(*q[::-1])), lambda: f"operations on reversed qubits compare equal: {gi}, {gj}")
    for other in (None, 3, "X", (), circuits.Circuit()):
        ctx.check(not bool(gi == other), f"gate equals {other!r}")


def gen_bad(tier):
    for shape in ((1, 2), (3, 3), (2, 4), (4, 2), (6, 6), (2, 3), (5, 5), (8, 4)):
        yield list(shape)


def step_bad(ctx, case):
    ctx.step()
    ctx.state(tuple(case))
    ctx.raises(lambda: CustomGateDefinition("bad", sympy.zeros(*case), ()), f"matrix of shape {case} accepted")


def _defs():
    out = []
    a, b, c = sympy.symbols("a b c")
    rot = lambda x, y: sympy.Matrix([[sympy.cos(x), -sympy.sin(x) * sympy.exp(sympy.I * y)], [sympy.sin(x) * sympy.exp(-sympy.I * y), sympy.cos(x)]])
    fixed = lambda e: sympy.Matrix([[1, 0], [0, e]])
    for name in ("g", "h"):
        for key, m, order in (("ab", rot(a, b), (a, b)), ("ab-ba", rot(a, b), (b, a)), ("ba", rot(b, a), (a, b)), ("ac", rot(a, c), (a, c)), ("aa", rot(a, a), (a,)),
                              ("i", fixed(sympy.I), ()), ("-i", fixed(-sympy.I), ()), ("i3", fixed(sympy.I + sympy.Float(1e-3)), ()), ("two", sympy.diag(1, 1, 1, sympy.I), ()),
                              ("two-p", sympy.diag(1, 1, 1, sympy.exp(sympy.I * a)), (a,)), ("one-p", sympy.diag(1, sympy.exp(sympy.I * a)), (a,))):
            out.append(((name, key), name, m, order))
    return out


DEFS = _defs()


def gen_defs(tier):
    for i in range(len(DEFS)):
        for j in range(len(DEFS)):
            yield [i, j]


def step_defs(ctx, case):
    """definitions of custom gates, and the gates they make with equal parameters"""
    (k1, n1, m1, o1), (k2, n2, m2, o2) = DEFS[case[0]], DEFS[case[1]]
    d1, d2 = CustomGateDefinition(n1, m1, o1), CustomGateDefinition(n2, m2.copy(), tuple(o2))
    ctx.step()
    ctx.state(tuple(case))
    want = k1 == k2
    ctx.eq(bool(d1 == d2), want, f"definitions {k1} and {k2} equal")
    ctx.eq(bool(d1 != d2), not want, f"definitions {k1} and {k2} different")
    g1, g2 = d1(*[0.1 * (i + 1) for i in range(len(o1))]), d2(*[0.1 * (i + 1) for i in range(len(o2))])
    ctx.eq(bool(g1 == g2), want, f"gates of {k1} and {k2} equal")
    for w in (lambda g: g.dagger, lambda g: g.controlled(1), lambda g: g.controlled(2).dagger):
        ctx.eq(bool(w(g1) == w(g2)), want, f"wrapped gates of {k1} and {k2} equal")
    if len(o1):
        other = d1(*[0.1 * (i + 1) + (0.001 if i == len(o1) - 1 else 0) for i in range(len(o1))])
        ctx.eq(bool(g1 == other), False, f"gates of {k1} with different parameters equal")
        ctx.eq(bool(other == d1(*other.params)), True, f"gates of {k1} made twice equal")
    for x in (None, 1, "g", g1):
        ctx.check(not bool(d1 == x), f"definition equals {x!r}")


FRESH = zqfresh.Fresh(zqfreshlist.C02)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("builtins", gen_builtin, step_builtin, "22 built-in gates x 19 angles (54 thorough) x numeric kinds; 7^3 (10^3) angle triples"),
    Space("wrappers", gen_wrap, step_wrap, "26 gates x all wrapper sequences of length <=3 (4) over conjugate/1/2/3 controls, <=4 (5) qubits"),
    Space("many-controls", gen_many, step_many, "10 gates with 4 to 7 (thorough 9) controls in 6 orders of wrapping"),
    Space("direct", gen_direct, step_direct, "26 gates x 4 directly constructed wrapper nestings"),
    Space("equality", gen_eq, step_eq, "all ordered pairs of a pool of all gates with parameters at several values, wrapped and not"),
    Space("invalid", gen_bad, step_bad, "non-square / non-power-of-two matrices"),
    Space("definitions", gen_defs, step_defs, "all pairs of 22 custom definitions: names, matrices, orders of parameters"),
]
