"""C06: decomposition rules."""
import itertools
import math

import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import CNOT, RX, RY, RZ, SWAP, Circuit, H, U3, X, Z, CZ, S
from zquantum.core.decompositions import U3GateToRotation, decompose_operations, decompose_zquantum_circuit

ID = "C06"
ASSUMPTIONS = ["unitaries compared up to one global phase, 1e-7"]
TECHNIQUE = "exhaustive enumeration of operation sequences x rule lists against an expansion model and dense unitaries"

PI = math.pi
ANG = [0.0, 0.4, -1.3, PI / 2, PI, -PI, 2 * PI, 5.1]

# ---- bundled rule ---------------------------------------------------------------------


def gen_u3(tier):
    vals = ANG if tier == "thorough" else ANG[:6]
    for p in itertools.product(vals, repeat=3):
        for place in ([[0], 1], [[0], 3], [[2], 3]):
            yield ["u3", list(p), [], place[0], place[1]]
    for p in itertools.product([0.0, 0.4, -1.3, PI], repeat=3):
        for place in ([[0, 1], 2, [1]], [[2, 0], 3, [1]], [[1, 0], 4, [1]], [[2, 0, 1], 3, [2]], [[0, 1, 2], 4, [2]], [[3, 1, 0, 2], 4, [3]]):
            yield ["cu3", list(p), place[2], place[0], place[1]]
    for p in itertools.product([0.0, 0.4, -1.3], repeat=3):
        for w, q, n in (["d"], [0], 2), (["d", 1], [1, 0], 2), ([1, "d"], [0, 1], 2):
            yield ["du3", list(p), w, q, n]


def su2(p):
    t, f, l = p
    return ref.mscale(ref.gate("U3", t, f, l), ref._expi(-(f + l) / 2))


def step_u3(ctx, case):
    kind, p, w, q, n = case
    d = ["g", "U3", p, q, w]
    around = [["g", "H", [], [q[0]], []], ["g", "RX", [0.3], [q[-1]], []]]
    for pre, post in ((0, 0), (2, 0), (1, 1)):
        ds = around[:pre] + [d] + around[:post]
        c = zq.real_circuit(ds, n)
        r = decompose_zquantum_circuit(c, [U3GateToRotation()])
        ctx.step()
        ctx.eq(r.n_qubits, n, f"register after decomposing {d} in {n} qubits")
        ctx.state((kind, tuple(p), tuple(q), n, pre, post))
        kept = lambda o, x: o == zq.real_op(x)  # noqa: E731
        for k in range(pre):
            ctx.check(kept(r.operations[k], ds[k]), "operation before the decomposed one changed")
        for k in range(post):
            ctx.check(kept(r.operations[len(r.operations) - post + k], ds[pre + 1 + k]), "operation after the decomposed one changed")
        ctx.check(c == zq.real_circuit(ds, n), "decomposition changed the circuit it was given")
        mid = r.operations[pre: len(r.operations) - post]
        ctx.check(all(o.gate.name != "U3" and getattr(o.gate, "wrapped_gate", o.gate).name != "U3" for o in mid) or "d" in w,
                  f"U3 left in {r}")
        want = ref.unitary([zq.ref_op(x) for x in ds], n)
        got = zq.num(r.to_unitary())
        if ref.phase_diff(got, want) < ref.TOL:
            ctx.outcome("equal")
            continue
        if kind == "cu3":
            # exactly the documented loss of the U3's own phase, now relative?
            m = zq.wrap_ref(su2(p), w)
            alt = ref.unitary([(m, q) if x is d else zq.ref_op(x) for x in ds], n)
            if ref.phase_diff(got, alt) < ref.TOL:
                ctx.outcome("controlled-u3-phase")
                ctx.fail("controlled U3 loses a relative phase", key="controlled-u3-phase")
        ctx.fail(f"decomposing {ds} on {n} qubits changed the unitary")


# ---- several operations, with symbols -------------------------------------------------------
SEQ = [["g", "U3", [0.4, 1.1, -0.6], [0], []], ["g", "U3", [-0.9, 0.3, 2.2], [1], []], ["g", "H", [], [1], []],
       ["g", "CNOT", [], [1, 0], []], ["g", "RX", [0.7], [0], ["d"]], ["g", "U3", [0.4, 1.1, -0.6], [1], ["d"]],
       ["c", "CU1", [0, 2], [1]], ["g", "U3", [0.7, 0.5, -0.5], [2, 0], [1]]]


def gen_seq(tier):
    for L in range(0, 4 if tier == "quick" else 5):
        for s in itertools.product(range(len(SEQ)), repeat=L):
            yield [list(s)]


def step_seq(ctx, case):
    ds = [SEQ[i] for i in case[0]]
    c = zq.real_circuit(ds, 3)
    for k in (0, 1, 2):
        r = decompose_zquantum_circuit(c, [U3GateToRotation()] * k)
        ctx.step()
        ctx.eq(r.n_qubits, 3, f"register after decomposing {case}")
        if k == 0:
            ctx.check(r == c, "empty rule list changed the circuit")
            continue
        want = ref.unitary([zq.ref_op(x) for x in ds], 3)
        ctx.check(ref.phase_diff(zq.num(r.to_unitary()), want) < ref.TOL, f"decomposing {case} changed the unitary")
        # operations that are not decomposed are kept, in order
        keep = [zq.real_op(x) for i, x in zip(case[0], ds) if i not in (0, 1, 7)]
        it = iter(r.operations)
        for o in keep:
            ctx.check(any(o == x for x in it), f"{o} lost or out of order in {r}")
        ctx.eq(len(r.operations), len(ds) + 2 * sum(i in (0, 1, 7) for i in case[0]), "number of operations")
    ctx.state(tuple(case[0]))


th, ph, la = sympy.symbols("theta phi lambda")


def gen_sym(tier):
    for es in itertools.product([th, ph, th + 2 * la, 0.3], repeat=3):
        yield [[str(e) for e in es]]


def step_sym(ctx, case):
    loc = {"theta": th, "phi": ph, "l": la}
    es = [sympy.sympify(e.replace("lambda", "l"), locals=loc) for e in case[0]]
    c = Circuit([H(0), U3(*es)(1), CNOT(1, 0)], n_qubits=3)
    r = decompose_zquantum_circuit(c, [U3GateToRotation()])
    ctx.step()
    ctx.state(tuple(case[0]))
    ctx.eq(sorted(map(str, r.free_symbols)), sorted(map(str, c.free_symbols)), "free symbols")
    env = {th: 0.37, ph: -1.2, la: 0.81}
    a, b = zq.num(c.bind(env).to_unitary()), zq.num(r.bind(env).to_unitary())
    ctx.check(ref.phase_diff(b, a) < ref.TOL, f"symbolic U3{es} decomposed")


# ---- rule lists ------------------------------------------------------------------------------
class Rule:
    def __init__(self, name, pred, prod, lazy):
        self.name, self._pred, self._prod, self.lazy = name, pred, prod, lazy
        self.asked = 0

    def predicate(self, op):
        self.asked += 1
        return self._pred(op)

    def production(self, op):
        out = self._prod(op)
        return (x for x in out) if self.lazy else out


def RULES():
    q = lambda o: o.qubit_indices  # noqa: E731
    is_ = lambda *n: (lambda o: o.gate.name in n)  # noqa: E731
    return {
        "swap": Rule("swap", is_("SWAP"), lambda o: [CNOT(*q(o)), CNOT(*q(o)[::-1]), CNOT(*q(o))], True),
        "cnot": Rule("cnot", is_("CNOT"), lambda o: [H(q(o)[1]), CZ(*q(o)), H(q(o)[1])], False),
        "h": Rule("h", is_("H"), lambda o: [RZ(PI)(*q(o)), RY(PI / 2)(*q(o))], True),
        "rz": Rule("rz", is_("RZ"), lambda o: [RX(-PI / 2)(*q(o)), RY(o.params[0])(*q(o)), RX(PI / 2)(*q(o))], False),
        "z": Rule("z", is_("Z"), lambda o: [S(*q(o)), S(*q(o))], False),
        "s": Rule("s", is_("S"), lambda o: (RZ(PI / 2)(*q(o)),), False),
        "i": Rule("i", is_("I"), lambda o: [], True),
        "any": Rule("any", lambda o: True, lambda o: [o], False),
        "u3": U3GateToRotation(),
    }


MODEL = {  # name -> function of (name, params, qubits) -> list or None
    "swap": lambda g, p, q: [("CNOT", [], q), ("CNOT", [], q[::-1]), ("CNOT", [], q)] if g == "SWAP" else None,
    "cnot": lambda g, p, q: [("H", [], q[1:]), ("CZ", [], q), ("H", [], q[1:])] if g == "CNOT" else None,
    "h": lambda g, p, q: [("RZ", [PI], q), ("RY", [PI / 2], q)] if g == "H" else None,
    "rz": lambda g, p, q: [("RX", [-PI / 2], q), ("RY", p, q), ("RX", [PI / 2], q)] if g == "RZ" else None,
    "z": lambda g, p, q: [("S", [], q), ("S", [], q)] if g == "Z" else None,
    "s": lambda g, p, q: [("RZ", [PI / 2], q)] if g == "S" else None,
    "i": lambda g, p, q: [] if g == "I" else None,
    "any": lambda g, p, q: None,
    "u3": lambda g, p, q: [("RZ", [p[2]], q), ("RY", [p[0]], q), ("RZ", [p[1]], q)] if g == "U3" else None,
}
ROPS = [("SWAP", [], [2, 0]), ("Z", [], [1]), ("I", [], [0]), ("U3", [0.4, 1.1, -0.6], [2]), ("H", [], [0]), ("T", [], [2])]


def gen_rules(tier):
    names = list(MODEL)
    seqs = [list(s) for L in (1, 2) for s in itertools.product(range(len(ROPS)), repeat=L)] + [[0, 3, 1, 4], [2, 2, 5], []]
    for L in (1, 2, 3):
        for rs in itertools.product(names, repeat=L):
            if L == 3 and len(set(rs)) < 3:
                continue
            for s in seqs if L < 3 else [[0, 3, 1, 4]]:
                yield [list(rs), s]
    if tier == "thorough":
        for rs in itertools.permutations(names, 4):
            yield [list(rs), [0, 3, 1, 4, 2]]
    yield [["swap", "cnot", "h", "rz"], [0]]


def step_rules(ctx, case):
    rs, s = case
    ops = [ROPS[i] for i in s]
    want = list(ops)
    for r in rs:
        want = [y for x in want for y in (lambda e: [x] if e is None else e)(MODEL[r](*x))]
    table = RULES()
    real = [zq.real_op(["g", g, p, q, []]) for g, p, q in ops]
    got = decompose_operations(iter(real), [table[r] for r in rs])
    ctx.step(len(rs))
    exp = [zq.real_op(["g", g, p, list(q), []]) for g, p, q in want]
    ctx.eq([str(x) for x in got], [str(x) for x in exp], f"{ops} decomposed by {rs}")
    ctx.check(list(got) == exp, f"{ops} decomposed by {rs}")
    if ops:
        c = decompose_zquantum_circuit(Circuit(real, n_qubits=4), tuple(table[r] for r in rs))
        ctx.eq(c.n_qubits, 4, "register")
        ctx.check(list(c.operations) == exp, f"circuit of {ops} decomposed by {rs}")
        u = ref.unitary([(ref.gate(g, *p), q) for g, p, q in ops], 3)
        v = ref.unitary([(ref.gate(g, *p), q) for g, p, q in want], 3)
        ctx.check(ref.phase_diff(u, v) < 1e-7, "model rule changes the unitary")
    ctx.state((tuple(rs), tuple(s)))
    ctx.outcome(len(want))


# ---- long circuits, wide registers ---------------------------------------------------------
def gen_long(tier):
    for L in (12, 40) if tier == "quick" else (12, 40, 120):
        for pat in itertools.permutations(range(len(SEQ)), 3):
            yield [L, list(pat)]


def step_long(ctx, case):
    L, pat = case
    idx = [pat[i % 3] if i % 11 else pat[(i // 11) % 3] for i in range(L)]
    base = 9
    ds = []
    for k, i in enumerate(idx):
        d = [x for x in SEQ[i]]
        pos = 3 if d[0] == "g" else 2
        d[pos] = [base + (q + k) % 3 for q in d[pos]]
        ds.append(d)
    c = zq.real_circuit(ds, 14)
    r = decompose_zquantum_circuit(c, [U3GateToRotation()])
    ctx.step()
    ctx.state((L, tuple(pat)))
    ctx.eq(r.n_qubits, 14, f"{case}: register")
    out = list(r.operations)
    for i, d in zip(idx, ds):
        if i not in (0, 1, 7):
            ctx.check(bool(out) and out[0] == zq.real_op(d), lambda: f"{case}: {d} lost, changed or out of order")
            out = out[1:]
            continue
        part, out = out[:3], out[3:]
        pos = [base + q for q in range(3)]
        small = lambda qs: [pos.index(q) for q in qs]  # noqa: E731
        ctx.check(all(set(o.qubit_indices) <= set(d[3]) for o in part), lambda: f"{case}: {d} became {part}")
        got = ref.unitary([(ref.tolist(o.gate.matrix), small(o.qubit_indices)) for o in part], 3)
        m, q = zq.ref_op(d)
        if i == 7:
            m = zq.wrap_ref(su2(d[2]), d[4])
            full = ref.unitary([(zq.ref_op(d)[0], small(q))], 3)
            if ref.phase_diff(got, full) < ref.TOL:
                continue
        ctx.check(ref.phase_diff(got, ref.unitary([(m, small(q))], 3)) < ref.TOL, lambda: f"{case}: {d} became {part}")
    ctx.eq(out, [], f"{case}: further operations")
    ctx.check(c == zq.real_circuit(ds, 14), f"{case}: circuit changed")


# ---- gates that share names, parameters and qubits -----------------------------------------
WRAPPED = [["g", "T", [], [0], []], ["g", "T", [], [0], ["d"]], ["g", "S", [], [0], ["d"]],
           ["g", "RX", [0.3], [0], ["d"]], ["g", "RX", [0.3], [0], []],
           ["g", "U3", [0.4, 1.1, -0.6], [0], ["d"]], ["g", "U3", [0.4, 1.1, -0.6], [0], []], ["g", "U3", [-0.6, 1.1, 0.4], [0], []],
           ["g", "H", [], [0, 1], [1]], ["g", "X", [], [0, 1], [1]], ["g", "RX", [0.3], [0, 1], [1]], ["g", "RX", [0.3], [0, 1], [1, "d"]],
           ["g", "Z", [], [0, 1, 2], [2]], ["g", "X", [], [0, 1, 2], [2]], ["c", "CU2", [0, 1], []], ["c", "CU2", [0, 1], ["d"]]]


def gen_wrapped(tier):
    n = len(WRAPPED)
    for L in (1, 2):
        for s in itertools.product(range(n), repeat=L):
            yield [list(s)]
    for s in itertools.combinations(range(n), 3):
        for p in itertools.permutations(s) if tier != "quick" else [s, s[::-1]]:
            yield [list(p)]
    for i in range(n):
        for j in range(n):
            yield [[i, j, i]]


def step_wrapped(ctx, case):
    ds = [WRAPPED[i] for i in case[0]]
    c = zq.real_circuit(ds, 3)
    ctx.state(tuple(case[0]))
    table = RULES()
    for names in (["u3"], ["any"], ["u3", "u3"], ["i", "u3", "any"]):
        r = decompose_zquantum_circuit(c, [table[x] for x in names])
        ctx.step()
        out = list(r.operations)
        same = [zq.real_op(d) for d in ds]
        if names == ["any"]:
            ctx.check(out == same, lambda: f"{ds} under a rule that keeps every operation: {r}")
            continue
        for d, o in zip(ds, same):
            if d[1] == "U3" and not d[4]:
                part, out = out[:3], out[3:]
                got = ref.unitary([(ref.tolist(x.gate.matrix), list(x.qubit_indices)) for x in part], 1)
                ctx.check(ref.phase_diff(got, ref.gate("U3", *d[2])) < ref.TOL, lambda: f"{ds} with rules {names}: {d} became {part}")
            elif d[1] == "U3":
                got = []
                while out and out[0].qubit_indices == (0,) and len(got) < 3 and (not got or got[0] != o):
                    got.append(out.pop(0))
                m = ref.unitary([(ref.tolist(x.gate.matrix), [0]) for x in got], 1)
                ctx.check(ref.phase_diff(m, zq.ref_op(d)[0]) < ref.TOL, lambda: f"{ds} with rules {names}: {d} became {got}")
            else:
                ctx.check(bool(out) and out[0] == o, lambda: f"{ds} with rules {names}: {d} lost, changed or out of order in {r}")
                out = out[1:]
        ctx.eq(out, [], f"{ds} with rules {names}: further operations")
        ctx.check(list(decompose_operations(c.operations, [table[x] for x in names])) == list(r.operations), "operations and circuits are decomposed differently")
    ctx.check(c == zq.real_circuit(ds, 3), "circuit changed")


FRESH = zqfresh.Fresh(zqfreshlist.C06)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("u3", gen_u3, step_u3, "all parameter triples from a grid x placements, controls 0-3, conjugated forms"),
    Space("sequences", gen_seq, step_seq, "all sequences of up to 3 (thorough 4) operations from 8 on three qubits"),
    Space("symbolic", gen_sym, step_sym, "all triples of 4 symbolic parameters"),
    Space("rules", gen_rules, step_rules, "all lists of 1-2 rules from 9 (3 distinct; thorough 4) x all sequences of up to two operations from 6"),
    Space("long", gen_long, step_long, "circuits of 12 and 40 (thorough 120) operations on qubits 9-11 of 14 repeating every pattern of 3 operations from 8"),
    Space("wrapped", gen_wrapped, step_wrapped, "all sequences of up to 2 (and triples of distinct ones in two orders (thorough: all), and all i,j,i) of 16 plain, conjugated and controlled operations sharing names, parameters and qubits x 4 rule lists"),
]
