"""C03: simultaneous, order-independent, non-destructive parameter binding."""
import itertools
import math

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, builtin_gate_by_name
from zquantum.core.utils import create_symbols_map
from zquantum.core.wavefunction import Wavefunction

ID = "C03"
ASSUMPTIONS = [
    "an expression denotes its value under an assignment of its symbols; two generic assignments distinguish the expressions of the alphabet",
    "within one operation no order of free symbols is prescribed",
]
TECHNIQUE = "exhaustive enumeration of binding histories against a denotational model of expressions, on the real circuit classes"

SYM = {n: sympy.Symbol(n) for n in "abcd"}
a, b, c, d = (SYM[n] for n in "abcd")
# two generic assignments
ENVS = [dict(a=0.37, b=-1.21, c=0.83, d=2.05), dict(a=-0.55, b=0.64, c=1.9, d=-0.29)]

# expression: (real, denotation)
EXPR = {
    "0.3": (0.3, lambda e: 0.3),
    "pi/2": (sympy.pi / 2, lambda e: math.pi / 2),
    "np": (np.float64(-0.7), lambda e: -0.7),
    "a": (a, lambda e: e["a"]),
    "b": (b, lambda e: e["b"]),
    "a+b": (a + b, lambda e: e["a"] + e["b"]),
    "a-2b": (a - 2 * b, lambda e: e["a"] - 2 * e["b"]),
    "a*b": (a * b, lambda e: e["a"] * e["b"]),
    "sin(a)+b": (sympy.sin(a) + b, lambda e: math.sin(e["a"]) + e["b"]),
    "b/3+c": (b / 3 + c, lambda e: e["b"] / 3 + e["c"]),
    "-a": (-a, lambda e: -e["a"]),
    "a**2*c": (a ** 2 * c, lambda e: e["a"] ** 2 * e["c"]),
}
# values symbols are bound to
VAL = dict(EXPR)
VAL.update({
    "0": (0, lambda e: 0.0),
    "1": (1, lambda e: 1.0),
    "c": (c, lambda e: e["c"]),
    "d": (d, lambda e: e["d"]),
    "2c+1": (2 * c + 1, lambda e: 2 * e["c"] + 1),
})
VQ = ["0.3", "np", "1", "0", "pi/2", "a", "b", "c", "a+b", "2c+1", "a*b"]


def denote_map(m):
    """env -> env after the binding"""
    def f(env):
        e = dict(env)
        for s, v in m.items():
            e[s] = VAL[v][1](env)
        return e
    return f


def real_map(m):
    return {SYM[s]: VAL[v][0] for s, v in m.items()}


def value(x, env):
    if isinstance(x, sympy.Basic):
        return complex(x.subs({SYM[k]: v for k, v in env.items()}))
    return complex(x)


def matrix_value(m, env):
    if hasattr(m, "free_symbols") and m.free_symbols:
        m = m.subs({SYM[k]: v for k, v in env.items()})
    return ref.tolist(m)


def dependence(fs):
    """symbols on which a list of denotations depends (generic points)"""
    out = set()
    for s in "abcd":
        for env in ENVS:
            e2 = dict(env)
            e2[s] += 0.318
            if any(abs(f(env) - f(e2)) > 1e-9 for f in fs):
                out.add(s)
    return out


PC = CustomGateDefinition(
    "PC2",
    sympy.Matrix([[sympy.exp(sympy.I * a), 0, 0, 0], [0, sympy.cos(b), -sympy.sin(b), 0],
                  [0, sympy.sin(b), sympy.cos(b), 0], [0, 0, 0, sympy.exp(-2 * sympy.I * b)]]),
    (a, b))


def pc_ref(x, y):
    return [[ref._expi(x), 0j, 0j, 0j], [0j, math.cos(y) + 0j, -math.sin(y) + 0j, 0j],
            [0j, math.sin(y) + 0j, math.cos(y) + 0j, 0j], [0j, 0j, 0j, ref._expi(-2 * y)]]


def gate_of(spec):
    """spec: [NAME, [expr names], [wrappers]] -> (real gate, denotations, matrix reference)"""
    name, es, w = spec
    rs = [EXPR[e][0] for e in es]
    fs = [EXPR[e][1] for e in es]
    if name == "PC2":
        g, m = PC(*rs), pc_ref
    else:
        g, m = builtin_gate_by_name(name)(*rs), (lambda *p, n=name: ref.gate(n, *p))
    return zq.wrap_real(g, w), fs, lambda *p: zq.wrap_ref(m(*p), w)


GATES = []
for e in EXPR:
    GATES.append(["RX", [e], []])
for e in ("a", "a+b", "a-2b", "b/3+c"):
    GATES.append(["PHASE", [e], ["d"]])
    GATES.append(["RY", [e], [1]])
    GATES.append(["RH", [e], ["d", 1]])
    GATES.append(["ZZ", [e], [1, "d"]])
for es in (["a", "b", "a+b"], ["b", "a", "0.3"], ["a*b", "0.3", "b/3+c"]):
    GATES.append(["U3", es, []])
    GATES.append(["U3", es, [1, "d"]])
for es in itertools.product(["a", "b", "0.3", "a-2b", "a*b", "b/3+c"], repeat=2):
    for w in ([], ["d"], [1]):
        GATES.append(["PC2", list(es), w])


def maps(tier, full):
    vals = VQ if full else ["0.3", "b", "a", "a+b"]
    for va in [None] + vals:
        for vb in [None] + vals:
            m = {}
            if va:
                m["a"] = va
            if vb:
                m["b"] = vb
            yield m
    yield {"c": "0.3"}
    yield {"c": "a", "a": "c"}
    yield {"a": "b", "b": "c", "c": "a"}
    yield {"d": "0.3"}
    yield {"d": "a", "a": "d", "b": "1"}


def gen_gate(tier):
    for gi, g in enumerate(GATES):
        for m in maps(tier, tier == "thorough" or g[0] == "RX"):
            yield [g, m]


def check_params(ctx, params, fs, what):
    ctx.eq(len(params), len(fs), what + ": number of parameters")
    for env in ENVS:
        for p, f in zip(params, fs):
            ctx.check(abs(value(p, env) - f(env)) < 1e-9, lambda: f"{what}: parameter {p} is not {f(env)} at {env}")


def compose(fs, dm):
    return [lambda env, f=f: f(dm(env)) for f in fs]


def names(symbols):
    return sorted(str(s) for s in symbols)


def step_gate(ctx, case):
    spec, m = case
    g, fs, mat = gate_of(spec)
    before = (g.params, names(g.free_symbols), str(g))
    dm = denote_map(m)
    want = compose(fs, dm)
    for obj, what in ((g, "gate"), (g(*range(g.num_qubits)), "operation")):
        r = obj.bind(real_map(m))
        ctx.step()
        ctx.eq(type(r), type(obj) if what == "operation" else type(r), "type of the bound operation")
        check_params(ctx, r.params, want, f"{what} {spec} bound to {m}")
        ctx.eq(names(r.free_symbols), sorted(dependence(want)), f"free symbols of {what} {spec} bound to {m}")
    rg = g.bind(real_map(m))
    ctx.eq(rg.num_qubits, g.num_qubits, "qubits after binding")
    env = ENVS[0]
    ctx.check(ref.maxdiff(matrix_value(rg.matrix, env), mat(*[f(env) for f in want])) < ref.TOL,
              lambda: f"matrix of {spec} bound to {m}")
    ctx.check(rg.name == g.name or "d" in spec[2], "gate name changed by binding")
    ctx.eq((g.params, names(g.free_symbols), str(g)), before, f"binding {m} changed the gate {spec} itself")
    ctx.state(("gate", str(spec), str(sorted(m.items()))))
    ctx.outcome(tuple(names(rg.free_symbols)))
    # irrelevant symbols have no effect; neither does extending the map
    more = dict(real_map(m))
    more[sympy.Symbol("zz")] = a
    more.setdefault(sympy.Symbol("q7"), 3.3)
    ctx.check(g.bind(more) == rg, f"irrelevant symbols changed {spec} bound to {m}")


# ---- stepwise binding ----------------------------------------------------------
def gen_controls(tier):
    for spec in ([["RX", ["a+b"]], ["U3", ["a", "b", "a*b"]], ["PC2", ["b/3+c", "a"]], ["ZZ", ["a-2b"]]]):
        for w in ([3], [4], [5], [6], [4, "d"], ["d", 5], [1, 4], [3, "d", 3], [8], [2, 2, 2]):
            for m in ({}, {"a": "0.3"}, {"a": "b", "b": "a"}, {"a": "0", "b": "1", "c": "np"}, {"b": "2c+1", "c": "0.3"}):
                yield [spec[0], spec[1], w, m]


def step_controls(ctx, case):
    """gates with many controls: binding keeps the wrapping"""
    name, es, w, m = case
    g, fs, _ = gate_of([name, es, w])
    inner, _, _ = gate_of([name, es, []])
    want = compose(fs, denote_map(m))
    ctx.step()
    ctx.state((name, str(w), str(m)))
    expected = zq.wrap_real(inner.bind(real_map(m)), w)
    n = g.num_qubits
    for r, what in ((g.bind(real_map(m)), "gate"), (g(*range(n)[::-1]).bind(real_map(m)).gate, "operation"), (Circuit([g(*range(n))]).bind(real_map(m)).operations[0].gate, "circuit")):
        check_params(ctx, r.params, want, f"{what} {name}{es} wrapped {w} bound to {m}")
        ctx.eq(r.num_qubits, n, f"{what} {name}{es} wrapped {w} bound to {m}: qubits")
        ctx.check(bool(r == expected), f"{what} {name}{es} wrapped {w} bound to {m}: differs from wrapping the bound gate")
        ctx.eq(names(r.free_symbols), sorted(dependence(want)), f"free symbols of {what} {name}{es} wrapped {w} bound to {m}")


STEPVALS = {"a": ["0.3", "np", "d", "0", "1"], "b": ["pi/2", "d", "0.3"], "c": ["1", "np"]}
STEPGATES = [g for g in GATES if g[0] in ("RX", "U3", "RH", "ZZ")] + [["PC2", ["a", "b"], w] for w in ([], ["d"], [1, "d"])] + [
    ["PC2", ["b", "a-2b"], []], ["PC2", ["b/3+c", "a"], [2]]]


def gen_steps(tier):
    for g in STEPGATES:
        syms = sorted(set(s for e in g[1] for s in names(getattr(EXPR[e][0], "free_symbols", []))))
        if not syms:
            continue
        for vs in itertools.product(*[STEPVALS[s] for s in syms]):
            for order in itertools.permutations(range(len(syms))):
                yield [g, [[syms[i], vs[i]] for i in order]]


def step_steps(ctx, case):
    g0, order = case
    g, fs, mat = gate_of(g0)
    once = g.bind(real_map(dict((s, v) for s, v in order)))
    # all ways to cut the ordered bindings into consecutive groups
    n = len(order)
    for cut in range(1 << (n - 1)):
        groups, cur = [], [order[0]]
        for i in range(1, n):
            if cut >> (i - 1) & 1:
                groups.append(cur)
                cur = []
            cur.append(order[i])
        groups.append(cur)
        r = g
        left = dict(order)
        fcur = fs
        for grp in groups:
            m = dict((s, v) for s, v in grp)
            r = r.bind(real_map(m))
            ctx.step()
            fcur = compose(fcur, denote_map(m))
            ctx.eq(names(r.free_symbols), sorted(dependence(fcur)), f"free symbols of {g0} after {grp} of {groups}")
        ctx.check(r == once, f"binding {g0} in steps {groups} gives {r}, at once {once}")
        ctx.state(("steps", str(g0), str(groups)))
    check_params(ctx, once.params, compose(fs, denote_map(dict((s, v) for s, v in order))), f"{g0} bound to {order}")


# ---- circuits --------------------------------------------------------------------
OPS = [
    ("RX", ["a"], [], [0]), ("RY", ["b"], [], [1]), ("CPHASE", ["a-2b"], [], [1, 0]), ("H", [], [], [2]),
    ("PC2", ["b", "a"], [], [2, 0]), ("RZ", ["b/3+c"], ["d"], [2]), ("XX", ["a*b"], [], [0, 2]),
    ("RX", ["0.3"], [1], [2, 1]), ("PC2", ["c+", "0.3"], [1], [0, 1, 2]),
]
EXPR["c+"] = (c, lambda e: e["c"])
CMAPS = [{"a": "0.3", "b": "1"}, {"a": "b", "b": "a"}, {"a": "c", "c": "pi/2"}, {"b": "2c+1"}, {"c": "np"},
         {"a": "np", "b": "0.3", "c": "1"}, {}, {"d": "0.3"}, {"a": "b", "b": "c", "c": "a"}]


def op_spec(s):
    name, es, w, q = s
    if not es:
        g = builtin_gate_by_name(name)
        return zq.wrap_real(g, w)(*q), [], (lambda: zq.wrap_ref(ref.gate(name), w)), q
    g, fs, mat = gate_of([name, es, w])
    return g(*q), fs, mat, q


def gen_circuit(tier):
    L = 2 if tier == "quick" else 3
    for k in range(0, L + 1):
        for idx in itertools.product(range(len(OPS)), repeat=k):
            if k == 3 and tier != "thorough":
                continue
            yield [list(idx), 3 if k else 2]
    for idx in itertools.permutations([0, 2, 4, 5, 6], 3):
        yield [list(idx), 4]


def step_circuit(ctx, case):
    idx, n = case
    specs = [op_spec(OPS[i]) for i in idx]
    circ = Circuit([s[0] for s in specs], n_qubits=n)
    base_repr = repr(circ)
    order = check_first_appearance(ctx, circ, [s[1] for s in specs], f"circuit {idx}")
    for m in CMAPS:
        dm = denote_map(m)
        rm = real_map(m)
        keys = dict(rm)
        bound = circ.bind(rm)
        ctx.step()
        ctx.eq(rm, keys, "binding changed the map it was given")
        ctx.eq(bound.n_qubits, n, f"register after binding {m}")
        ctx.eq(len(bound.operations), len(idx), "operations after binding")
        for op, s in zip(bound.operations, specs):
            check_params(ctx, op.params, compose(s[1], dm), f"circuit {idx} bound to {m}")
            ctx.eq(tuple(op.qubit_indices), tuple(s[3]), "qubits after binding")
        check_first_appearance(ctx, bound, [compose(s[1], dm) for s in specs], f"circuit {idx} bound to {m}")
        ctx.eq(repr(circ), base_repr, f"binding {m} changed circuit {idx}")
        env = ENVS[1]
        fully = {s: SYM_ENV(v) for s, v in [(s, env[s]) for s in "abcd"]}
        num = bound.bind({SYM[s]: env[s] for s in "abcd"})
        ctx.eq(list(num.free_symbols), [], "free symbols after binding everything")
        seq = [(s[2](*[f(dm(env)) for f in s[1]]), s[3]) for s in specs]
        want = ref.unitary(seq, n)
        ctx.check(ref.maxdiff(zq.num(num.to_unitary()), want) < ref.TOL, f"unitary of circuit {idx} bound to {m}")
        ctx.state(("circ", tuple(idx), str(m)))
    if idx and len(idx) <= 2:
        # unitary of the symbolic circuit, bound afterwards
        env = ENVS[0]
        u = circ.to_unitary()
        want = ref.unitary([(s[2](*[f(env) for f in s[1]]), s[3]) for s in specs], n)
        ctx.check(ref.maxdiff(matrix_value(u, env), want) < ref.TOL, f"symbolic unitary of circuit {idx}")


def SYM_ENV(v):
    return v


def check_first_appearance(ctx, circ, fss, what):
    got = [str(s) for s in circ.free_symbols]
    deps = [dependence(fs) for fs in fss]
    ctx.eq(sorted(got), sorted(set().union(*deps) if deps else set()), f"free symbols of {what}")
    first = [min(i for i, dp in enumerate(deps) if s in dp) for s in got]
    ctx.eq(first, sorted(first), f"order of free symbols {got} of {what}")
    return got


# ---- multi-phase operations and wavefunctions ----------------------------------------
def gen_state(tier):
    es = ["0.3", "a", "b", "a-2b", "b/3+c", "a*b"]
    for k in (1, 2):
        for combo in itertools.product(es if k == 1 else ["0.3", "a", "b", "b/3+c"], repeat=1 << k):
            yield ["phase", list(combo)]
    for n in range(1, 5):
        pass
    # amplitudes: scaled so that every assignment of the alphabet stays below total probability one is not
    # needed: binding is only compared when the bound vector is normalized
    for ang in range(8):
        yield ["wave", ["cos" if ang & 1 else "sin", "ab" if ang & 2 else "ba", "full" if ang & 4 else "part"]]


def step_state(ctx, case):
    kind, x = case
    if kind == "phase":
        op = MultiPhaseOperation(tuple(EXPR[e][0] for e in x))
        fs = [EXPR[e][1] for e in x]
        before = op.params
        ctx.eq(names(op.free_symbols), sorted(dependence(fs)), f"free symbols of phases {x}")
        for m in CMAPS:
            r = op.bind(real_map(m))
            ctx.step()
            ctx.state((kind, tuple(x), str(m)))
            want = compose(fs, denote_map(m))
            check_params(ctx, r.params, want, f"phases {x} bound to {m}")
            ctx.eq(names(r.free_symbols), sorted(dependence(want)), f"free symbols of phases {x} bound to {m}")
            ctx.eq(op.params, before, "binding changed the operation")
            env = ENVS[1]
            num = r.bind({SYM[s]: env[s] for s in "abcd"})
            v = ref.generic_state(int(math.log2(len(x))))
            got = zq.vec(num.apply(np.array(v)))
            ctx.check(ref.vdiff(got, [ref._expi(f(env)) * z for f, z in zip(want, v)]) < 1e-9, f"phases {x} bound to {m} applied")
        return
    f, ab, part = x
    # amplitudes (p, q, 0.6, 0) with p, q symbols; bound to values / to each other
    p, q = (a, b) if ab == "ab" else (b, a)
    w = Wavefunction([p, q, 0.6, 0])
    ctx.eq(names(w.free_symbols), ["a", "b"], "free symbols of wavefunction")
    sw = w.bind({a: b, b: a})
    ctx.step()
    ctx.state((kind, tuple(x)))
    ctx.eq([str(z) for z in list(sw)[:2]], [str(q), str(p)], "exchanging two symbols of a wavefunction")
    ctx.eq([str(z) for z in list(w)[:2]], [str(p), str(q)], "binding changed the wavefunction")
    u, v = (0.48, 0.64) if f == "cos" else (0.8, 0.0)
    if part == "full":
        for steps in ([{a: u, b: v}], [{a: u}, {b: v}], [{b: v}, {a: u}], [{a: c}, {b: v}, {c: u}], [{a: u, c: 5}, {b: v, d: 1}]):
            r = w
            for s in steps:
                r = r.bind(s)
                ctx.step()
            want = [u if z == a else v for z in (p, q)] + [0.6, 0]
            ctx.check(ref.vdiff(zq.vec(r), want) < 1e-9, f"wavefunction bound in steps {steps}: {r}")
            ctx.eq(sorted(r.free_symbols, key=str), [], "free symbols left")
    else:
        r = w.bind({a: u})
        ctx.eq(names(r.free_symbols), ["b"], "free symbols after partial binding")
        r2 = w.bind({d: 1.0})
        ctx.check(all(x1 == x2 for x1, x2 in zip(r2, w)), "irrelevant symbol changed the wavefunction")
        ctx.raises(lambda: w.bind({a: 1.3}), "binding beyond probability one", ValueError)
        ctx.raises(lambda: w.bind({a: 0.1, b: 0.1}), "binding to a vector that is not normalized", ValueError)
        ctx.eq([str(z) for z in list(w)[:2]], [str(p), str(q)], "rejected binding changed the wavefunction")


def gen_map(tier):
    for ns in range(0, 4):
        for nv in range(0, 4):
            yield [ns, nv]


def step_map(ctx, case):
    ns, nv = case
    ss = [a, b, c][:ns]
    vs = np.array([0.1, 0.2, 0.3][:nv])
    ctx.step()
    ctx.state(("map", ns, nv))
    if ns != nv:
        ctx.raises(lambda: create_symbols_map(ss, vs), f"{ns} symbols and {nv} values", ValueError)
    else:
        m = create_symbols_map(ss, vs)
        ctx.eq({str(k): float(v) for k, v in m.items()}, {str(s): float(v) for s, v in zip(ss, vs)}, "symbols map")


# ---- many symbols ------------------------------------------------------------------
def gen_many(tier):
    for L in (11, 13) if tier == "quick" else (10, 11, 13, 21):
        for stride in (1, 3, 5, 7):
            for form in ("theta_{}", "t{}", "x{:03d}"):
                for kind in ("all", "shift", "reverse", "even", "one-by-one", "numbers-in-the-way"):
                    yield [L, stride, form, kind]


def step_many(ctx, case):
    """circuits with symbols theta_0 ... theta_12: partial, simultaneous and stepwise bindings"""
    L, stride, form, kind = case
    ctx.state(tuple(case))
    S = [sympy.Symbol(form.format(i)) for i in range(L)]
    val = [0.1 + 0.37 * i for i in range(L)]
    order = [(i * stride) % L for i in range(L)]
    if sorted(order) != list(range(L)):
        order = list(range(L - 1, -1, -1))
    # expressions over the symbols: one symbol, sum of neighbours, product
    ops, den = [], []
    for k, i in enumerate(order):
        j = (i + 3) % L
        e, f = [(S[i], lambda v, i=i: v[i]), (S[i] - 2 * S[j], lambda v, i=i, j=j: v[i] - 2 * v[j]), (S[i] * S[j] + 1, lambda v, i=i, j=j: v[i] * v[j] + 1)][k % 3]
        g = [builtin_gate_by_name("RX")(e), builtin_gate_by_name("RZ")(e).controlled(1), builtin_gate_by_name("PHASE")(e).dagger][k % 3 if k % 2 else (k + 1) % 3]
        ops.append(g(*[(i + q) % 12 for q in range(g.num_qubits)]))
        den.append((f, -1 if k % 3 == 5 else 1))
    base = [list(o.params) for o in ops]

    def values(params, v):
        out = []
        for p in params:
            q = sympy.sympify(p)
            out.append(float(q.subs({S[i]: v[i] for i in range(L)}, simultaneous=True)))
        return out

    ref0 = [values(p, val) for p in base]
    for o, p, (f, _) in zip(ops, ref0, den):
        ctx.check(abs(abs(p[0]) - abs(f(val))) < 1e-9, f"{case}: parameter of {o}")
    circ = Circuit(ops, n_qubits=13)
    seen = []
    for o in ops:
        new = [s for s in S if s in sympy.sympify(o.params[0]).free_symbols and s not in seen]
        seen.append(None)
        ctx.check(len(new) <= 2, "alphabet")
        seen[-1:] = new
    got = list(circ.free_symbols)
    ctx.eq(sorted(map(str, got)), sorted(map(str, S)), f"{case}: free symbols")
    first = [min(k for k, o in enumerate(ops) if s in sympy.sympify(o.params[0]).free_symbols) for s in got]
    ctx.eq(first, sorted(first), f"{case}: order of the free symbols {got}")
    snap = repr(circ)
    if kind == "all":
        maps_, v2 = [{s: x for s, x in zip(S, val)}], val
    elif kind == "shift":
        maps_, v2 = [{S[i]: S[(i + 1) % L] for i in range(L)}], [val[(i + 1) % L] for i in range(L)]
    elif kind == "reverse":
        maps_, v2 = [{S[i]: S[L - 1 - i] for i in range(L)}], [val[L - 1 - i] for i in range(L)]
    elif kind == "even":
        maps_, v2 = [{S[i]: 0.5 * i for i in range(0, L, 2)}], [0.5 * i if i % 2 == 0 else val[i] for i in range(L)]
    elif kind == "one-by-one":
        maps_, v2 = [{S[i]: val[i]} for i in order], val
    else:
        maps_ = [{S[i]: S[(i + 1) % L] + 1 for i in range(L)}, {S[i]: val[i] for i in range(1, L)}, {S[0]: val[0], sympy.Symbol("unused"): 2}]
        v2 = [val[(i + 1) % L] + 1 for i in range(L)]
    r = circ
    for m in maps_:
        keep = dict(m)
        r = r.bind(m)
        ctx.step()
        ctx.eq(m, keep, f"{case}: map changed")
    ctx.eq(len(r.operations), L, f"{case}: operations")
    ctx.eq(r.n_qubits, 13, f"{case}: register")
    want = [values(p, v2) for p in base]
    for o, o0, w in zip(r.operations, ops, want):
        ctx.check(abs(values(o.params, val)[0] - w[0]) < 1e-9, lambda: f"{case}: {o0} became {o}, expected the value {w}")
        ctx.check(o.qubit_indices == o0.qubit_indices and type(o.gate) is type(o0.gate), f"{case}: {o0} became {o}")
    left = set(map(str, r.free_symbols))
    ctx.eq(left, {"all": set(), "one-by-one": set(), "numbers-in-the-way": set(), "even": {str(S[i]) for i in range(1, L, 2)}}.get(kind, set(map(str, S))), f"{case}: symbols left")
    ctx.eq(repr(circ), snap, f"{case}: binding changed the circuit")
    m = create_symbols_map(S, np.array(val))
    ctx.check(list(m) == S and [float(m[s]) for s in S] == val and r.bind(m) == circ.bind({}) .bind({s: x for s, x in zip(S, v2)}) if kind in ("all", "even") else True, f"{case}: symbols map")


FRESH = zqfresh.Fresh(zqfreshlist.C03)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("gates", gen_gate, step_gate, "all gates of the alphabet (12 parameter expressions; custom, controlled and conjugated gates) x all maps of a,b over 11 values plus cyclic maps"),
    Space("controls", gen_controls, step_controls, "4 gates x 10 wrappings with 3 to 8 controls x 5 maps"),
    Space("steps", gen_steps, step_steps, "all orders and groupings of disjoint bindings of up to three symbols"),
    Space("circuits", gen_circuit, step_circuit, "all circuits of up to 2 (thorough 3) operations over 9, plus permutations of 5, x 9 maps"),
    Space("states", gen_state, step_state, "all multi-phase operations on 1-2 qubits over 6/4 expressions x 9 maps; wavefunctions"),
    Space("maps", gen_map, step_map, "all lengths 0-3"),
    Space("many", gen_many, step_many, "circuits with 11-13 (thorough 21) numbered symbols in 4 orders and 3 naming schemes x full, cyclic, reversing, partial and stepwise bindings"),
]
