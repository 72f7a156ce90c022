"""C04: circuits survive their JSON form."""
import io
import itertools
import json
import math
import os
import pathlib

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.circuits import (
    Circuit, ControlledGate, CustomGateDefinition, Dagger, MatrixFactoryGate, builtin_gate_by_name,
    circuit_from_dict, circuitset_from_dict, load_circuit, load_circuitset, save_circuit, save_circuitset, to_dict)

ID = "C04"
ASSUMPTIONS = [
    "numeric parameters compared to relative 1e-12; expressions compared by their symbols and by value at two generic assignments",
    "symbol names: letters and digits in any script, Python keywords, names of sympy objects, bracketed indices, LaTeX-like braces; not the name of a constant the same expression contains; names that contain arithmetic operators or are numbers are excluded",
]
TECHNIQUE = "exhaustive enumeration of circuits over an alphabet of gates, wrappers, parameter forms and symbol names, round-tripped on the real code"

NAMES = ["theta", "theta_0", "beta", "gamma", "lambda", "S", "I", "N", "E", "pi", "x[4]", "x", "x[40]", "sin", "Q",
         "zeta", "O", "oo", "e", "E1", "if", "None", "phi_{1}", "α", "Symbol", "Integer", "X", "a1b2", "_z"]


def roundtrips(circ, ctx):
    d = to_dict(circ)
    yield "dict", circuit_from_dict(d), d
    yield "text", circuit_from_dict(json.loads(json.dumps(d))), d


def file_roundtrips(circ, ctx):
    p = os.path.join(ctx.scratch, "circuit.json")
    save_circuit(circ, p)
    yield "path", load_circuit(p)
    save_circuit(circ, pathlib.Path(p))
    with open(p) as f:
        yield "file object", load_circuit(f)
    b = io.StringIO()
    save_circuit(circ, b)
    b.seek(0)
    yield "stream", load_circuit(b)
    os.remove(p)


ENVV = [0.37, -1.21, 0.83, 2.05, 0.11]


def values(p, names):
    if not isinstance(p, sympy.Basic):
        return [complex(p)]
    fs = sorted(p.free_symbols, key=str)
    out = []
    for shift in (0, 1):
        env = {s: ENVV[(names.index(str(s)) + shift) % 5] for s in fs}
        out.append(complex(p.subs(env, simultaneous=True)))
    return out


def same_param(p, q):
    fp = sorted(map(str, getattr(p, "free_symbols", [])))
    fq = sorted(map(str, getattr(q, "free_symbols", [])))
    if fp != fq:
        return False
    vp, vq = values(p, fp), values(q, fp)
    k = min(len(vp), len(vq))
    return all(abs(x - y) <= 1e-12 * max(1e-300, abs(x)) or abs(x - y) < 1e-300 for x, y in zip(vp[:k], vq[:k]))


def same_gate(g, h):
    if isinstance(g, ControlledGate):
        return isinstance(h, ControlledGate) and g.num_control_qubits == h.num_control_qubits and same_gate(g.wrapped_gate, h.wrapped_gate)
    if isinstance(g, Dagger):
        return isinstance(h, Dagger) and same_gate(g.wrapped_gate, h.wrapped_gate)
    return (isinstance(h, MatrixFactoryGate) and g.name == h.name and g.num_qubits == h.num_qubits
            and len(g.params) == len(h.params) and all(same_param(p, q) for p, q in zip(g.params, h.params)))


def compare(ctx, circ, got, how, what, unitary=True):
    ctx.step()
    ctx.eq(got.n_qubits, circ.n_qubits, f"{what} via {how}: register size")
    ctx.eq(len(got.operations), len(circ.operations), f"{what} via {how}: operations")
    for o, p in zip(circ.operations, got.operations):
        ctx.eq(tuple(p.qubit_indices), tuple(o.qubit_indices), f"{what} via {how}: qubits")
        ctx.check(same_gate(o.gate, p.gate), lambda: f"{what} via {how}: {o} became {p} with parameters {p.params}")
        ctx.eq([str(s) for s in p.free_symbols], [str(s) for s in o.free_symbols], f"{what} via {how}: free symbols")
    ctx.eq([str(s) for s in got.free_symbols], [str(s) for s in circ.free_symbols], f"{what} via {how}: circuit's free symbols")
    ctx.check(got == circ, f"{what} via {how}: not equal to the original")
    ctx.check(circ == got, f"{what} via {how}: original not equal to it")
    if unitary and circ.n_qubits <= 4 and circ.operations:
        fs = circ.free_symbols
        env = {s: ENVV[i % 5] for i, s in enumerate(fs)}
        a = zq.num(circ.bind(env).to_unitary())
        b = zq.num(got.bind({sympy.Symbol(str(s)): v for s, v in env.items()}).to_unitary())
        ctx.check(ref.maxdiff(a, b) < 1e-9, f"{what} via {how}: unitary changed")


def full(ctx, circ, what, files=False, unitary=True):
    before = (repr(circ), circ.n_qubits)
    first = None
    for how, got, d in roundtrips(circ, ctx):
        compare(ctx, circ, got, how, what, unitary and how == "text")
        first = first or d
        again = to_dict(got)
        ctx.eq(again.get("n_qubits"), d["n_qubits"], "second serialization")
    ctx.check(json.dumps(first), "not JSON")
    if files:
        for how, got in file_roundtrips(circ, ctx):
            compare(ctx, circ, got, how, what, False)
    ctx.eq((repr(circ), circ.n_qubits), before, f"serialization changed {what}")
    ctx.state(what)


# ---- built-in gates -------------------------------------------------------------
PARAMS = [0.3, -1.7, 0, 1, -2, 0.0, math.pi, 1e-9, -2.5e-17, 1e6, 123456.789012345, 1 / 3, "np:0.7", "npi:3",
          "s:pi", "s:pi/3", "s:-2*pi/7", "s:sqrt(2)", "s:1/3", "s:0.1", "s:theta", "s:2*theta+1", "s:theta*gamma",
          "s:sin(theta)+gamma**2", "s:theta/3-0.25*gamma", "s:exp(-theta)", "s:-theta", "s:theta_1", "s:pi*theta", "s:sqrt(theta)"]
TG = {n: sympy.Symbol(n) for n in ("theta", "gamma", "theta_1")}


def par(p):
    if isinstance(p, str):
        k, v = p.split(":")
        if k == "np":
            return np.float64(v)
        if k == "npi":
            return np.int64(v)
        if k == "f32":
            return np.float32(v)
        return sympy.sympify(v, locals=TG)
    return p


WRAPS = [[], ["d"], [1], [2], ["d", 1], [1, "d"], [2, 1]]


def gen_gates(tier):
    for name, (nq, k) in ref.GATES.items():
        for w in WRAPS:
            nw = nq + sum(x for x in w if x != "d")
            if k == 0:
                for q in ([list(range(nw)), list(range(nw))[::-1]] + ([[1 + i * 2 for i in range(nw)]] if nw < 4 else [])):
                    yield [name, [], w, q]
            else:
                for i, p in enumerate(PARAMS):
                    if w and i % 3 and tier == "quick":
                        continue
                    ps = [PARAMS[(i + 5 * j) % len(PARAMS)] for j in range(k)]
                    yield [name, ps, w, list(range(nw))[:: -1 if i % 2 else 1]]
    for ps in itertools.product(["s:theta", "s:gamma", 0.5, "s:theta-gamma"], repeat=3):
        yield ["U3", list(ps), [], [0]]


def step_gates(ctx, case):
    name, ps, w, q = case
    g = builtin_gate_by_name(name)
    g = g(*[par(p) for p in ps]) if ps else g
    g = zq.wrap_real(g, w)
    c = Circuit([g(*q)], n_qubits=max(q) + 1)
    full(ctx, c, f"{name}{ps} {w} on {q}", files=False, unitary=len(q) < 4)


# ---- symbol names ----------------------------------------------------------------
FORMS = 5


def expr_of(i, s, t):
    return [s, 2 * s + t, s / 3 - 1.5 * t, sympy.sin(s) * t + sympy.exp(t), s ** 2 + sympy.pi * t][i]


def gen_names(tier):
    for n in NAMES:
        for m in NAMES:
            for i in range(FORMS):
                if tier == "quick" and n != m and i in (0, 4) or i == 4 and "pi" in (n, m):
                    continue
                yield ["builtin", n, m, i]
            if "I" not in (n, m):  # the definition's matrix contains the imaginary unit
                yield ["custom", n, m, 0]


def step_names(ctx, case):
    kind, n, m, i = case
    s, t = sympy.Symbol(n), sympy.Symbol(m)
    e = expr_of(i, s, t)
    if kind == "builtin":
        c = Circuit([builtin_gate_by_name("RX")(e)(0), builtin_gate_by_name("CPHASE")(t)(1, 0)])
        full(ctx, c, f"parameters {e},{t}", unitary=(i == 1 and n < m))
        return
    if n == m:
        d = CustomGateDefinition("G1", sympy.Matrix([[sympy.exp(sympy.I * s), 0], [0, 1]]), (s,))
        c = Circuit([d(0.3)(0), d(s)(1), d(2 * s)(0)])
        full(ctx, c, f"definition over {n}", unitary=False)
        return
    d = CustomGateDefinition("G2", sympy.Matrix([[sympy.exp(sympy.I * s), 0], [0, sympy.exp(2 * sympy.I * t)]]), (s, t))
    u = sympy.Symbol("other")
    c = Circuit([d(0.3, -0.7)(0), d(t, s)(1), d(s + t, u)(0), d.__call__(u, 2 * t)(1)])
    full(ctx, c, f"definition over {n},{m}", unitary=(NAMES.index(n) + 1 == NAMES.index(m)))
    defs = circuit_from_dict(json.loads(json.dumps(to_dict(c)))).collect_custom_gate_definitions()
    ctx.eq(len(list(defs)), 1, "definitions")
    ctx.check(list(defs)[0] == d, f"definition over {n},{m} changed")
    # wrong order of the two parameters is noticed
    ctx.eq([str(x) for x in list(defs)[0].params_ordering], [n, m], "parameter order of the definition")


# ---- custom gates -------------------------------------------------------------------
al, be = sympy.symbols("alpha beta")


def custom(i):
    if i == 0:
        return CustomGateDefinition("K0", sympy.Matrix([[0, 1], [sympy.I, 0]]), ())
    if i == 1:
        return CustomGateDefinition("K1", sympy.Matrix([[sympy.cos(al), -sympy.sin(al)], [sympy.sin(al), sympy.cos(al)]]), (al,))
    if i == 2:
        return CustomGateDefinition("K2", sympy.Matrix(
            [[1, 0, 0, 0], [0, sympy.exp(sympy.I * be), 0, 0], [0, 0, 0, sympy.exp(-sympy.I * al)], [0, 0, sympy.sqrt(2) / 2 + sympy.I * sympy.sqrt(2) / 2, 0]]), (be, al))
    if i == 3:
        return CustomGateDefinition("K3", sympy.Matrix(ref.haar_like(2, 5)), ())
    if i == 4:  # same name as K0 with another matrix
        return CustomGateDefinition("K0", sympy.Matrix([[0, 1], [-sympy.I, 0]]), ())
    if i == 5:  # the same definition again, another object
        return CustomGateDefinition("K0", sympy.Matrix([[0, 1], [sympy.I, 0]]), ())
    if i == 6:  # same name and matrix, other parameter order
        return CustomGateDefinition("K2", custom(2).matrix, (al, be))


CP = {0: [()], 1: [(0.3,), (al,), (be * 2,)], 2: [(0.3, -0.4), (al, be), (be, al), (al, al), (be + 1, 0.5)], 3: [()], 4: [()], 5: [()], 6: [(0.3, 0.2)]}
CWR = [[], ["d"], [1], ["d", 1], [1, "d"], [2]]


def gen_custom(tier):
    uses = []
    for i in range(4):
        for pi in range(len(CP[i])):
            for wi in range(len(CWR)):
                uses.append([i, pi, wi])
    for u in uses:
        yield [u]
    for u in uses:
        for v in ([0, 0, 0], [1, 1, 2], [2, 2, 3], [3, 0, 1], [4, 0, 0], [4, 0, 2], [5, 0, 4], [6, 0, 0], [6, 0, 2]):
            yield [u, v]
            if tier == "thorough":
                for x in ([0, 0, 1], [1, 2, 0], [2, 1, 5], [5, 0, 0]):
                    yield [u, v, x]


def step_custom(ctx, case):
    ops, seen, conflict = [], {}, False
    for k, (i, pi, wi) in enumerate(case):
        d = custom(i)
        g = zq.wrap_real(d(*CP[i][pi]), CWR[wi])
        ops.append(g(*[(k + j) % 4 if g.num_qubits <= 4 else j for j in range(g.num_qubits)]))
        ident = {0: 0, 5: 0}.get(i, i)
        if seen.setdefault(d.gate_name, ident) != ident:
            conflict = True
    ops.append(builtin_gate_by_name("H")(0))
    c = Circuit(ops, n_qubits=4)
    ctx.outcome("conflict" if conflict else "ok")
    if conflict:
        ctx.step()
        ctx.state(str(case))
        ctx.raises(lambda: to_dict(c), f"two definitions of one name in {case}", ValueError)
        return
    full(ctx, c, str(case), files=len(case) == 1, unitary=True)
    ctx.eq([x.gate_name for x in c.collect_custom_gate_definitions()], sorted(seen), "collected definitions")
    # a missing definition is rejected
    d = json.loads(json.dumps(to_dict(c)))
    for drop in range(len(d["custom_gate_definitions"])):
        e = json.loads(json.dumps(d))
        del e["custom_gate_definitions"][drop]
        ctx.raises(lambda: circuit_from_dict(e), f"definition {drop} removed from {case}")
    e = dict(d)
    del e["custom_gate_definitions"]
    ctx.raises(lambda: circuit_from_dict(e), f"definitions removed from {case}")


# ---- registers and circuit lists -----------------------------------------------------
def reg_circuits():
    th = sympy.Symbol("theta")
    H, X, RX = (builtin_gate_by_name(n) for n in ("H", "X", "RX"))
    k2 = custom(2)
    return [
        Circuit(), Circuit(n_qubits=1), Circuit(n_qubits=7), Circuit([H(0)]), Circuit([H(0)], n_qubits=5),
        Circuit([X(3)]), Circuit([RX(th)(2), H(0), RX(2 * th)(2)], n_qubits=4), Circuit([k2(th, 0.5)(1, 0)], n_qubits=3),
        Circuit([k2(0.1, 0.5).controlled(1)(2, 1, 0), X(0)]), Circuit([H(12)]), Circuit([custom(0)()(0)]), Circuit([custom(4)()(0)]),
    ]


def gen_reg(tier):
    n = len(reg_circuits())
    yield []
    for L in (1, 2, 3):
        for idx in itertools.product(range(n), repeat=L):
            yield list(idx)


def step_reg(ctx, case):
    cs = [reg_circuits()[i] for i in case]
    d = to_dict(cs)
    p = os.path.join(ctx.scratch, "set.json")
    save_circuitset(cs, p)
    variants = [("dict", circuitset_from_dict(d)), ("text", circuitset_from_dict(json.loads(json.dumps(d)))), ("file", load_circuitset(p))]
    if len(case) < 3:
        b = io.StringIO()
        save_circuitset(cs, b)
        b.seek(0)
        variants.append(("stream", load_circuitset(b)))
    for how, got in variants:
        ctx.step()
        ctx.check(isinstance(got, list), "circuit list type")
        ctx.eq(len(got), len(cs), f"number of circuits of {case} via {how}")
        for c, g in zip(cs, got):
            compare(ctx, c, g, how, f"circuit list {case}", False)
    ctx.state(tuple(case))
    if len(case) == 1:
        full(ctx, cs[0], f"register {case}", files=True)


# ---- rejected input --------------------------------------------------------------------
def gen_bad(tier):
    for what in ("circuit", "set"):
        for s in ("missing", "none", "empty", "old", "other", "swapped"):
            for i in range(4):
                yield [what, s, i]


def step_bad(ctx, case):
    what, s, i = case
    cs = reg_circuits()
    cs = [cs[0], cs[3], cs[6], cs[7]]
    c = cs[i]
    d = to_dict(c if what == "circuit" else [c])
    load = circuit_from_dict if what == "circuit" else circuitset_from_dict
    load(dict(d))
    e = dict(d)
    if s == "missing":
        del e["schema"]
    else:
        e["schema"] = {"none": None, "empty": "", "old": "zapata-v1-circuit", "other": d["schema"] + "x",
                       "swapped": to_dict([c] if what == "circuit" else c)["schema"]}[s]
    ctx.step()
    ctx.state(tuple(case))
    ctx.raises(lambda: load(e), f"{what} with schema {s}", ValueError)
    if what == "set":
        e = json.loads(json.dumps(d))
        e["circuits"][0]["schema"] = "x"
        ctx.raises(lambda: load(e), "inner schema", ValueError)
    if d.get("operations"):
        e = json.loads(json.dumps(d))
        e["operations"][0]["gate"]["name"] = "NoSuchGate"
        ctx.raises(lambda: load(e), "unknown gate")


# ---- custom gates named like other things ----------------------------------------------
LIKE = ["X", "Y", "T", "RX", "U3", "CNOT", "XX", "I", "Control", "Dagger", "H", "Union", "_gates", "builtin_gate_by_name", "make_parametric_gate_prototype", "MultiPhaseOperation", "", "a b", "\u03b1", "None"]


def gen_like(tier):
    for name in LIKE:
        for k in (0, 1):
            for w in CWR:
                for second in (None, "Z", "RZ", name):
                    yield [name, k, w, second]


def step_like(ctx, case):
    """a custom gate never turns into the built-in gate of the same name"""
    name, k, w, second = case
    ctx.state(tuple(map(str, case)))
    d = CustomGateDefinition(name, custom(k).matrix, custom(k).params_ordering)
    g = zq.wrap_real(d(*[0.3] * k), w)
    ops = [g(*range(g.num_qubits))]
    mixed = False
    if second == name:
        if name not in ref.GATES:
            return
        b = builtin_gate_by_name(name)
        nq, kk = ref.GATES[name]
        ops.append((b(*[0.4] * kk) if kk else b)(*range(nq)))
        mixed = True
    elif second:
        b = builtin_gate_by_name(second)
        ops.append((b(0.25) if second == "RZ" else b)(1))
        ops.append(d(*[-1.5] * k)(2))
    c = Circuit(ops, n_qubits=4)
    ctx.step()
    if mixed:
        # either refused or restored, never confused
        try:
            t = json.dumps(to_dict(c))
        except ValueError:
            ctx.outcome("refused")
            return
        compare(ctx, c, circuit_from_dict(json.loads(t)), "text", str(case))
        return
    full(ctx, c, str(case))
    ctx.eq([x.gate_name for x in circuit_from_dict(json.loads(json.dumps(to_dict(c)))).collect_custom_gate_definitions()], [name], f"{case}: definitions")


# ---- large circuits -----------------------------------------------------------------------
def gen_large(tier):
    for L in (12, 40, 101) if tier == "quick" else (11, 12, 40, 101, 300):
        for stride in (1, 3, 7):
            for nd in (1, 11, 13):
                for form in ("g{}", "G_{}", "{}"):
                    yield [L, stride, nd, form]


def step_large(ctx, case):
    """long circuits on registers with two-digit indices, many definitions and symbols with numbered names, many controls"""
    L, stride, nd, form = case
    defs = []
    p0, p1 = sympy.symbols("p_1 p_10")
    for i in range(nd):
        if i % 3 == 0:
            m, ps = sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * (p0 * (i + 1) + p1))]]), (p0, p1) if i % 2 else (p1, p0)
        elif i % 3 == 1:
            m, ps = sympy.Matrix([[0, sympy.exp(sympy.I * (i + 1))], [1, 0]]), ()
        else:
            m, ps = sympy.Matrix([[sympy.exp(sympy.I * p1 * (i + 2)), 0], [0, 1]]), (p1,)
        defs.append(CustomGateDefinition(form.format(i), m, ps))
    S = [sympy.Symbol(f"t{i}") for i in range(12)]
    ops = []
    for k in range(L):
        i = k * stride
        e = [S[i % 12], S[i % 12] - 2 * S[(i + 1) % 12], 0.1 * k, sympy.pi * k / 7][k % 4]
        kind = k % 5
        if kind == 0:
            d = defs[i % nd]
            ops.append(d(*[S[(i + j) % 12] + j for j in range(len(d.params_ordering))])(i % 17))
        elif kind == 1:
            ops.append(builtin_gate_by_name("RX")(e)(i % 17))
        elif kind == 2:
            ops.append(builtin_gate_by_name("CNOT")(i % 17, (i + 9) % 17))
        elif kind == 3:
            ops.append(builtin_gate_by_name("RZ")(e).controlled(1 + k % 11).dagger(*[(i + j) % 17 for j in range(2 + k % 11)]))
        else:
            d = defs[(i + 1) % nd]
            ops.append(d(*[0.5 * j + k for j in range(len(d.params_ordering))]).dagger.controlled(1)((i + 3) % 17, (i + 4) % 17))
    c = Circuit(ops, n_qubits=20)
    full(ctx, c, str(case), files=True, unitary=False)
    d = json.loads(json.dumps(to_dict(c)))
    got = circuit_from_dict(d)
    want = {g.gate_name: g for g in c.collect_custom_gate_definitions()}
    have = {g.gate_name: g for g in got.collect_custom_gate_definitions()}
    ctx.check(have == want, f"{case}: definitions changed")
    cs = [Circuit(ops[: k + 1], n_qubits=20 + k) for k in range(0, min(L, 40), 3)]
    p = os.path.join(ctx.scratch, "large-set.json")
    save_circuitset(cs, p)
    ctx.check(load_circuitset(p) == cs, f"{case}: circuit set changed")


def gen_other(tier):
    for i in range(8):
        yield [i]


def step_other(ctx, case):
    """objects without a serialized form are refused"""
    from zquantum.core.circuits import MultiPhaseOperation
    H = builtin_gate_by_name("H")
    bad = [lambda: to_dict(1), lambda: to_dict("circuit"), lambda: to_dict(None), lambda: to_dict(MultiPhaseOperation((0.1, 0.2))), lambda: to_dict(Circuit([MultiPhaseOperation((0.1, 0.2))])),
           lambda: to_dict([Circuit([H(0), MultiPhaseOperation((0.1, 0.2))])]), lambda: to_dict({"a": 1}), lambda: to_dict(np.eye(2))][case[0]]
    ctx.step()
    ctx.state(tuple(case))
    ctx.raises(bad, f"serialization of unsupported object {case[0]}", NotImplementedError)


FRESH = zqfresh.Fresh(zqfreshlist.C04)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("gates", gen_gates, step_gates, "all built-in gates x 30 parameter forms x 7 wrapper chains x qubit orders"),
    Space("names", gen_names, step_names, "all ordered pairs of 29 symbol names x 5 expressions, plus custom definitions over them"),
    Space("custom", gen_custom, step_custom, "all uses of 4 definitions (parameter choices x 6 wrapper chains), alone and with 9 second uses incl. conflicting ones"),
    Space("lists", gen_reg, step_reg, "all lists of up to three circuits from 12, incl. empty registers"),
    Space("rejected", gen_bad, step_bad, "all schema corruptions x circuits"),
    Space("named-like", gen_like, step_like, "custom gates with 20 names of built-in gates, wrappers and module members x 2 definitions x 6 wrapper chains x 4 second gates"),
    Space("large", gen_large, step_large, "circuits of 12-101 (thorough 300) operations on 20 qubits with 1-13 definitions, 12 numbered symbols and up to 11 controls; circuit sets of 14"),
    Space("unsupported", gen_other, step_other, "8 objects without a serialized form"),
]
