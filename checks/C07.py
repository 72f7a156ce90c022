"""C07: circuit builders, random circuits under every answer of the generator, connectivity layouts."""
import io
import itertools
import json
import math
import os
import warnings

import numpy as np
import sympy

from mc import ref, rng
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import circuits
from zquantum.core.circuits import Circuit, add_ancilla_register, apply_gate_to_qubits, create_layer_of_gates, create_random_circuit, builtin_gate_by_name
from zquantum.core.circuits import layouts as lay

ID = "C07"
ASSUMPTIONS = [
    "a random generator only answers within the contract of numpy's Generator; continuous draws are explored at both ends and the middle of their range",
    "sycamore layers: each coupling once in each of the two colourings (first and second half of the pairs of layers), as the documented pattern prescribes",
]
TECHNIQUE = "exhaustive enumeration of builder arguments and of every answer of the random generator"

G1 = {"X": 0, "H": 0, "T": 0, "RX": 1, "RY": 1, "PHASE": 1, "U3": 3}


def pvals(n, k, seed=0):
    return [[0.1 + 0.37 * i + 1.1 * j + seed for j in range(k)] for i in range(n)]


def check_ops(ctx, c, want, n, what):
    ctx.eq(c.n_qubits, n, f"{what}: register")
    ctx.eq(len(c.operations), len(want), f"{what}: number of gates")
    for o, (g, p, q) in zip(c.operations, want):
        ctx.eq(tuple(o.qubit_indices), tuple(q), f"{what}: qubits")
        ctx.check(o == zq.real_op(["g", g, p, q, []]), f"{what}: {o} instead of {g}{p} on {q}")


def gen_layer(tier):
    for n in range(0, 9):
        for g in G1:
            for form in ("array", "list"):
                yield [n, g, form]


def step_layer(ctx, case):
    n, g, form = case
    k = G1[g]
    ps = pvals(n, k)
    ctx.step()
    ctx.state(tuple(case))
    gate = builtin_gate_by_name(g)
    if k == 0:
        c = create_layer_of_gates(n, gate)
    else:
        c = create_layer_of_gates(n, gate, np.array(ps).reshape(n, k) if form == "array" else ps)
        for m in {n - 1, n + 1, 0} - {n}:
            if m >= 0:
                ctx.raises(lambda: create_layer_of_gates(n, gate, pvals(m, k)), f"{m} parameter rows for {n} qubits")
    check_ops(ctx, c, [(g, ps[i], [i]) for i in range(n)], n, f"layer {case}")
    if k == 1:
        th = sympy.symbols("theta_:%d" % max(n, 1))[:n]
        c = create_layer_of_gates(n, gate, [[t] for t in th])
        ctx.eq([str(s) for s in c.free_symbols], [str(t) for t in th], "symbols of a layer")


BASES = [[[], None], [[], 3], [[["g", "CNOT", [], [0, 2], []]], None], [[["g", "H", [], [0], []]], 6]]


def gen_apply(tier):
    for bi in range(len(BASES)):
        for L in range(0, 4 if tier == "quick" else 5):
            for q in itertools.product(range(5), repeat=L):
                for g in ("X", "RY", "U3"):
                    if len(set(q)) < len(q) and g == "U3":
                        continue
                    yield [bi, list(q), g]


def step_apply(ctx, case):
    bi, q, g = case
    ds, n = BASES[bi]
    base = Circuit([zq.real_op(d) for d in ds], n_qubits=n)
    uniq = list(dict.fromkeys(q))
    k = G1[g]
    ps = pvals(len(uniq), k)
    gate = builtin_gate_by_name(g)
    dup = len(uniq) < len(q)
    want = [(d[1], d[2], d[3]) for d in ds] + [(g, ps[i], [x]) for i, x in enumerate(uniq)]
    size = max([base.n_qubits] + [x + 1 for x in uniq])
    for form in (tuple(q), list(q)):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            c = apply_gate_to_qubits(base, form, gate, np.array(ps) if k else None) if (k == 0 or uniq) else base
        ctx.step()
        if k == 0 or uniq:
            ctx.eq(bool(w), dup, f"warning about duplicates for {q}")
        if dup:
            # which of the distinct qubits comes first is left open
            got = sorted(((str(o)) for o in c.operations[len(ds):]), key=lambda s: s[s.index("("):]) if k == 0 else None
            if k == 0:
                ctx.eq(sorted(o.qubit_indices[0] for o in c.operations[len(ds):]), sorted(uniq), f"qubits {q} with duplicates")
                ctx.eq(len(got), len(uniq), "number of gates")
        check_ops(ctx, c, want, size, f"{case}")
    if q and not dup:
        c = apply_gate_to_qubits(base, range(max(q) + 1), gate, pvals(max(q) + 1, k) if k else None)
        check_ops(ctx, c, [(d[1], d[2], d[3]) for d in ds] + [(g, pvals(max(q) + 1, k)[i], [i]) for i in range(max(q) + 1)],
                  max(base.n_qubits, max(q) + 1), "range of qubits")
    if k:
        ctx.raises(lambda: apply_gate_to_qubits(base, q, gate, pvals(len(uniq) + 1, k)), "too many parameters")
    check_ops(ctx, base, [(d[1], d[2], d[3]) for d in ds], n or zq.seq_size(ds), "circuit the gates were applied to")
    ctx.state((bi, tuple(q), g))


def gen_ancilla(tier):
    for bi in range(len(BASES)):
        for k in range(0, 7):
            yield [bi, k]
    for k in range(1, 4):
        for j in range(1, 4):
            yield [2, [k, j]]


def step_ancilla(ctx, case):
    bi, ks = case
    ds, n = BASES[bi]
    base = Circuit([zq.real_op(d) for d in ds], n_qubits=n)
    n0 = base.n_qubits
    c, size = base, n0
    want = [(d[1], d[2], d[3]) for d in ds]
    for k in ks if isinstance(ks, list) else [ks]:
        c = add_ancilla_register(c, k)
        want = want + [("I", [], [size + i]) for i in range(k)]
        size += k
        ctx.step()
    check_ops(ctx, c, want, size, f"ancillas {case}")
    check_ops(ctx, base, want[: len(ds)], n0, "original circuit")
    ctx.state(str(case))


# ---- random circuits ---------------------------------------------------------------------------
ALLOWED = {"X": (1, 0), "Y": (1, 0), "Z": (1, 0), "H": (1, 0), "S": (1, 0), "T": (1, 0), "RX": (1, 1), "RY": (1, 1), "RZ": (1, 1),
           "PHASE": (1, 1), "CNOT": (2, 0), "CZ": (2, 0), "SWAP": (2, 0), "CPHASE": (2, 1)}


def gen_random(tier):
    yield [1, 0]
    yield [3, 0]
    for n in range(1, 6):
        yield [n, 1]
    yield [1, 2]
    yield [2, 2]
    if tier == "thorough":
        yield [3, 2]


def step_random(ctx, case):
    n, k = case
    seen = set()

    def body(ch):
        with rng.closed(ch) as (g, p):
            return create_random_circuit(n, k, g)

    for ch, c in ref.explore_choices(body):
        ctx.step()
        ctx.eq(c.n_qubits, n, f"register of a random circuit with {k} gates on {n} qubits ({c})")
        ctx.eq(len(c.operations), k, "number of random gates")
        for o in c.operations:
            ctx.check(o.gate.name in ALLOWED, f"unexpected gate {o}")
            q, np_ = ALLOWED[o.gate.name]
            ctx.eq((len(o.qubit_indices), len(o.params)), (q, np_), f"shape of {o}")
            ctx.check(len(set(o.qubit_indices)) == q and all(0 <= x < n for x in o.qubit_indices), f"qubits of {o}")
            ctx.check(all(-math.pi <= float(x) <= math.pi for x in o.params), f"parameter range of {o}")
            seen.add((o.gate.name, tuple(o.qubit_indices)))
        ctx.state((n, str(c)))
    if k == 1:
        want = {(g, q) for g, (m, _) in ALLOWED.items() if m <= n for q in ref.placements(n, m)}
        ctx.eq(len(want - seen), 0, f"gates and placements no answer produces: {sorted(want - seen)[:3]}")
        # the same seed gives the same circuit
        for s in range(3):
            a, b = (create_random_circuit(n, 6, np.random.default_rng(s)) for _ in range(2))
            ctx.check(a == b, "same seed, different circuit")


# ---- layouts -----------------------------------------------------------------------------------
def gen_layout(tier):
    for n in range(1, 12 if tier == "quick" else 40):
        yield ["nn", n, None]
    top = 7 if tier == "quick" else 12
    for x in range(1, top):
        for y in range(1, top):
            yield ["sycamore", x, y]
    for t in ("", "grid", "Sycamore"):
        yield ["bad", t, 2]


def sycamore_edges(x, y):
    """node (r, c): odd rows couple to the row above and below, same column and the next one"""
    out = set()
    for r in range(1, y, 2):
        for c in range(x):
            for r2 in (r - 1, r + 1):
                if r2 < y:
                    for c2 in (c, c + 1):
                        if c2 < x:
                            out.add(tuple(sorted((r * x + c, r2 * x + c2))))
    return out


def step_layout(ctx, case):
    kind, x, y = case
    ctx.step()
    ctx.state(tuple(case))
    if kind == "bad":
        ctx.raises(lambda: lay.build_circuit_layers_and_connectivity(3, 3, x), f"layer type {x!r}", ValueError)
        return
    if kind == "nn":
        conn, layers = lay.build_circuit_layers_and_connectivity(x)
        edges = {(i, i + 1) for i in range(x - 1)}
        times = 1
        nq = x
        for extra in (None, 1, 5):
            c2, l2 = lay.build_circuit_layers_and_connectivity(x, extra, "nearest-neighbor")
            ctx.check(c2.connectivity == conn.connectivity and l2.layers == layers.layers, "nearest neighbours ignore the second dimension")
    else:
        conn, layers = lay.build_circuit_layers_and_connectivity(x, y, "sycamore")
        edges = sycamore_edges(x, y)
        times = 2
        nq = x * y
    norm = [tuple(sorted(e)) for e in conn.connectivity]
    ctx.eq(len(norm), len(set(norm)), f"{case}: a coupling is listed twice")
    ctx.eq(sorted(norm), sorted(edges), f"{case}: couplings")
    ctx.check(all(0 <= q < nq for e in norm for q in e), f"{case}: qubit outside the register")
    cnt = {}
    for L in layers.layers:
        qs = [q for e in L for q in e]
        ctx.eq(len(qs), len(set(qs)), f"{case}: a layer uses a qubit twice: {L}")
        for e in L:
            ctx.check(tuple(e) in {tuple(c) for c in conn.connectivity}, f"{case}: layer contains {e}")
            t = tuple(sorted(e))
            cnt[t] = cnt.get(t, 0) + 1
    ctx.eq(cnt, {e: times for e in edges}, f"{case}: couplings in the layers")
    if kind == "sycamore":
        ctx.eq(len(layers.layers), 8, "number of layers")
        for half in ((0, 1, 4, 5), (2, 3, 6, 7)):
            ctx.eq(sorted(tuple(sorted(e)) for i in half for e in layers.layers[i]), sorted(edges), f"{case}: one colouring")
    file_roundtrip(ctx, conn, layers)


def file_roundtrip(ctx, conn, layers):
    p = os.path.join(ctx.scratch, "layout.json")
    lay.save_circuit_connectivity(conn, p)
    back = lay.load_circuit_connectivity(p)
    ctx.eq(back.connectivity, [tuple(e) for e in conn.connectivity], "loaded connectivity")
    with open(p) as f:
        ctx.eq(lay.load_circuit_connectivity(f).connectivity, back.connectivity, "connectivity from a file object")
    lay.save_circuit_layers(layers, p)
    b2 = lay.load_circuit_layers(p)
    ctx.eq(b2.layers, [[tuple(e) for e in L] for L in layers.layers], "loaded layers")
    with open(p) as f:
        ctx.eq(lay.load_circuit_layers(f).layers, b2.layers, "layers from a file object")
    ctx.eq(lay.CircuitLayers.from_dict(json.loads(json.dumps(layers.to_dict()))).layers, b2.layers, "layers from JSON text")
    ctx.eq(lay.CircuitConnectivity.from_dict(json.loads(json.dumps(conn.to_dict()))).connectivity, back.connectivity, "connectivity from JSON text")
    os.remove(p)


def gen_io(tier):
    groups = [[0], [0, 1], [2, 1], [0, 1, 2], [5, 3, 4, 0]]
    for L in range(0, 4):
        for idx in itertools.product(range(len(groups)), repeat=L):
            yield ["layers", [groups[i] for i in idx]]
    for n in range(0, 5):
        for perm in itertools.permutations(range(n)):
            yield ["ordering", list(perm)]


def step_io(ctx, case):
    kind, x = case
    ctx.step()
    ctx.state(str(case))
    if kind == "ordering":
        p = os.path.join(ctx.scratch, "ordering.json")
        lay.save_circuit_ordering(list(x), p)
        ctx.eq(lay.load_circuit_ordering(p), x, "loaded ordering")
        with open(p) as f:
            ctx.eq(lay.load_circuit_ordering(f), x, "ordering from a file object")
        os.remove(p)
        return
    for cut in range(0, len(x) + 1):
        L = lay.CircuitLayers([[tuple(g) for g in x[:cut]], [tuple(g) for g in x[cut:]]])
        file_roundtrip(ctx, lay.CircuitConnectivity([tuple(g) for g in x]), L)


def gen_wide(tier):
    for n in (10, 11, 12, 17, 33):
        for g in G1:
            yield ["layer", n, g]
        for k in (0, 1, 3, 9, 10, 11, 25):
            yield ["ancilla", n, k]
        for stride in (1, 3, 5, 7):
            for g in ("X", "RY", "U3"):
                yield ["apply", n, [stride, g]]
    for n in (12, 20, 41, 100):
        yield ["nn", n, None]
    for x, y in ((3, 9), (9, 3), (8, 8), (10, 11), (11, 10)):
        yield ["sycamore", x, y]


def step_wide(ctx, case):
    """registers with two-digit qubit indices"""
    kind, n, x = case
    if kind == "layer":
        step_layer(ctx, [n, x, "array"])
        step_layer(ctx, [n, x, "list"])
    elif kind in ("nn", "sycamore"):
        step_layout(ctx, case)
    elif kind == "ancilla":
        ctx.step()
        ctx.state(tuple(case))
        base = create_layer_of_gates(n, builtin_gate_by_name("H"))
        c = add_ancilla_register(base, x)
        check_ops(ctx, c, [("H", [], [i]) for i in range(n)] + [("I", [], [n + i]) for i in range(x)], n + x, f"{case}")
        check_ops(ctx, base, [("H", [], [i]) for i in range(n)], n, f"{case}: original")
    else:
        stride, g = x
        qs = [(i * stride + 2) % n for i in range(n)]
        qs = list(dict.fromkeys(qs))
        k = G1[g]
        ps = pvals(len(qs), k)
        base = Circuit([zq.real_op(["g", "CNOT", [], [n - 1, 0], []])])
        c = apply_gate_to_qubits(base, qs, builtin_gate_by_name(g), np.array(ps) if k else None)
        ctx.step()
        ctx.state(str(case))
        check_ops(ctx, c, [("CNOT", [], [n - 1, 0])] + [(g, ps[i], [q]) for i, q in enumerate(qs)], n, f"{case}")


FRESH = zqfresh.Fresh(zqfreshlist.C07)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("layers", gen_layer, step_layer, "registers of 0-8 qubits x 7 gates x argument forms"),
    Space("apply", gen_apply, step_apply, "4 base circuits x all qubit sequences of length up to 3 (4) over 5 qubits x 3 gates"),
    Space("ancillas", gen_ancilla, step_ancilla, "4 circuits x 0-6 ancillas, repeated extension"),
    Space("random", gen_random, step_random, "every answer sequence of the generator: up to one gate on 1-5 qubits, two gates on 1-2 (3) qubits"),
    Space("layouts", gen_layout, step_layout, "nearest-neighbour chains up to 11 (39), sycamore grids up to 6x6 (11x11)"),
    Space("files", gen_io, step_io, "all layer lists of up to three groups from 5, all orderings of up to four qubits"),
    Space("wide", gen_wide, step_wide, "registers of 10-33 qubits: layers of 7 gates, ancillas, gates applied in 4 orders; larger layouts"),
]
