"""C21: ansatz circuits always reflect current settings and parameter order."""
import copy
import itertools

import numpy as np
import sympy
from overrides import overrides

from mc.core import Space
from zquantum.core.circuits import Circuit, RX, RY, RZ, PHASE, CNOT
from zquantum.core.circuits.symbolic import natural_key_fixed_names_order
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import ansatz_property, combine_ansatz_params, invalidates_parametrized_circuit
from zquantum.core.interfaces.mock_objects import MockAnsatz
from zquantum.core.utils import create_symbols_map

ID = "C21"
ASSUMPTIONS = ["settings are changed through the documented properties and decorated methods", "symbols of one ansatz follow one naming pattern"]
TECHNIQUE = "exhaustive exploration of histories of setting changes and queries on two live ansatzes, each step compared with a freshly built one"


class Layered(Ansatz):
    """settings of all supported kinds: ansatz properties (with default), a decorated property, a decorated method"""

    supports_parametrized_circuits = True
    size = ansatz_property("size")
    kind = ansatz_property("kind", default_value="X")
    pattern = ansatz_property("pattern")  # a mutable value
    weights = ansatz_property("weights")  # an array, whose comparison is not a single boolean

    def __init__(self, number_of_layers, size, kind=None, twist=0, extra=(), pattern=(), weights=(0.0, 0.0)):
        super().__init__(number_of_layers)
        self.size = size
        if kind is not None:
            self.kind = kind
        self._twist = twist
        self._extra = list(extra)
        self.pattern = list(pattern)
        self.weights = np.array(weights)

    # a decorated property with a setter
    twisted = invalidates_parametrized_circuit(property(lambda self: self._twist, lambda self, v: setattr(self, "_twist", v)))

    @invalidates_parametrized_circuit
    def add_extra(self, q, *, gate="Z"):
        self._extra.append((q, gate))
        return len(self._extra)

    @property
    @overrides
    def number_of_qubits(self):
        return self.size

    @overrides
    def _generate_circuit(self, params=None):
        c = Circuit(n_qubits=self.size)
        gate = RX if self.kind == "X" else RY
        for layer in range(self.number_of_layers):
            for q in range(self.size):
                c += gate(sympy.Symbol(f"beta_{layer * self.size + q}") + self._twist)(q)
            c += RZ(sympy.Symbol(f"gamma_{layer}") * 2)(0)
        for q, g in self._extra:
            c += (RZ if g == "Z" else PHASE)(sympy.Symbol(f"delta_{len(c.operations)}"))(q % self.size)
        for q, x in [(0, x) for x in self.pattern] + [(self.size - 1, float(x)) for x in self.weights if x]:
            c += PHASE(x)(q)
        return c


class Ordered(Layered):
    """the documented parameter order is overridden"""

    @property
    @overrides
    def symbols_sort_key(self):
        return natural_key_fixed_names_order(["gamma", "beta", "delta"])


class OtherDefault(Layered):
    """the same setting with another default"""

    kind = ansatz_property("kind", default_value="Y")


class Direct(Layered):
    """no parametrized circuits: parameters go to the generator"""

    supports_parametrized_circuits = False

    @overrides
    def _generate_circuit(self, params=None):
        c = Circuit(n_qubits=self.size)
        for layer in range(self.number_of_layers):
            for q in range(self.size):
                c += RX(params[layer * self.size + q] + self._twist)(q)
        for x in self.pattern:
            c += PHASE(x)(0)
        return c


OPS = [("layers", 0), ("layers", 1), ("layers", 3), ("size", 1), ("size", 3), ("kind", "Y"), ("kind", "X"), ("twisted", 1), ("extra", 0), ("extra", 1), ("circuit",), ("params",), ("exec",), ("short",), ("long",), ("none",),
       ("mutate",), ("pattern+=",), ("pattern[0]",), ("weights",), ("copy",)]
CLASSES = {"layered": Layered, "ordered": Ordered, "direct": Direct, "default": OtherDefault}


class Model:
    def __init__(self, layers, size):
        self.layers, self.size, self.kind, self.twist, self.extra = layers, size, None, 0, []
        self.pattern, self.weights = [], [0.0, 0.0]

    def fresh(self, cls):
        return cls(self.layers, self.size, self.kind, self.twist, self.extra, self.pattern, self.weights)

    def order(self, cls):
        """symbols in the documented order: by index, then by name (alphabetically, or as the ansatz says)"""
        n = self.layers * self.size
        syms = [("beta", i) for i in range(n)] + [("gamma", i) for i in range(self.layers)] + [("delta", n + self.layers + i) for i in range(len(self.extra))]
        names = ["gamma", "beta", "delta"] if cls is Ordered else ["beta", "delta", "gamma"]
        return [sympy.Symbol(f"{a}_{i}") for a, i in sorted(syms, key=lambda x: (x[1], names.index(x[0])))]


def apply(ctx, what, cls, a, m, op):
    """one step on the live ansatz and on the model"""
    k = op[0]
    if k == "layers":
        a.number_of_layers = op[1]
        m.layers = op[1]
    elif k == "size":
        a.size = op[1]
        m.size = op[1]
    elif k == "kind":
        a.kind = op[1]
        m.kind = op[1]
    elif k == "twisted":
        a.twisted = m.twist + 1
        m.twist += 1
    elif k == "extra":
        r = a.add_extra(op[1], gate="ZP"[op[1]])
        m.extra.append((op[1], "ZP"[op[1]]))
        ctx.eq(r, len(m.extra), f"{what}: value returned by a decorated method")
    elif k == "pattern+=":
        a.pattern += [0.25 * (len(m.pattern) + 1)]  # changes the list in place and assigns it
        m.pattern = m.pattern + [0.25 * (len(m.pattern) + 1)]
    elif k == "pattern[0]" and m.pattern:
        x = a.pattern
        x[0] += 0.125
        a.pattern = x
        m.pattern = [m.pattern[0] + 0.125] + m.pattern[1:]
    elif k == "weights":
        x = a.weights
        x[len(m.pattern) % 2] += 0.5
        a.weights = x
        m.weights = [w + (0.5 if i == len(m.pattern) % 2 else 0) for i, w in enumerate(m.weights)]
    f = m.fresh(cls)
    ctx.eq((list(a.pattern), list(a.weights)), (m.pattern, m.weights), f"{what}: mutable settings")
    ctx.eq((a.number_of_layers, a.size, a.kind, a.twisted), (m.layers, m.size, m.kind or ("Y" if cls is OtherDefault else "X"), m.twist), f"{what}: settings")
    if cls is Direct:
        p = [0.1 * i + 0.05 for i in range(m.layers * m.size)]
        if k in ("circuit", "params"):
            ctx.raises(lambda: a.parametrized_circuit, f"{what}: parametrized circuit", NotImplementedError)
            ctx.raises(lambda: a.number_of_params, f"{what}: number of parameters", NotImplementedError)
        elif k in ("exec", "mutate"):
            ctx.check(a.get_executable_circuit(np.array(p)) == f._generate_circuit(p), f"{what}: executable circuit")
        elif k == "none":
            ctx.raises(lambda: a.get_executable_circuit(None), f"{what}: no parameters")
        return
    n = m.layers * (m.size + 1) + len(m.extra)
    if k == "circuit":
        c = a.parametrized_circuit
        ctx.check(c == f._generate_circuit(), lambda: f"{what}: parametrized circuit {c}, a fresh ansatz gives {f._generate_circuit()}")
        ctx.eq(a.number_of_qubits, m.size, f"{what}: number of qubits")
        ctx.check(a.parametrized_circuit == c, f"{what}: second query differs")
    elif k == "params":
        ctx.eq(a.number_of_params, n, f"{what}: number of parameters")
    elif k in ("exec", "mutate"):
        p = np.array([0.1 * i + 0.05 for i in range(n)])
        snap = p.copy()
        got = a.get_executable_circuit(p)
        syms = m.order(cls)
        want = f._generate_circuit().bind(dict(zip(syms, p)))
        ctx.check(got == want, lambda: f"{what}: executable circuit {got}, expected {want}")
        ctx.check((p == snap).all() and not got.free_symbols, f"{what}: parameters changed or symbols left")
        if k == "mutate":
            # what the caller does with returned circuits must not leak into the cache
            ops = a.parametrized_circuit.operations
            if isinstance(ops, list):
                ops = list(ops)
            got += RX(0.7)(0)
            _ = a.parametrized_circuit + RX(0.1)(0)
            ctx.check(a.parametrized_circuit == f._generate_circuit(), f"{what}: cached circuit changed")
    elif k == "short" and n:
        ctx.raises(lambda: a.get_executable_circuit(np.zeros(n - 1)), f"{what}: vector too short", ValueError)
    elif k == "long":
        ctx.raises(lambda: a.get_executable_circuit(np.zeros(n + 1)), f"{what}: vector too long", ValueError)
    elif k == "none":
        ctx.raises(lambda: a.get_executable_circuit(None), f"{what}: no parameters")
    ctx.eq(a.number_of_qubits, m.size, f"{what}: number of qubits")


def gen(tier):
    sel = range(len(OPS))
    queries = [i for i in sel if OPS[i][0] in ("circuit", "params", "exec", "mutate")]
    for cls in CLASSES:
        for d in range(1, 3 if tier == "quick" else 4):
            for h in itertools.product(sel, repeat=d):
                yield [cls, list(h)]
        # change, query, change, query ... (the pattern that meets a stale cache)
        chg = [i for i in sel if OPS[i][0] in ("layers", "size", "kind", "twisted", "extra", "pattern+=", "weights")]
        for q1, c1, q2, c2 in itertools.product(queries[:3], chg, queries[:3], chg) if tier == "quick" else itertools.product(queries, chg, queries, chg):
            yield [cls, [q1, c1, q2, c2, 10]]


def step_hist(ctx, case):
    cname, hist = case
    cls = CLASSES[cname]
    # a bystander instance of the same class is used in between and must stay independent
    if cls is OtherDefault:
        # defaults belong to the class: that of the parent is asked for first
        apply(ctx, "parent class", Layered, Layered(1, 1), Model(1, 1), ("exec",))
    live = [(cls(2, 2), Model(2, 2)), (cls(1, 2), Model(1, 2))]
    for i, o in enumerate(hist):
        a, m = live[0]
        what = f"{cname}: history {[OPS[x] for x in hist[:i + 1]]}"
        apply(ctx, what, cls, a, m, OPS[o])
        if OPS[o][0] == "copy":
            # a deep copy goes its own way, then the walk continues on it while the original must stay as it is
            b, n = copy.deepcopy(a), copy.deepcopy(m)
            apply(ctx, what + " on the copy", cls, b, n, ("circuit",))
            apply(ctx, what + " on the copy", cls, b, n, ("size", 3 if m.size != 3 else 2))
            apply(ctx, what + " on the original", cls, a, m, ("circuit",))
            live[0] = (b, n)
            live.append((a, m))
        ctx.step()
        ctx.state((cname, m.layers, m.size, m.kind, m.twist, tuple(m.extra), o))
        if i % 2 == 0:
            b, n = live[1]
            apply(ctx, what + " then the bystander", cls, b, n, ("size", 2 + (i // 2) % 2))
            apply(ctx, what + " then the bystander", cls, b, n, ("circuit",))
    for k in ("circuit", "params", "exec"):
        for a, m in live:
            apply(ctx, f"{cname}: history {[OPS[x] for x in hist]} then {k}", cls, a, m, (k,))
            ctx.step()


# ---- MockAnsatz, parameter order, combination

def gen_mock(tier):
    for L in list(range(0, 6)) + [9, 10, 11, 12, 13]:
        for n in (1, 2, 3):
            yield ["mock", L, n]
    for a in range(0, 5):
        for b in range(0, 5):
            yield ["combine", a, b]
    for a in range(0, 6):
        for b in range(0, 6):
            yield ["map", a, b]
    yield ["neg", 0, 0]


def step_mock(ctx, case):
    kind, a, b = case
    ctx.state(tuple(case))
    ctx.step()
    if kind == "mock":
        m = MockAnsatz(a, b)
        ctx.eq((m.number_of_qubits, m.number_of_layers), (b, a), "settings")
        ctx.eq(m.number_of_params, a, "number of parameters")
        p = np.array([0.3 * i - 1 for i in range(a)])
        want = Circuit([RX(p[l])(q) for l in range(a) for q in range(b)])
        ctx.check(m.get_executable_circuit(p) == want, lambda: f"MockAnsatz({a}, {b}): {m.get_executable_circuit(p)}")
        for l2 in (a + 1, a, 2, 11):
            m.number_of_layers = l2
            ctx.eq(m.number_of_params, l2, "parameters after change of layers")
            p = np.array([0.1 * i - 1 for i in range(l2)])
            ctx.check(m.get_executable_circuit(p) == Circuit([RX(p[l])(q) for l in range(l2) for q in range(b)]), f"MockAnsatz changed to {l2} layers")
        m.problem_size = b + 2
        ctx.eq(m.number_of_qubits, b + 2, "qubits after change")
        ctx.eq(m.parametrized_circuit.n_qubits, b + 2, "register after change of size")
    elif kind == "combine":
        p, q = np.array([1.0 + i for i in range(a)]), np.array([-1.0 - i for i in range(b)])
        r = combine_ansatz_params(p, q)
        ctx.eq(list(r), list(p) + list(q), "combined parameters")
        if len(r):
            r[0] = 99
        ctx.check(list(p) == [1.0 + i for i in range(a)] and list(q) == [-1.0 - i for i in range(b)], "combined parameters share memory with the parts")
    elif kind == "map":
        syms = [sympy.Symbol(f"s{i}") for i in range(a)]
        vals = [0.5 * i for i in range(b)]
        for v in (np.array(vals), np.array(vals, dtype=np.float32)):
            if a != b:
                ctx.raises(lambda: create_symbols_map(syms, v), f"{a} symbols, {b} values", ValueError)
            else:
                ctx.eq(create_symbols_map(syms, v), dict(zip(syms, vals)), "symbols map")
    else:
        ctx.raises(lambda: MockAnsatz(-1, 2), "negative number of layers", ValueError)
        ctx.raises(lambda: Layered(-3, 2), "negative number of layers", ValueError)
        MockAnsatz(0, 1)


# ---- big ansatzes and long histories

def gen_long(tier):
    for cls in CLASSES:
        for layers in (4, 11) if tier == "quick" else (4, 11, 25):
            for size in ((1, 3) if tier == "quick" or layers == 25 else (1, 3, 5, 12)):
                for k in range(3):
                    yield [cls, layers, size, k]


LONG = [[("circuit",), ("layers", 12), ("exec",), ("extra", 1), ("params",), ("size", 2), ("exec",), ("twisted", 1), ("circuit",), ("weights",), ("mutate",), ("extra", 0), ("short",), ("layers", 1), ("exec",), ("pattern+=",), ("circuit",),
         ("pattern[0]",), ("exec",), ("kind", "Y"), ("exec",), ("layers", 5), ("long",), ("copy",), ("exec",), ("size", 13), ("layers", 1), ("params",), ("exec",)],
        [("extra", 0), ("extra", 1)] * 6 + [("exec",), ("layers", 2), ("circuit",), ("extra", 1), ("exec",), ("params",), ("mutate",), ("layers", 0), ("params",), ("exec",)],
        [("layers", 2), ("layers", 3), ("layers", 2), ("circuit",), ("size", 1), ("size", 2), ("circuit",), ("kind", "Y"), ("kind", "X"), ("exec",), ("weights",), ("weights",), ("exec",), ("copy",), ("twisted", 1), ("twisted", 1), ("circuit",), ("params",),
         ("layers", 2), ("size", 11), ("exec",), ("none",), ("short",), ("long",), ("exec",)]]


def step_long(ctx, case):
    cname, layers, size, k = case
    cls = CLASSES[cname]
    live = [(cls(layers, size), Model(layers, size))]
    done = []
    for op in LONG[k]:
        a, m = live[0]
        done.append(op)
        what = f"{cname}({layers}, {size}): history {done}"
        apply(ctx, what, cls, a, m, op)
        ctx.step()
        ctx.state((cname, m.layers, m.size, m.kind, m.twist, tuple(m.extra), tuple(m.weights)))
        if op[0] == "copy":
            b, n = copy.deepcopy(a), copy.deepcopy(m)
            apply(ctx, what + " on the copy", cls, b, n, ("size", m.size + 1))
            live.append((b, n))
    for a, m in live:
        for q in ("circuit", "params", "exec"):
            apply(ctx, f"{cname}({layers}, {size}): history {done} then {q}", cls, a, m, (q,))


SPACES = [
    Space("histories", gen, step_hist, "all histories of depth 2 (thorough 3) over 17 setting changes and queries on four kinds of ansatz (one redefines a default of its parent) with a bystander instance, plus all query-change-query-change patterns"),
    Space("mock-and-vectors", gen_mock, step_mock, "the bundled ansatz for 11 layer numbers and 3 sizes, all vector lengths up to 5"),
    Space("long", gen_long, step_long, "three histories of 24-28 steps from 4, 11 (25) layers on 1-12 qubits, with parameter indices of two and three digits"),
]
