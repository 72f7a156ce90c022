"""C36: workflow steps produce the files of the library functions they stand for."""
import copy
import itertools
import json
import math
import os
import shutil

import numpy as np
import sympy

from mc import opmat, ref
from mc.core import Space
from checks import zqobj
from steps import circuit as sc, evaluation as se, graph as sg, measure as sm, operators as so, optimize as sopt, transforms as st, utils as su
from zquantum.core import serialization
from zquantum.core.circuits import CNOT, Circuit, H, RX, RY, RZ, X, circuit_from_dict, load_circuit, load_circuitset, save_circuit, save_circuitset, to_dict
from zquantum.core.circuits.layouts import CircuitConnectivity, load_circuit_connectivity, load_circuit_layers, save_circuit_connectivity
from zquantum.core.circuits import layouts
from zquantum.core.distribution import load_measurement_outcome_distribution
from zquantum.core.measurement import ExpectationValues, Measurements, load_expectation_values, load_wavefunction, save_expectation_values
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator, convert_qubitop_to_dict, get_fermion_operator, load_interaction_operator,
                                       load_interaction_rdm, load_qubit_operator, load_qubit_operator_set, save_interaction_operator, save_interaction_rdm, save_qubit_operator, save_qubit_operator_set)
from zquantum.core.graph import load_graph
from zquantum.core.serialization import load_array, load_optimization_results, save_array
from zquantum.core.utils import load_list, load_nmeas_estimate, load_value_estimate, save_list, save_noise_model

ID = "C36"
ASSUMPTIONS = ["objects named in specs are importable and accept the arguments given there", "the working directory is writable and used by one workflow"]
TECHNIQUE = "exhaustive exploration of histories of workflow steps over a model of the working directory, and of all argument forms of every step, against independently computed results"

MOD = "checks.zqobj"
T = [sympy.Symbol(f"theta_{k}") for k in range(3)]


class Dir:
    """an empty working directory"""

    def __init__(self, ctx):
        self.path = os.path.join(ctx.scratch, "w")

    def __enter__(self):
        self.old = os.getcwd()
        if os.path.isdir(self.path):
            shutil.rmtree(self.path)
        os.mkdir(self.path)
        os.chdir(self.path)
        zqobj.LOG.clear()
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


def snapshot():
    out = {}
    for f in sorted(os.listdir(".")):
        with open(f) as fh:
            out[f] = fh.read()
    return out


def run_step(ctx, fn, written, **kw):
    """runs a step; only the documented files may change, and the arguments stay as they were"""
    keep = {k: (v, copy.deepcopy(v)) for k, v in kw.items()}
    before = snapshot()
    r = fn(**kw)
    ctx.step()
    after = snapshot()
    ctx.check(r is None, lambda: f"{fn.__name__} returned {r!r}")
    changed = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
    ctx.check(changed <= set(written), lambda: f"{fn.__name__} changed {sorted(changed)}, expected only {written}")
    for f in written:
        ctx.check(f in after, lambda: f"{fn.__name__} did not write {f}")
    for k, (v, old) in keep.items():
        ctx.check(same(v, old), lambda: f"{fn.__name__} changed its argument {k} from {old!r} to {v!r}")


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, ExpectationValues):
        return same(a.values, b.values)
    if isinstance(a, Measurements):
        return a.bitstrings == b.bitstrings
    if isinstance(a, (QubitOperator, IsingOperator, FermionOperator)):
        return type(a) is type(b) and dict(a.terms) == dict(b.terms)
    return bool(a == b)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


# ---------------------------------------------------------------- circuit workflows

ACTIONS = [
    ["random", 2, 3, 5], ["random", 1, 2, 0], ["ansatz", 2, None], ["ansatz", 1, [0.25]], ["ansatz", 2, "params.json"], ["params", 2, 3], ["params", 1, 4],
    ["combine", "params.json", "params.json"], ["combine", "combined-params.json", "params.json"], ["ancilla", 1], ["ancilla", 0], ["batch", ["circuit.json"], None], ["batch", ["circuit.json", "extended-circuit.json"], None],
    ["batch", ["circuit.json"], "circuit-set.json"], ["batch", [], "circuit-set.json"], ["concat", "circuit-set.json"], ["evaluate", "circuit.json", "params.json"], ["evaluate", "circuit.json", "combined-params.json"],
    ["reuse"],
]


def gen_flow(tier):
    for d in range(1, 4):
        for w in itertools.product(range(len(ACTIONS)), repeat=d):
            yield list(w)
    if tier == "thorough":
        for w in itertools.product(range(len(ACTIONS)), repeat=4):
            if w[0] in (0, 2, 5) and w[3] >= 7:
                yield list(w)


def ansatz_circuit(layers, n=2):
    ops = []
    for k in range(layers):
        ops += [RY(T[k])(k % n), CNOT(0, 1)]
    return Circuit(ops, n_qubits=n)


def step_flow(ctx, case):
    with Dir(ctx):
        model = {}  # file -> Circuit | list of Circuit | list of numbers
        for i, a in enumerate(case):
            a = ACTIONS[a]
            fn, kw, out, new = None, {}, None, None
            if a[0] == "random":
                fn, kw, out = sc.create_random_circuit, dict(number_of_qubits=a[1], number_of_gates=a[2], seed=a[3]), "circuit.json"
                new = "any"
            elif a[0] == "ansatz":
                specs = {"module_name": MOD, "function_name": "StubAnsatz", "number_of_layers": a[1]}
                fn, kw, out = sc.build_ansatz_circuit, dict(ansatz_specs=json.dumps(specs) if i % 2 else specs, params=a[2]), "circuit.json"
                p = model.get(a[2]) if isinstance(a[2], str) else a[2]
                if a[2] is None:
                    new = ansatz_circuit(a[1])
                elif p is not None and len(p) == a[1]:
                    new = ansatz_circuit(a[1]).bind(dict(zip(T, p)))
            elif a[0] == "params":
                fn, kw, out, new = sc.generate_random_ansatz_params, dict(number_of_parameters=a[1], seed=a[2], min_value=-1.0, max_value=2.0), "params.json", "params"
            elif a[0] == "combine":
                fn, kw, out = sc.combine_ansatz_params, dict(params1=a[1], params2=a[2]), "combined-params.json"
                if a[1] in model and a[2] in model:
                    new = model[a[1]] + model[a[2]]
            elif a[0] == "ancilla":
                fn, kw, out = sc.add_ancilla_register_to_circuit, dict(number_of_ancilla_qubits=a[1], circuit="circuit.json"), "extended-circuit.json"
                if "circuit.json" in model:
                    new = "ancilla"
            elif a[0] == "batch":
                fn, kw, out = sc.batch_circuits, dict(circuits=a[1], circuit_set=a[2]), "circuit-set.json"
                if all(f in model for f in a[1]) and (a[2] is None or a[2] in model):
                    new = (model[a[2]] if a[2] else []) + [model[f] for f in a[1]]
            elif a[0] == "concat":
                fn, kw, out = sc.concatenate_circuits, dict(circuit_set=a[1]), "result-circuit.json"
                if a[1] in model:
                    new = Circuit([o for c in model[a[1]] for o in c.operations], n_qubits=max([c.n_qubits for c in model[a[1]]] or [0]))
            elif a[0] == "evaluate":
                fn, kw, out = sc.evaluate_parametrized_circuit, dict(parametrized_circuit=a[1], parameters=a[2]), "evaluated-circuit.json"
                if a[1] in model and a[2] in model and len(model[a[1]].free_symbols) == len(model[a[2]]):
                    new = model[a[1]].bind(dict(zip(T, model[a[2]])))
            elif a[0] == "reuse":  # a result becomes the input of the next step
                for src in ("result-circuit.json", "evaluated-circuit.json", "extended-circuit.json"):
                    if src in model:
                        shutil.copyfile(src, "circuit.json")
                        model["circuit.json"] = model[src]
                        break
                continue
            if new is None:
                before = snapshot()
                ctx.raises(lambda: fn(**kw), f"{fn.__name__} with {kw} and files {sorted(model)}")
                ctx.step()
                ctx.check(snapshot() == before, lambda: f"the failing {fn.__name__} changed files")
                ctx.outcome("rejected")
                continue
            run_step(ctx, fn, [out], **kw)
            if new == "any":
                c = load_circuit(out)
                ctx.check(c.n_qubits == a[1] and len(c.operations) == a[2], lambda: f"random circuit {c}")
                fn(**kw)
                ctx.check(load_circuit(out) == c, "the same seed gave another circuit")
                new = c
            elif new == "params":
                p = load_array(out)
                ctx.check(p.shape == (a[1],) and bool((p >= -1).all() and (p <= 2).all()), lambda: f"parameters {p}")
                fn(**kw)
                ctx.check(same(load_array(out), p), "the same seed gave other parameters")
                new = p.tolist()
            elif new == "ancilla":
                c, old = load_circuit(out), model["circuit.json"]
                ctx.check(c.n_qubits == old.n_qubits + a[1] and list(c.operations[:len(old.operations)]) == list(old.operations), lambda: f"extended circuit {c} of {old}")
                ctx.check(sorted(q for o in c.operations[len(old.operations):] for q in o.qubit_indices) == list(range(old.n_qubits, old.n_qubits + a[1])), lambda: f"ancillas of {c}")
                new = c
            model[out] = new
            for f, m in model.items():
                got = load_array(f).tolist() if "params" in f else load_circuitset(f) if f == "circuit-set.json" else load_circuit(f)
                ctx.check(got == m if "params" not in f else len(got) == len(m) and all(x == y for x, y in zip(got, m)), lambda: f"{f} holds {got}, expected {m}")
            ctx.state(sorted((f, repr(m)) for f, m in model.items()))


# ---------------------------------------------------------------- operators workflows

OPACT = [
    ["zero", 2], ["zero", 3], ["one", 0.5, -1.0, 2.0, 0.25], ["one", 0.0, 0.0, 0.0, 1.0], ["use"], ["interp", 0.25], ["interp", 0.0], ["interp", 1.0], ["interp", 1.5], ["group", False], ["group", True], ["cat", 0], ["cat", 1],
    ["jw"], ["bk"], ["number", 2, None], ["number", 3, 1],
]


def gen_opflow(tier):
    for d in range(1, 4 if tier == "quick" else 5):
        for w in itertools.product(range(len(OPACT)), repeat=d):
            if d == 4 and w[3] not in (5, 9, 10, 11, 12, 13):
                continue
            yield list(w)


def terms_of(op):
    return {t: complex(c) for t, c in op.terms.items() if abs(c) > 1e-13}


def eq_terms(got, want):
    got = terms_of(got) if not isinstance(got, dict) else got
    return set(got) == set(want) and all(close(got[t], want[t]) for t in want)


def lin(*pairs):
    out = {}
    for f, ts in pairs:
        for t, c in ts.items():
            out[t] = out.get(t, 0) + f * c
    return {t: c for t, c in out.items() if abs(c) > 1e-13}


def commute_qubitwise(a, b):
    da = dict(a)
    return all(da.get(q, p) == p for q, p in b)


def step_opflow(ctx, case):
    with Dir(ctx):
        model = {}
        for i, a in enumerate(case):
            k = a
            a = OPACT[a]
            fn, kw, out, new = None, {}, None, None
            if a[0] == "zero":
                fn, kw, out = so.get_local_zero_state_operator, dict(number_of_qubits=a[1]), "qubit-operator.json"
                new = lin((1, {(): 1.0}), *[(-1 / a[1], {((q, "Z"),): 1.0}) for q in range(a[1])])
            elif a[0] == "one":
                fn, kw, out = so.create_one_qubit_operator, dict(x_coeff=a[1], y_coeff=a[2], z_coeff=a[3], constant=a[4]), "qubit_operator.json"
                new = lin((a[1], {((0, "X"),): 1}), (a[2], {((0, "Y"),): 1}), (a[3], {((0, "Z"),): 1}), (a[4], {(): 1}))
            elif a[0] == "use":
                for src in ("transformed-operator.json", "qubit_operator.json"):
                    if src in model:
                        shutil.copyfile(src, "qubit-operator.json")
                        model["qubit-operator.json"] = model[src]
                        break
                continue
            elif a[0] == "interp":
                fn, kw, out = so.interpolate_qubit_operators, dict(reference_qubit_operator="qubit-operator.json", target_qubit_operator="qubit_operator.json", epsilon=a[1]), "qubit-operator.json"
                if "qubit-operator.json" in model and "qubit_operator.json" in model and a[1] <= 1:
                    new = lin((a[1], model["qubit_operator.json"]), (1 - a[1], model["qubit-operator.json"]))
                    if i % 2:
                        kw["reference_qubit_operator"] = load_qubit_operator("qubit-operator.json")
                        kw["target_qubit_operator"] = load_qubit_operator("qubit_operator.json")
            elif a[0] == "group":
                fn, kw, out = so.group_comeasureable_terms_greedy, dict(qubit_operator="qubit-operator.json", sort_terms=a[1]), "grouped-operator.json"
                if "qubit-operator.json" in model:
                    new = "group"
            elif a[0] == "cat":
                fn, out = so.concatenate_qubit_operator_lists, "concatenated-qubit-operators.json"
                A, B = "grouped-operator.json", ["grouped-operator.json", "concatenated-qubit-operators.json"][a[1]]
                kw = dict(qubit_operator_list_A=A, qubit_operator_list_B=B)
                if A in model and B in model:
                    new = model[A] + model[B]
                    if i % 2:
                        kw = dict(qubit_operator_list_A=load_qubit_operator_set(A), qubit_operator_list_B=B)
            elif a[0] in ("jw", "bk"):
                fn, kw, out = st.transform_interaction_operator, dict(transformation={"jw": "Jordan-Wigner", "bk": "Bravyi-Kitaev"}[a[0]], input_operator="number-operator.json"), "transformed-operator.json"
                if "number-operator.json" in model:
                    n, p = model["number-operator.json"]
                    sets = [[q] for q in range(n)] if a[0] == "jw" else {2: [[0], [0, 1]], 3: [[0], [0, 1], [2]]}[n]
                    new = lin((n / 2 - (p or 0), {(): 1.0}), *[(-0.5, {tuple((q, "Z") for q in s): 1.0}) for s in sets])
                    if i % 2:
                        kw["input_operator"] = load_interaction_operator("number-operator.json")
            elif a[0] == "number":
                fn, kw, out, new = so.get_fermion_number_operator, dict(number_of_qubits=a[1], number_of_particles=a[2]), "number-operator.json", (a[1], a[2])
            if new is None:
                before = snapshot()
                ctx.raises(lambda: fn(**kw), f"{fn.__name__} with {kw} and files {sorted(model)}")
                ctx.check(snapshot() == before, lambda: f"the failing {fn.__name__} changed files")
                ctx.step()
                ctx.outcome("rejected")
                continue
            extra = ["timing.json"] if a[0] in ("jw", "bk") else []
            run_step(ctx, fn, [out] + extra, **kw)
            if new == "group":
                groups = [terms_of(g) for g in load_qubit_operator_set(out)]
                flat = [t for g in groups for t in g]
                src = model["qubit-operator.json"]
                ctx.check(sorted(flat, key=repr) == sorted(src, key=repr) and all(close(g[t], src[t]) for g in groups for t in g), lambda: f"{src} grouped as {groups}")
                ctx.check(all(commute_qubitwise(x, y) for g in groups for x in g for y in g), lambda: f"groups {groups} are not comeasurable")
                new = groups
            model[out] = new
            if extra:
                ctx.check(json.load(open("timing.json"))["walltime"] >= 0, "timing")
            for f, m in model.items():
                if f == "number-operator.json":
                    op = load_interaction_operator(f)
                    n, p = m
                    want = [float(bin(x).count("1")) - (p or 0) for x in range(1 << n)]
                    got = opmat.terms(get_fermion_operator(op).terms.items(), n, "fermion")
                    ctx.check(opmat.dist(got, opmat.from_dense([[want[r] if r == c else 0 for c in range(1 << n)] for r in range(1 << n)])) < 1e-9, lambda: f"number operator {op}")
                elif "groups" in f or "grouped" in f or "concatenated" in f:
                    got = load_qubit_operator_set(f)
                    ctx.check(len(got) == len(m) and all(eq_terms(x, y) for x, y in zip(got, m)), lambda: f"{f} holds {got}, expected {m}")
                else:
                    got = load_qubit_operator(f)
                    ctx.check(eq_terms(got, m), lambda: f"{f} holds {terms_of(got)}, expected {m}")
            ctx.state(sorted((f, repr(m)) for f, m in model.items()))

# ---------------------------------------------------------------- circuits: argument forms

def forms(obj, saver, fname):
    """the object itself, and the name of a file that holds it"""
    return [lambda: obj, lambda: (saver(obj, fname), fname)[1]]


def spec(i, d):
    return json.dumps(d) if i else copy.deepcopy(d)


def gen_args(tier):
    for layers in range(0, 4):
        for fixed in (0, 1):
            for i in range(2):
                yield ["ansatz", layers, fixed, i]
    for x in range(1, 5 if tier == "quick" else 7):
        for y in (None, 1, 2, 3):
            for t in ("nearest-neighbor", "sycamore", "other"):
                yield ["layers", x, y, t]
    for n in range(1, 4):
        for k in range(0, 3):
            for i in range(2):
                yield ["ancilla", n, k, i]
    for a in itertools.product(range(3), repeat=3):
        yield ["lists", list(a)]
    for n in (0, 1, 4):
        for i in range(2):
            for rng in (None, [0.5, 0.5], [-2.0, 7.5]):
                yield ["params", n, i, rng]
    for k in range(0, 4):
        for i in range(4):
            yield ["evaluate", k, i]


POOL = [Circuit([X(0), CNOT(0, 2)]), Circuit([RX(T[0])(1)], n_qubits=3), Circuit([], n_qubits=2), Circuit([H(0), RY(0.25)(1)])]


def step_args(ctx, case):
    with Dir(ctx):
        ctx.state(case)
        if case[0] == "ansatz":
            _, layers, fixed, i = case
            d = {"module_name": MOD, "function_name": "FixedAnsatz" if fixed else "StubAnsatz", "number_of_layers": layers, "n_qubits": 3}
            vals = [0.5 - k for k in range(layers)]
            want = Circuit([RX(v)(k % 3) for k, v in enumerate(vals)], n_qubits=3) if fixed else ansatz_circuit(layers, 3).bind(dict(zip(T, vals)))
            for params in (vals, lambda: (save_array(np.array(vals), "p.json"), "p.json")[1]):
                run_step(ctx, sc.build_ansatz_circuit, ["circuit.json"], ansatz_specs=spec(i, d), params=params() if callable(params) else params)
                ctx.check(load_circuit("circuit.json") == want, lambda: f"{case}: {load_circuit('circuit.json')}, expected {want}")
            os.remove("circuit.json")
            if fixed:
                ctx.raises(lambda: sc.build_ansatz_circuit(spec(i, d)), "parametrized circuit of an ansatz that has none")
                ctx.check(not os.path.exists("circuit.json"), "a failing step wrote its file")
            else:
                run_step(ctx, sc.build_ansatz_circuit, ["circuit.json"], ansatz_specs=spec(i, d))
                ctx.check(load_circuit("circuit.json") == ansatz_circuit(layers, 3), "parametrized circuit")
                ctx.raises(lambda: sc.build_ansatz_circuit(spec(i, d), vals + [1.0]), "too many parameters")
            run_step(ctx, sc.generate_random_ansatz_params, ["params.json"], ansatz_specs=spec(i, d))
            p = load_array("params.json")
            ctx.check(p.shape == (layers,) and bool((abs(p) <= math.pi / 2).all()), lambda: f"parameters {p}")
        elif case[0] == "params":
            _, n, seed, rng = case
            kw = {} if rng is None else dict(min_value=rng[0], max_value=rng[1])
            lo, hi = rng or (-math.pi / 2, math.pi / 2)
            got = []
            for _ in range(2):
                run_step(ctx, sc.generate_random_ansatz_params, ["params.json"], number_of_parameters=n, seed=seed, **kw)
                got.append(load_array("params.json"))
                np.random.seed(99)
            ctx.check(got[0].shape == (n,) and same(got[0], got[1]) and bool(((got[0] >= lo) & (got[0] <= hi)).all()), lambda: f"{case}: {got}")
            ctx.raises(lambda: sc.generate_random_ansatz_params(), "neither specs nor number")
            ctx.raises(lambda: sc.generate_random_ansatz_params(ansatz_specs={"module_name": MOD, "function_name": "StubAnsatz", "number_of_layers": 1}, number_of_parameters=1), "both specs and number")
        elif case[0] == "layers":
            _, x, y, t = case
            try:
                conn, lays = layouts.build_circuit_layers_and_connectivity(x, y, t)
            except Exception:
                ctx.raises(lambda: sc.build_circuit_layers_and_connectivity(x, y, t), f"{case}")
                ctx.check(os.listdir(".") == [], "a failing step wrote files")
                ctx.outcome("rejected")
                return
            run_step(ctx, sc.build_circuit_layers_and_connectivity, ["circuit-layers.json", "circuit-connectivity.json"], x_dimension=x, y_dimension=y, layer_type=t)
            ctx.check(load_circuit_layers("circuit-layers.json").layers == [[tuple(p) for p in l] for l in lays.layers], "layers")
            ctx.check(load_circuit_connectivity("circuit-connectivity.json").connectivity == [tuple(p) for p in conn.connectivity], "connectivity")
        elif case[0] == "ancilla":
            _, n, k, i = case
            c = Circuit([H(q) for q in range(n)])
            run_step(ctx, sc.add_ancilla_register_to_circuit, ["extended-circuit.json"] + (["c.json"] if False else []), number_of_ancilla_qubits=k, circuit=forms(c, save_circuit, "c.json")[i]())
            e = load_circuit("extended-circuit.json")
            ctx.check(e.n_qubits == n + k and list(e.operations[:n]) == list(c.operations) and len(e.operations) == n + k, lambda: f"{e}")
            ctx.check(num_eq(e.to_unitary(), Circuit(c.operations, n_qubits=n + k).to_unitary()), "ancillas are acted on")
        elif case[0] == "lists":
            cs = [POOL[i] for i in case[1]]
            for i in range(3):
                if i == 1:
                    save_circuitset(cs, "s.json")
                run_step(ctx, sc.concatenate_circuits, ["result-circuit.json"], circuit_set="s.json" if i == 1 else cs[:i * 2])
                want = Circuit([o for c in (cs if i == 1 else cs[:i * 2]) for o in c.operations], n_qubits=max([c.n_qubits for c in (cs if i == 1 else cs[:i * 2])] or [0]))
                ctx.check(load_circuit("result-circuit.json") == want, lambda: f"concatenation of {cs}")
            for mode in itertools.product(range(2), repeat=2):
                for given in (None, [], [POOL[3]], [POOL[3], POOL[2]]):
                    args = []
                    for k, c in enumerate(cs):
                        if mode[0] ^ (k % 2):
                            save_circuit(c, f"c{k}.json")
                            args.append(f"c{k}.json")
                        else:
                            args.append(c)
                    g = given
                    if given is not None and mode[1]:
                        save_circuitset(given, "g.json")
                        g = "g.json"
                    run_step(ctx, sc.batch_circuits, ["circuit-set.json"], circuits=args, circuit_set=g)
                    ctx.check(load_circuitset("circuit-set.json") == (given or []) + cs, lambda: f"batch of {cs} after {given}")
        elif case[0] == "evaluate":
            _, k, i = case
            c = Circuit([g(q) for q, g in enumerate([RX(T[1]), RY(T[0] * 2), RZ(T[2] - T[1])][:k])], n_qubits=3)
            vals = np.array([0.25, -1.5, 3.0][:len(c.free_symbols)])
            want = c.bind(dict(zip(c.free_symbols, vals.tolist())))
            run_step(ctx, sc.evaluate_parametrized_circuit, ["evaluated-circuit.json"], parametrized_circuit=forms(c, save_circuit, "c.json")[i & 1](), parameters=forms(vals, save_array, "p.json")[i >> 1]())
            got = load_circuit("evaluated-circuit.json")
            ctx.check(got == want and got.free_symbols == [], lambda: f"{got}, expected {want}")
            ctx.raises(lambda: sc.evaluate_parametrized_circuit(c, np.append(vals, 1.0)), "too many values")


def num_eq(a, b):
    return np.allclose(np.array(a.tolist() if hasattr(a, "tolist") else a, dtype=complex), np.array(b.tolist() if hasattr(b, "tolist") else b, dtype=complex), atol=1e-9)


# ---------------------------------------------------------------- measuring

MCIRCS = [Circuit([X(0)]), Circuit([H(0), CNOT(0, 1), X(1)], n_qubits=3), Circuit([RX(0.7)(1), RY(-0.3)(0)])]


def gen_measure(tier):
    for c in range(len(MCIRCS)):
        for n in (1, 3, 8):
            for i in range(2):  # specs as text
                for nm in range(2):
                    for cn in range(2):
                        for track in range(4):
                            for name in ("StubBackend", "SymbolicSimulator"):
                                if name == "SymbolicSimulator" and nm != cn:
                                    continue
                                yield [c, n, i, nm, cn, track, name]


def backend_spec(case, ctx):
    c, n, i, nm, cn, track, name = case
    d = {"module_name": MOD if name != "SymbolicSimulator" else "zquantum.core.symbolic_simulator", "function_name": name}
    d.update({"label": f"l{c}"} if name == "StubBackend" else {"seed": 11})
    if track:
        d["track_measurements"] = True
    if track >= 2:
        d["raw_data_file_name"] = "tracked.json"
    if track == 3:
        d["record_bitstrings"] = True
    kw = {}
    if nm:
        save_noise_model({"t1": 5}, MOD, "noise", "nm.json")
        kw["noise_model"] = "nm.json"
    if cn:
        save_circuit_connectivity(CircuitConnectivity([(0, 1), (1, 2)]), "conn.json")
        kw["device_connectivity"] = "conn.json"
    return spec(i, d), kw, [] if not track else ["raw_data.json" if track == 1 else "tracked.json"]


def check_log(ctx, case, runs):
    if case[6] == "StubBackend":
        want = [("backend", f"l{case[0]}", {"noise": {"t1": 5}} if case[3] else None, [(0, 1), (1, 2)] if case[4] else None)] + runs
        ctx.check(zqobj.LOG == want, lambda: f"{case}: the backend saw {zqobj.LOG}, expected {want}")
    zqobj.LOG.clear()


def shots(case, circ, n):
    if case[6] == "StubBackend":
        return zqobj.pattern(circ, n)
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    return SymbolicSimulator(seed=11).run_circuit_and_measure(circ, n).bitstrings


def check_tracked(ctx, case, files, pairs):
    if files:
        with open(files[0]) as f:
            data = json.load(f)
        raw = data["raw-data"] if "raw-data" in data else data.get("raw_data")
        ctx.check(raw is not None and len(raw) == len(pairs), lambda: f"{case}: tracked {data}")
        for e, (c, n) in zip(raw, pairs):
            ctx.check(e["circuit"] == to_dict(c) and e["number_of_shots"] == n and e["device"] == case[6] and ("bitstrings" in e) == (case[5] == 3), lambda: f"{case}: tracked {e}")


def step_measure(ctx, case):
    c, n, i, nm, cn, track, name = case
    circ = MCIRCS[c]
    ctx.state(case)
    with Dir(ctx):
        specs, kw, files = backend_spec(case, ctx)
        save_circuit(circ, "c.json")
        for form in range(2):
            run_step(ctx, sm.run_circuit_and_measure, ["measurements.json"] + files, backend_specs=specs, circuit=to_dict(circ) if form else "c.json", n_samples=n, **kw)
            got = Measurements.load_from_file("measurements.json").bitstrings
            ctx.check(got == shots(case, circ, n), lambda: f"{case}: {got}")
            check_log(ctx, case, [("run", len(circ.operations), circ.n_qubits, n)])
            check_tracked(ctx, case, files, [(circ, n)])
        others = [circ, MCIRCS[(c + 1) % 3], circ]
        save_circuitset(others, "set.json")
        run_step(ctx, sm.run_circuitset_and_measure, ["measurements-set.json"] + files, backend_specs=specs, circuitset="set.json", n_samples=n, **kw)
        got = [[tuple(b) for b in m] for m in load_list("measurements-set.json")]
        ctx.check(got == [shots(case, o, n) for o in others], lambda: f"{case}: {got}")
        check_log(ctx, case, [("run", len(o.operations), o.n_qubits, n) for o in others])
        check_tracked(ctx, case, files, [(o, n) for o in others])
        run_step(ctx, sm.get_bitstring_distribution, ["bitstring-distribution.json"] + files, backend_specs=specs, circuit="c.json", n_samples=n, **kw)
        got = dict(load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict)
        want = {}
        for b in shots(case, circ, n):
            want[b] = want.get(b, 0) + 1 / n
        ctx.check(set(got) == set(want) and all(close(got[b], want[b]) for b in want), lambda: f"{case}: {got}, expected {want}")
        zqobj.LOG.clear()
        if name == "SymbolicSimulator" and not track:
            run_step(ctx, sm.get_bitstring_distribution, ["bitstring-distribution.json"], backend_specs=specs, circuit="c.json", **kw)
            got = dict(load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict)
            st = state_of(circ)
            ctx.check(all(close(got.get(b, 0), abs(st[k]) ** 2) or abs(got.get(b, 0) - abs(st[k]) ** 2) < 1e-9 for k in range(1 << circ.n_qubits) for b in [tuple(ref.bits(k, circ.n_qubits))]), lambda: f"{case}: {got}")
        # the noise model and the connectivity of one call do not stay for the next
        if kw:
            sm.run_circuit_and_measure(specs, "c.json", n)
            zq = zqobj.LOG[:]
            if name == "StubBackend":
                ctx.check(zq[0] == ("backend", f"l{c}", None, None), lambda: f"{case}: the next backend got {zq[0]}")
            zqobj.LOG.clear()
        # a failing step leaves no result
        os.remove("measurements.json")
        ctx.raises(lambda: sm.run_circuit_and_measure(specs, "c.json", 0, **kw), "no shots")
        ctx.raises(lambda: sm.run_circuit_and_measure(specs, "missing.json", 2, **kw), "missing circuit")
        ctx.check(not os.path.exists("measurements.json"), "a failing step wrote its file")


def state_of(circ):
    seq = [(np.array(o.gate.matrix.tolist(), dtype=complex).tolist(), o.qubit_indices) for o in circ.operations]
    return ref.run(seq, circ.n_qubits)


# ---------------------------------------------------------------- evaluation

EOPS = [[(((0, "Z"),), 1.5)], [(((0, "Z"), (1, "Z")), -0.5), ((), 2.0), (((1, "Z"),), 0.25)], [((), 3.0)], [(((1, "Z"),), 1.0), (((0, "Z"),), -2.0)]]


def mk(i, cls=QubitOperator):
    op = cls()
    for t, c in EOPS[i]:
        op += cls(t, c)
    return op


def parity(t, bits):
    return -1 if sum(bits[q] for q, _ in t) % 2 else 1


def gen_eval(tier):
    for c in (1, 2):
        for o in range(len(EOPS)):
            for n in (None, 3, 8):
                for track in (0, 1) if n else (0,):
                    yield ["terms", c, o, n, track]
            for n in (2, 5, 8):
                for bessel in (True, False):
                    yield ["sum", c, o, n, bessel]
    for o in range(len(EOPS)):
        for p in range(len(EOPS)):
            yield ["list", o, p]
    for k in range(3):
        for n in range(0, 4):
            yield ["ground", k, n]


GOPS = [[(((0, "X"), (1, "X")), 0.5), (((0, "Y"), (1, "Y")), 0.5), (((0, "Z"),), 0.75), (((2, "Z"),), -0.5), ((), 0.3)],
        [(((0, "Z"),), 1.0), (((1, "Z"),), 0.7), (((2, "Z"),), -0.4), (((0, "Z"), (2, "Z")), 0.2)],
        [(((0, "X"), (1, "Z"), (2, "X")), 0.35), (((0, "Y"), (1, "Z"), (2, "Y")), 0.35), (((1, "Z"),), 0.9), (((0, "Z"),), 0.25)]]


def step_eval(ctx, case):
    ctx.state(case)
    with Dir(ctx):
        if case[0] == "terms":
            _, c, o, n, track = case
            circ, op = MCIRCS[c], mk(o, IsingOperator)
            d = {"module_name": MOD, "function_name": "SizedBackend", "n_samples": 6}
            files = []
            if track:
                d.update(track_measurements=True, raw_data_file_name="t.json")
                if any(t for t, _ in EOPS[o]):
                    files = ["t.json"]
            kw = {} if n is None else {"n_samples": n}
            for i, (cf, of) in enumerate(itertools.product(range(3), repeat=2)):
                ca = [lambda: circ, lambda: (save_circuit(circ, "c.json"), "c.json")[1], lambda: to_dict(circ)][cf]()
                q = mk(o)
                oa = [lambda: op, lambda: q if len(EOPS[o]) == 1 and not EOPS[o][0][0] else op, lambda: op][of]()
                run_step(ctx, se.get_expectation_values_for_qubit_operator, ["expectation-values.json"] + files, backend_specs=spec(i % 2, d), circuit=ca, qubit_operator=oa, **kw)
                got = load_expectation_values("expectation-values.json").values
                bits = zqobj.pattern(circ, n or 6)
                want = [cf_ * sum(parity(t, b) for b in bits) / len(bits) if t else cf_ for t, cf_ in EOPS[o]]
                ctx.check(len(got) == len(want) and all(close(x, y) for x, y in zip(got, want)), lambda: f"{case}: {got}, expected {want}")
                zqobj.LOG.clear()
        elif case[0] == "sum":
            _, c, o, n, bessel = case
            bits = zqobj.pattern(MCIRCS[c], n)
            Measurements(bits).save("m.json")
            save_qubit_operator(mk(o), "o.json")
            want = sum(cf_ * sum(parity(t, b) for b in bits) / n for t, cf_ in EOPS[o])
            T_ = [(t, cf_) for t, cf_ in EOPS[o]]
            var = 0.0
            for t, a in T_:
                for u, b_ in T_:
                    et, eu = sum(parity(t, b) for b in bits) / n, sum(parity(u, b) for b in bits) / n
                    etu = sum(parity(t, b) * parity(u, b) for b in bits) / n
                    var += a * b_ * (etu - et * eu) / (n - 1 if bessel else n)
            for i in range(3):
                run_step(ctx, sm.get_summed_expectation_values, ["value-estimate.json"], operator="o.json" if i else mk(o, IsingOperator), measurements="m.json" if i == 1 else Measurements(bits), use_bessel_correction=bessel)
                got = load_value_estimate("value-estimate.json")
                ctx.check(close(got.value, want) and got.precision is not None and abs(got.precision - math.sqrt(max(var, 0))) < 1e-7, lambda: f"{case}: {got.value} ± {got.precision}, expected {want} ± {math.sqrt(max(var, 0))}")
        elif case[0] == "list":
            _, o, p = case
            ops = [mk(o), mk(p)]
            vals = ExpectationValues(np.array([0.5 - 0.3 * k for k in range(len(EOPS[o]) + len(EOPS[p]))]))
            coefs = [c for _, c in EOPS[o] + EOPS[p]]
            for i in range(4):
                run_step(ctx, se.evaluate_qubit_operator_list, ["value-estimate.json"], qubit_operator_list=forms(ops, save_qubit_operator_set, "ops.json")[i & 1](), expectation_values=forms(vals, save_expectation_values, "v.json")[i >> 1]())
                got = load_value_estimate("value-estimate.json")
                want = sum(c * v for c, v in zip(coefs, vals.values))
                ctx.check(close(got.value, want), lambda: f"{case}: {got.value}, expected {want}")
        elif case[0] == "ground":
            _, k, n = case
            op = QubitOperator()
            for t, c in GOPS[k]:
                op += QubitOperator(t, c)
            m = np.array(ref.op_matrix(GOPS[k], 3, "q"))
            idx = [x for x in range(8) if bin(x).count("1") == n]
            w, v = np.linalg.eigh(m[np.ix_(idx, idx)])
            for i in range(2):
                run_step(ctx, se.jw_get_ground_state_at_particle_number, ["ground-state.json", "value-estimate.json"], particle_number=n, qubit_operator=forms(op, save_qubit_operator, "o.json")[i]())
                got, st_ = load_value_estimate("value-estimate.json"), load_wavefunction("ground-state.json")
                a = np.array([complex(x) for x in st_.amplitudes])
                ctx.check(abs(got.value - w[0]) < 1e-7, lambda: f"{case}: energy {got.value}, expected {w[0]}")
                ctx.check(abs(np.vdot(a, m @ a).real - w[0]) < 1e-7 and all(abs(a[x]) < 1e-7 for x in range(8) if x not in idx), lambda: f"{case}: state {a}")
                run_step(ctx, se.get_ground_state_rdm_from_qubit_operator, ["rdms.json"], qubit_operator=forms(op, save_qubit_operator, "o.json")[i](), n_particles=n)
                rdm = load_interaction_rdm("rdms.json")
                tr = sum(rdm.one_body_tensor[p, p] for p in range(3)).real
                ctx.check(abs(tr - n) < 1e-7, lambda: f"{case}: trace {tr}")


# ---------------------------------------------------------------- cost functions and optimization

COPS = [[(((0, "Z"),), 1.0)], [(((0, "Z"), (1, "Z")), -0.5), ((), 2.0)], [((), 1.5)]]


def mk_c(i, cls):
    op = cls()
    for t, c in COPS[i]:
        op += cls(t, c)
    return op


def gen_opt(tier):
    for layers in (1, 2):
        for o in range(len(COPS)):
            for meth in range(3):
                for pre in range(3):
                    for form in range(2):
                        for ans in ("StubAnsatz", "QAOAStubAnsatz", "WarmStartQAOAAnsatz", "circuit"):
                            for extra in range(4 if tier == "quick" else 6):
                                yield [layers, o, meth, pre, form, ans, extra]


EST = "zquantum.core.estimation"
METHODS = [None, {"module_name": EST, "function_name": "calculate_exact_expectation_values"}, {"module_name": MOD, "function_name": "averaging", "factor": 3}]


def pres(k, form):
    alloc = {"module_name": EST, "function_name": "allocate_shots_uniformly", "number_of_shots": 5}
    out = [[alloc], [{"module_name": EST, "function_name": "group_individually"}, alloc], [{"module_name": MOD, "function_name": "prior_taker", "bonus": 2}, {"module_name": MOD, "function_name": "allocate"}]][k]
    return [spec(form, d) for d in out]


def cost_at(layers, o, meth, pre, params, circ=None):
    """expected value: exact, or from the stub's shots (which only depend on the size of the circuit)"""
    c = circ(params)
    if meth == 1:
        seq = [(np.array(x.gate.matrix.tolist(), dtype=complex).tolist(), x.qubit_indices) for x in c.operations]
        return ref.expect(ref.op_matrix(COPS[o], 2, "q"), ref.run(seq, 2)).real
    n = 4 if pre == 2 else 5
    bits = zqobj.pattern(c, n)
    return sum(cf * sum(parity(t, b) for b in bits) / n if t else cf for t, cf in COPS[o])


def step_opt(ctx, case):
    layers, o, meth, pre, form, ans, extra = case
    ctx.state(case)
    with Dir(ctx):
        circ = lambda p: ansatz_circuit(layers).bind(dict(zip(T, [float(x) for x in p])))
        optimizer = spec(form, {"module_name": MOD, "function_name": "StubOptimizer", "step": 0.75})
        sim = {"module_name": "zquantum.core.symbolic_simulator", "function_name": "SymbolicSimulator"}
        bspec = sim if meth == 1 else {"module_name": MOD, "function_name": "StubBackend"}
        files = []
        if extra == 3 and meth != 1:
            bspec = dict(bspec, track_measurements=True)
            if any(t for t, _ in COPS[o]):
                files = ["raw_data.json"]
        op = mk_c(o, QubitOperator if meth == 1 else IsingOperator)
        if meth == 1 or all(not t for t, _ in COPS[o]) or form:
            pass
        opforms = [lambda: op]
        if meth == 1:
            opforms.append(lambda: (save_qubit_operator(mk_c(o, QubitOperator), "op.json"), "op.json")[1])
        init = [0.3 * (k + 1) for k in range(layers)]
        fixed = None
        if extra == 1 and layers == 2:
            fixed, init = [0.9], init[:1]
        keep = extra == 2
        mets = METHODS[meth]
        kw = dict(optimizer_specs=optimizer, backend_specs=spec(form, bspec), estimation_preprocessors_specs=pres(pre, form), keep_history=keep)
        if mets is not None:
            kw["estimation_method_specs"] = spec(form, mets)
        if fixed is not None:
            kw["fixed_parameters"] = [lambda: np.array(fixed), lambda: (save_array(np.array(fixed), "f.json"), "f.json")[1]][form]()
        kw["initial_parameters"] = [lambda: np.array(init), lambda: (save_array(np.array(init), "i.json"), "i.json")[1]][form]()
        kw["target_operator"] = opforms[form % len(opforms)]()
        if ans == "circuit":
            fn = sopt.optimize_parametrized_circuit_for_ground_state_of_operator
            c = ansatz_circuit(layers)
            kw["parametrized_circuit"] = [lambda: c, lambda: (save_circuit(c, "c.json"), "c.json")[1]][form]()
        else:
            fn = sopt.optimize_ansatz_based_cost_function
            kw["ansatz_specs"] = spec(form, {"module_name": MOD, "function_name": ans, "number_of_layers": layers})
            if "Warm" in ans:
                save_list([0.1, 0.2], "thetas.json")
                kw["thetas"] = "thetas.json"
        if extra >= 4:
            kw["parameter_precision"], kw["parameter_precision_seed"] = 0.0 if extra == 4 else 1e-12, 7
        zqobj.LOG.clear()
        run_step(ctx, fn, ["optimization-results.json", "optimized-parameters.json"] + files, **kw)
        log = list(zqobj.LOG)
        full = lambda p: list(p) if fixed is None else fixed + list(p)  # fixed parameters come first
        pts = [np.array(init)]
        for k in range(len(init)):
            p = pts[0].copy()
            p[k] += 0.75 * (k + 1)
            pts.append(p)
        done = [e for e in log if e[0] == "minimized"]
        ctx.check(len(done) == 1 and done[0][1] == [p.tolist() for p in pts] and done[0][3] == keep, lambda: f"{case}: the optimizer was run as {done}")
        vals = [cost_at(layers, o, meth, pre, full(p), circ) for p in pts]
        ctx.check(all(abs(x - y) < 1e-7 for x, y in zip(done[0][2], vals)), lambda: f"{case}: costs {done[0][2]}, expected {vals}")
        best = min(range(len(vals)), key=lambda k: done[0][2][k])
        res = load_optimization_results("optimization-results.json")
        ctx.check(abs(res["opt_value"] - vals[best]) < 1e-7 and res["opt_params"].tolist() == pts[best].tolist() and load_array("optimized-parameters.json").tolist() == pts[best].tolist(), lambda: f"{case}: {res}")
        ctx.check(len(res["history"]) == (len(pts) if keep else 0), lambda: f"{case}: history {res['history']}")
        for h, p in zip(res["history"], pts):
            ctx.check(same(h.params, p), lambda: f"{case}: history {h}")
        made = [e for e in log if e[0] == "ansatz"]
        if ans != "circuit":
            want = ("ansatz", layers, 2, None if ans == "StubAnsatz" else op, [0.1, 0.2] if "Warm" in ans else None)
            ctx.check(len(made) == 1 and made[0][:3] == want[:3] and made[0][4] == want[4] and (made[0][3] is None) == (want[3] is None) and (want[3] is None or made[0][3].terms == op.terms), lambda: f"{case}: ansatz made as {made}")
        est = [e for e in log if e[0] == "estimate"]
        ctx.check(len(est) == (len(pts) if meth == 2 else 0) and all(e[2] == 3 for e in est), lambda: f"{case}: {est}")
        pr = [e for e in log if e[0] == "prior"]
        ctx.check(set(pr) == ({("prior", None, 2)} if pre == 2 else set()), lambda: f"{case}: {pr}")
        if files:
            data = json.load(open("raw_data.json"))
            ctx.check(len(data["raw-data"]) == len([e for e in log if e[0] == "run"]), lambda: f"{case}: {len(data['raw-data'])} tracked")


def gen_cost(tier):
    for layers in (0, 1, 2):
        for o in range(len(COPS)):
            for meth in range(3):
                for pre in range(4):
                    for form in range(2):
                        for prior in range(3):
                            for ans in ("StubAnsatz", "QAOAFarhiAnsatz"):
                                yield [layers, o, meth, pre, form, prior, ans]


def step_cost(ctx, case):
    layers, o, meth, pre, form, prior, ans = case
    ctx.state(case)
    with Dir(ctx):
        circ = lambda p: ansatz_circuit(layers).bind(dict(zip(T, [float(x) for x in p])))
        params = np.array([0.4 * (k + 1) for k in range(layers)])
        save_array(params, "p.json")
        op = mk_c(o, QubitOperator if meth == 1 else IsingOperator)
        bspec = {"module_name": "zquantum.core.symbolic_simulator", "function_name": "SymbolicSimulator"} if meth == 1 else {"module_name": MOD, "function_name": "StubBackend"}
        cspec = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
        kw = dict(ansatz_specs=spec(form, {"module_name": MOD, "function_name": ans, "number_of_layers": layers}), backend_specs=spec(form, bspec), cost_function_specs=spec(form, cspec), ansatz_parameters="p.json",
                  target_operator=op)
        if meth == 1 and form:
            save_qubit_operator(op, "op.json")
            kw["target_operator"] = "op.json"
        if METHODS[meth] is not None:
            kw["estimation_method_specs"] = spec(form, METHODS[meth])
        if pre < 3:
            kw["estimation_preprocessors_specs"] = pres(pre, form)
        pv = ExpectationValues(np.array([0.5, 0.25]))
        if prior:
            kw["prior_expectation_values"] = pv if prior == 1 else (save_expectation_values(pv, "pv.json"), "pv.json")[1]
        if form:
            save_noise_model({"t1": 5}, MOD, "noise", "nm.json")
            save_circuit_connectivity(CircuitConnectivity([(0, 1)]), "conn.json")
            kw.update(noise_model="nm.json", device_connectivity="conn.json")
        fn = sm.evaluate_ansatz_based_cost_function
        bound = circ(params)
        if pre == 3 and meth != 1 and any(t for t, _ in COPS[o]):  # nobody allocates shots
            ctx.raises(lambda: fn(**kw), f"{case}: no shots were allocated")
            ctx.check(not os.path.exists("value_estimate.json"), "a failing step wrote its file")
            return
        # no free parameter at all: the same circuit
        for rep in range(2):
            zqobj.LOG.clear()
            run_step(ctx, fn, ["value_estimate.json"], **kw)
            got = load_value_estimate("value_estimate.json")
            want = cost_at(layers, o, meth, pre, params, circ)
            ctx.check(abs(got.value - want) < 1e-7, lambda: f"{case}: {got.value}, expected {want}")
            pr = [e for e in zqobj.LOG if e[0] == "prior"]
            ctx.check(pr == ([("prior", [0.5, 0.25] if prior else None, 2)] if pre == 2 else []), lambda: f"{case}: {pr}")
            be = [e for e in zqobj.LOG if e[0] == "backend"]
            ctx.check(be == ([] if meth == 1 else [("backend", "a", {"noise": {"t1": 5}} if form else None, [(0, 1)] if form else None)]), lambda: f"{case}: {be}")
            an = [e for e in zqobj.LOG if e[0] == "ansatz"]
            ctx.check(len(an) == 1 and (an[0][3] is None) == (ans == "StubAnsatz"), lambda: f"{case}: {an}")
        if not form and pre == 0:  # preprocessors of one call do not stay for the next
            kw["estimation_preprocessors_specs"] = [{"module_name": MOD, "function_name": "allocate", "number_of_shots": 7}]
            zqobj.LOG.clear()
            fn(**kw)
            ctx.check([e[3] for e in zqobj.LOG if e[0] == "run"] == ([7] if meth != 1 and any(t for t, _ in COPS[o]) else []), lambda: f"{case}: {zqobj.LOG}")
        bad = dict(kw, cost_function_specs=dict(cspec, **{"estimator-specs": {}}))
        ctx.raises(lambda: fn(**bad), "estimator specs among those of the cost function")



# ---------------------------------------------------------------- operators, one step at a time

def inter(k, n):
    """Hermitian interaction operators on n modes"""
    one = np.zeros((n, n), complex)
    two = np.zeros((n,) * 4, complex)
    for p in range(n):
        one[p, p] = 0.5 * p - 0.3 + 0.1 * k
        if k >= 1 and p + 2 < n:
            one[p, p + 2] = 0.2 + (0.1j if k == 3 else 0)
            one[p + 2, p] = 0.2 - (0.1j if k == 3 else 0)
    if k >= 2:
        for p in range(n):
            for q in range(n):
                if p != q:
                    two[p, q, q, p] = 0.25 * (1 + p + q)
    if k == 4 and n >= 4:
        for a, b, c, d, v in ((0, 1, 3, 2, 0.15), (3, 2, 0, 1, 0.15), (0, 1, 2, 3, -0.05), (3, 2, 1, 0, -0.05)):
            two[a, b, c, d] += v
    return InteractionOperator(0.7 if k % 2 else 0.0, one, two)


def gen_ops(tier):
    for k in range(5):
        for n in range(1, 5):
            for i in range(2):
                yield ["diagonal", k, n, i]
                yield ["transform", k, n, i]
            if n <= 3 or tier == "thorough":
                for perm in itertools.permutations(range(n)):
                    yield ["reorder", k, n, list(perm)]
            if n in (2, 4):
                for core in (None, 0, 1, 2):
                    for act in (None, 0, 1, 2):
                        if (core or 0) * 2 < n and act != 0 and ((core or 0) + (act or 0)) * 2 <= n:
                            yield ["freeze", k, n, core, act]
    for k in range(5):
        for i in range(2):
            yield ["hydrogen", k, i]
    for n in (1, 2, 3):
        for m in range(0, 4):
            yield ["random", n, m]
    for o in itertools.product(range(len(EOPS)), repeat=2):
        for v in range(3):
            yield ["analysis", list(o), v]
    for n in (2, 3):
        for st_ in range(1 << n):
            for srt in (False, True):
                yield ["rdms", n, st_, srt]


def fmat(op, n):
    return opmat.terms([(t, c) for t, c in get_fermion_operator(op).terms.items()], n, "f")


def step_ops(ctx, case):
    ctx.state(case)
    with Dir(ctx):
        if case[0] == "diagonal":
            _, k, n, i = case
            op = inter(k, n)
            run_step(ctx, so.get_diagonal_component, ["diagonal-operator.json", "remainder-operator.json"], interaction_operator=forms(op, save_interaction_operator, "i.json")[i]())
            d, r = load_interaction_operator("diagonal-operator.json"), load_interaction_operator("remainder-operator.json")
            md, mr, m = fmat(d, n), fmat(r, n), fmat(op, n)
            ctx.check(opmat.dist(opmat.add(md, mr), m) < 1e-9, lambda: f"{case}: the parts do not sum to the operator")
            ctx.check(all(a == b for a, b in md) and all(a != b for a, b in mr if abs(mr[a, b]) > 1e-12), lambda: f"{case}: not split into diagonal and off-diagonal part")
        elif case[0] == "transform":
            _, k, n, i = case
            op = inter(k, n)
            m = np.array(ref.op_matrix(list(get_fermion_operator(op).terms.items()), n, "f"))
            for t in ("Jordan-Wigner", "Bravyi-Kitaev"):
                run_step(ctx, st.transform_interaction_operator, ["transformed-operator.json", "timing.json"], transformation=t, input_operator=forms(op, save_interaction_operator, "i.json")[i]())
                q = load_qubit_operator("transformed-operator.json")
                mq = np.array(ref.op_matrix(list(q.terms.items()), n, "q"))
                if t[0] == "J":
                    ctx.check(np.abs(mq - m).max() < 1e-9, lambda: f"{case}: Jordan-Wigner gave {q}")
                else:
                    ctx.check(np.abs(np.linalg.eigvalsh(mq) - np.linalg.eigvalsh(m)).max() < 1e-8, lambda: f"{case}: Bravyi-Kitaev gave {q}")
            ctx.raises(lambda: st.transform_interaction_operator("Parity", op), "unknown transformation")
        elif case[0] == "reorder":
            _, k, n, perm = case
            op = inter(k, n)
            save_interaction_operator(op, "i.json")
            run_step(ctx, so.reorder_fermionic_modes, ["reordered-operator.json"], interaction_operator="i.json", ordering=perm)
            got = load_interaction_operator("reordered-operator.json")
            # mode perm[j] of the input is mode j of the output
            where = {perm[j]: j for j in range(n)}
            want = [(tuple((where[q], a) for q, a in t), c) for t, c in get_fermion_operator(op).terms.items()]
            ctx.check(opmat.dist(fmat(got, n), opmat.terms(want, n, "f")) < 1e-9, lambda: f"{case}: {got}")
        elif case[0] == "freeze":
            _, k, n, core, act = case
            op = inter(k, n)
            save_interaction_operator(op, "i.json")
            run_step(ctx, so.remove_inactive_orbitals, ["frozen-operator.json"], interaction_operator="i.json", n_active=act, n_core=core)
            got = load_interaction_operator("frozen-operator.json")
            c = 2 * (core or 0)
            a = n - c if act is None else 2 * act
            ctx.check(got.one_body_tensor.shape == (a, a), lambda: f"{case}: {got.one_body_tensor.shape}")
            full = np.array(ref.op_matrix(list(get_fermion_operator(op).terms.items()), n, "f"))
            idx = [((((1 << c) - 1) << a) | x) << (n - c - a) for x in range(1 << a)]
            mine = np.array(ref.op_matrix(list(get_fermion_operator(got).terms.items()), a, "f"))
            ctx.check(np.abs(full[np.ix_(idx, idx)] - mine).max() < 1e-9, lambda: f"{case}: {got}")
        elif case[0] == "hydrogen":
            _, k, i = case
            op = inter(k, 4)
            run_step(ctx, so.get_one_qubit_hydrogen_hamiltonian, ["qubit-operator.json"], interaction_operator=forms(op, save_interaction_operator, "i.json")[i]())
            q = load_qubit_operator("qubit-operator.json")
            got = np.array(ref.op_matrix(list(q.terms.items()), 1, "q"))
            full = np.array(ref.op_matrix(list(get_fermion_operator(op).terms.items()), 4, "f"))
            a, b = 0b1100, 0b0011  # modes 0 and 1 occupied, modes 2 and 3 occupied
            vac = np.zeros(16, complex)
            vac[0] = 1
            va = np.array(ref.op_matrix([(((1, 1), (0, 1)), 1.0)], 4, "f")) @ vac
            vb = np.array(ref.op_matrix([(((3, 1), (2, 1)), 1.0)], 4, "f")) @ vac
            want = np.array([[x.conj() @ full @ y for y in (va, vb)] for x in (va, vb)])
            ctx.check(np.abs(got - want).max() < 1e-9, lambda: f"{case}: {got.tolist()}, expected {want.tolist()}")
        elif case[0] == "random":
            _, n, m = case
            run_step(ctx, so.create_random_qubitop, ["qubit-operator.json"], nqubits=n, nterms=m)
            q = load_qubit_operator("qubit-operator.json")
            ctx.check(len(q.terms) <= m and abs(sum(q.terms.values()) - m) < 1e-9 and all(x[0] < n for t in q.terms for x in t), lambda: f"{case}: {q}")
        elif case[0] == "analysis":
            _, os_, v = case
            groups = [mk(o) for o in os_]
            save_qubit_operator_set(groups, "g.json")
            n = [t for o in os_ for t in EOPS[o]]
            vals = [0.5 - 0.4 * j for j in range(len(n))]
            kw = {}
            if v:
                save_expectation_values(ExpectationValues(np.array(vals if v == 1 else [1.0 - 2 * (j % 2) for j in range(len(n))])), "e.json")
                kw["expectation_values"] = "e.json"
                if v == 2:
                    vals = [1.0 - 2 * (j % 2) for j in range(len(n))]
            from zquantum.core.hamiltonian import estimate_nmeas_for_frames
            try:
                want = estimate_nmeas_for_frames(groups, ExpectationValues(np.array(vals)) if v else None)
            except Exception:
                ctx.raises(lambda: sm.grouped_hamiltonian_analysis("g.json", **kw), f"{case}")
                ctx.outcome("rejected")
                return
            run_step(ctx, sm.grouped_hamiltonian_analysis, ["hamiltonian_analysis.json"], groups="g.json", **kw)
            got = load_nmeas_estimate("hamiltonian_analysis.json")
            ctx.check(close(got[0], want[0]) and got[1] == want[1] and np.allclose(got[2], want[2]), lambda: f"{case}: {got}, expected {want}")
            if v != 1 or all(t for t, _ in n):
                pos, var = 0, []
                for o in os_:
                    x = 0.0
                    for t, c in EOPS[o]:
                        if t:
                            x += c * c * (1 - (vals[pos] ** 2 if v else 0))
                        pos += 1
                    var.append(x)
                ctx.check(close(got[0], sum(math.sqrt(max(x, 0)) for x in var) ** 2), lambda: f"{case}: {got[0]}, variances {var}")
        elif case[0] == "rdms":
            _, n, occ, srt = case
            b = ref.bits(occ, n)
            one = np.diag([float(x) for x in b]).astype(complex)
            two = np.zeros((n,) * 4, complex)
            for p in range(n):
                for q in range(n):
                    if p != q and b[p] and b[q]:
                        two[p, q, q, p] = 1.0
                        two[p, q, p, q] = -1.0
            save_interaction_rdm(InteractionRDM(one, two), "r.json")
            terms = [(((1, "Z"),), 0.25), ((), -3.0), (((0, "Z"), (1, "Z")), 2.0), (((0, "X"), (1, "Y")), 0.5), (((n - 1, "Z"),) if n > 2 else ((0, "Z"),), -1.0)]
            op = QubitOperator()
            for t, c in terms:
                op += QubitOperator(t, c)
            save_qubit_operator(op, "o.json")
            save_qubit_operator_set([op, QubitOperator("Z1", 0.5), op], "os.json")
            val = lambda t: 0.0 if any(p != "Z" for _, p in t) else float(np.prod([1 - 2 * b[q] for q, _ in t])) if t else 1.0
            order = sorted(terms, key=lambda x: abs(x[1]), reverse=True) if srt else terms
            run_step(ctx, sm.expectation_values_from_rdms, ["expectation_values.json"], interactionrdm="r.json", qubit_operator="o.json", sort_terms=srt)
            got = load_expectation_values("expectation_values.json").values
            want = [val(t) for t, _ in order]
            ctx.check(np.allclose(got, want, atol=1e-9), lambda: f"{case}: {got}, expected {want}")
            run_step(ctx, sm.expectation_values_from_rdms_for_qubitoperator_list, ["expectation_values.json"], interactionrdm="r.json", qubit_operator_list="os.json", sort_terms=srt)
            got = load_expectation_values("expectation_values.json").values
            ctx.check(np.allclose(got, want + [val(((1, "Z"),))] + want, atol=1e-9), lambda: f"{case}: {got}")


# ---------------------------------------------------------------- graphs and random lists

def gen_graph(tier):
    samplers = [None, "constant", "uniform", "own"]
    for s in range(len(samplers)):
        for form in range(2):
            for seed in (None, 0, 7):
                for n in range(1, 6):
                    for p in (0.0, 0.5, 1.0):
                        yield ["erdos_renyi", {"number_of_nodes": n, "edge_probability": p}, s, form, seed]
                    yield ["complete", {"number_of_nodes": n}, s, form, seed]
                    yield ["ladder", {"length_of_ladder": n}, s, form, seed]
                    if n >= 3:
                        yield ["barbell", {"number_of_vertices_complete_graph": n}, s, form, seed]
                    for d in range(0, n):
                        if n * d % 2 == 0:
                            yield ["regular", {"number_of_nodes": n, "degree": d}, s, form, seed]
                for a in (1, 2, 3):
                    for b in (2, 3):
                        yield ["caveman", {"number_of_cliques": a, "size_of_cliques": b}, s, form, seed]
    for kind in ("erdos_renyi", "regular", "complete", "caveman", "ladder", "barbell", "tree"):
        for w in (None, False, True):
            for seed in (None, 5):
                yield ["specs", kind, w, seed]
    for low in (-2, 0, 3):
        for high in (None, 5):
            for size in (1, 4, [2, 2]):
                for seed in (None, 0, 3):
                    yield ["integers", low, high, size, seed]


STEPS = {"erdos_renyi": "generate_random_graph_erdos_renyi", "complete": "generate_complete_graph", "ladder": "generate_ladder_graph", "barbell": "generate_barbell_graph", "regular": "generate_random_regular_graph", "caveman": "generate_caveman_graph"}
SAMPLERS = [None, {"module_name": "zquantum.core.graph", "function_name": "choice_sampler", "choices": [0.5, 4.0]}, {"module_name": "zquantum.core.graph", "function_name": "uniform_sampler", "min_value": 2.0, "max_value": 3.0}, {"module_name": MOD, "function_name": "weights"}]


def structure(ctx, kind, kw, g, case):
    n = g.number_of_nodes()
    E_ = {tuple(sorted(e)) for e in g.edges}
    ctx.check(len(E_) == g.number_of_edges() and sorted(g.nodes) == list(range(n)), lambda: f"{case}: {g.nodes} {g.edges}")
    full = lambda vs: {tuple(sorted(p)) for p in itertools.combinations(vs, 2)}
    if kind in ("erdos_renyi", "complete"):
        p = kw.get("edge_probability", 1.0)
        ctx.check(n == kw["number_of_nodes"] and (p not in (0.0, 1.0) or E_ == (full(range(n)) if p else set())), lambda: f"{case}: {E_}")
    elif kind == "regular":
        ctx.check(n == kw["number_of_nodes"] and all(d == kw["degree"] for _, d in g.degree), lambda: f"{case}: {E_}")
    elif kind == "ladder":
        k = kw["length_of_ladder"]
        ctx.check(n == 2 * k and E_ == {(i, i + 1) for i in range(k - 1)} | {(k + i, k + i + 1) for i in range(k - 1)} | {(i, k + i) for i in range(k)}, lambda: f"{case}: {E_}")
    elif kind == "barbell":
        k = kw["number_of_vertices_complete_graph"]
        ctx.check(n == 2 * k and E_ == full(range(k)) | full(range(k, 2 * k)) | {(k - 1, k)}, lambda: f"{case}: {E_}")
    elif kind == "caveman":
        a, b = kw["number_of_cliques"], kw["size_of_cliques"]
        ctx.check(n == a * b and E_ == set().union(*[full(range(i * b, i * b + b)) for i in range(a)]), lambda: f"{case}: {E_}")


def allowed(ctx, s, g, case):
    ws = [w for _, _, w in g.edges(data="weight")]
    ctx.check(all(w is not None and [w == 1, w in (0.5, 4.0), 2.0 <= w <= 3.0, w == 2.5][s] for w in ws), lambda: f"{case}: weights {ws}")


def desc(g):
    return (list(g.nodes), sorted((tuple(sorted(e[:2])), sorted(e[2].items())) for e in g.edges(data=True)))


def step_graph(ctx, case):
    import random
    import warnings
    ctx.state(case)
    with Dir(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case[0] == "specs":
            _, kind, w, seed = case
            d = {"type_graph": kind, "num_nodes": 4, "probability": 0.5, "degree": 3, "number_of_cliques": 2, "size_of_cliques": 3, "length_of_ladder": 3, "number_of_vertices_complete_graph": 3}
            if w is not None:
                d["random_weights"] = w
            if seed is not None:
                d["seed"] = seed
            if kind == "tree":
                ctx.raises(lambda: sg.generate_graph_from_specs(json.dumps(d)), "unknown type of graph")
                ctx.check(os.listdir(".") == [], "a failing step wrote its file")
                return
            got = []
            for _ in range(2):
                run_step(ctx, sg.generate_graph_from_specs, ["graph.json"], graph_specs=json.dumps(d))
                got.append(load_graph("graph.json"))
                random.seed(1234)
            structure(ctx, kind, {"number_of_nodes": 4, "edge_probability": 0.5 if kind == "erdos_renyi" else 1.0, "degree": 3, "number_of_cliques": 2, "size_of_cliques": 3, "length_of_ladder": 3, "number_of_vertices_complete_graph": 3}, got[0], case)
            ws = [x for _, _, x in got[0].edges(data="weight")]
            ctx.check(all(0 <= x <= 1 if w else x == 1.0 for x in ws) and (not w or seed is None or len(set(ws)) == len(ws)), lambda: f"{case}: weights {ws}")
            if seed is not None:
                ctx.check(desc(got[0]) == desc(got[1]), lambda: f"{case}: the same seed gave {desc(got[0])} and {desc(got[1])}")
            return
        if case[0] == "integers":
            _, low, high, size, seed = case
            kw = dict(low=low, size=size)
            if high is not None:
                kw["high"] = high
            elif low <= 0:
                ctx.raises(lambda: su.generate_random_list_of_integers(seed=seed, **kw), "empty range")
                return
            got = []
            for _ in range(2):
                run_step(ctx, su.generate_random_list_of_integers, ["integers.json"], seed=seed, **kw)
                got.append(load_list("integers.json"))
            a = np.array(got[0])
            lo, hi = (low, high) if high is not None else (0, low)
            ctx.check(a.shape == (tuple(size) if isinstance(size, list) else (size,)) and a.dtype.kind == "i" and bool(((a >= lo) & (a < hi)).all()), lambda: f"{case}: {got}")
            ctx.check(seed is None or got[0] == got[1], lambda: f"{case}: the same seed gave {got}")
            return
        kind, kw, s, form, seed = case
        got = []
        for _ in range(2):
            run_step(ctx, getattr(sg, STEPS[kind]), ["graph.json"], sampler_specs=None if SAMPLERS[s] is None else spec(form, SAMPLERS[s]), seed=seed, **kw)
            got.append(load_graph("graph.json"))
            random.seed(4321)
            np.random.seed(17)
        if s == 0:
            os.remove("graph.json")
            for bad in (1, 2.5, ["uniform"], "not json", json.dumps({"module_name": "zquantum.core.graph", "function_name": "no_sampler"})):
                ctx.raises(lambda: getattr(sg, STEPS[kind])(sampler_specs=bad, seed=seed, **kw), f"{case} with sampler {bad!r}")
                ctx.check(os.listdir(".") == [], f"{case} with sampler {bad!r} failed and wrote its file")
        for g in got:
            structure(ctx, kind, kw, g, case)
            allowed(ctx, s, g, case)
        if seed is not None:
            ctx.check(desc(got[0]) == desc(got[1]), lambda: f"{case}: the same seed gave {desc(got[0])} and {desc(got[1])}")


SPACES = [
    Space("circuit-flow", gen_flow, step_flow, "all histories of up to 3 (thorough 4) circuit steps out of 19 actions in one directory"),
    Space("operator-flow", gen_opflow, step_opflow, "all histories of up to 3 (thorough 4) operator steps out of 17 actions in one directory"),
    Space("arguments", gen_args, step_args, "all argument forms of the circuit steps over small ansatzes, layouts, circuits and parameter vectors"),
    Space("measure", gen_measure, step_measure, "3 circuits x 3 shot numbers x 2 backends x noise model x connectivity x 4 tracking modes x forms of the specs"),
    Space("evaluation", gen_eval, step_eval, "all operators of a list x circuits x shot numbers x argument forms; ground states in every particle sector of three operators"),
    Space("optimize", gen_opt, step_opt, "2 sizes x 3 operators x 3 estimation methods x 3 preprocessor chains x 4 ansatz forms x 4 (thorough 6) options x argument forms"),
    Space("cost", gen_cost, step_cost, "3 sizes x 3 operators x 3 estimation methods x 4 preprocessor chains x 3 forms of priors x ansatzes x argument forms"),
    Space("operators", gen_ops, step_ops, "5 interaction operators on up to 4 modes: every permutation, choice of core and active orbitals, transformation; groupings and reduced density matrices of all basis states on up to 3 modes"),
    Space("graphs", gen_graph, step_graph, "all small arguments of the graph steps x 4 samplers x forms x seeds; random lists of integers"),
]
