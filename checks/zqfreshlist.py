"""The entries of the "fresh" spaces: (name, function, maker of arguments)."""
import copy
import io
import json
import random

import numpy as np
import sympy

PERIODIC = {"periodic": True}


def entry(name, fn, *makers):
    """Arguments are made anew each time; callables make, the rest is copied."""
    def make():
        return tuple(m() if callable(m) else copy.deepcopy(m) for m in makers)

    return (name, fn, make)


def cases(fn, *tuples):
    name = getattr(fn, "__name__", "function")
    return [entry("%s%s" % (name, tuple(getattr(m, "__name__", m) for m in t)), fn, *t) for t in tuples]


def circuit_a():
    from zquantum.core.circuits import Circuit, CNOT, H, RX
    return Circuit([H(0), RX(0.3)(1), CNOT(0, 2)])


def circuit_b():
    from zquantum.core.circuits import Circuit, CNOT, H, RX
    return Circuit([H(0), RX(0.3)(1), CNOT(0, 2)], n_qubits=4)


def circuit_c():
    from zquantum.core.circuits import Circuit, T, X, XX
    return Circuit([X(1), T.dagger(0), XX(sympy.Symbol("theta")).controlled(1)(2, 0, 1)])


def circuit_d():
    from zquantum.core.circuits import Circuit, S, X, XX
    return Circuit([X(1), S.dagger(0), XX(sympy.Symbol("theta")).controlled(1)(2, 1, 0)])


def qop(text, c=1.0):
    def make():
        from zquantum.core.openfermion import QubitOperator
        return QubitOperator(text, c)
    make.__name__ = "%s*%s" % (c, text)
    return make


def iop(text, c=1.0):
    def make():
        from zquantum.core.openfermion import IsingOperator
        return IsingOperator(text, c)
    make.__name__ = "%s*%s" % (c, text)
    return make


def fop(text, c=1.0):
    def make():
        from zquantum.core.openfermion import FermionOperator
        return FermionOperator(text, c)
    make.__name__ = "%s*%s" % (c, text)
    return make


def total(*makers):
    def make():
        r = makers[0]()
        for m in makers[1:]:
            r = r + m()
        return r
    make.__name__ = " + ".join(m.__name__ for m in makers)
    return make


def interaction(n, s=0.0, const=0.5):
    def make():
        from zquantum.core.openfermion import InteractionOperator
        one = np.arange(1.0, n * n + 1).reshape(n, n) + s
        two = np.cos(np.arange(1.0, n**4 + 1).reshape((n,) * 4) + s)
        one = one + one.T
        two = two + two.transpose(3, 2, 1, 0)
        two = two + two.transpose(1, 0, 3, 2)
        return InteractionOperator(const, one, two)
    make.__name__ = "interaction(%s, %s, %s)" % (n, s, const)
    return make


def rdm(n, s=0.0):
    def make():
        from zquantum.core.openfermion import InteractionRDM
        one = np.diag(np.linspace(0.2, 0.9, n)) + s
        two = np.sin(np.arange(1.0, n**4 + 1).reshape((n,) * 4)) * 0.2 + s
        return InteractionRDM(one, two)
    make.__name__ = "rdm(%s, %s)" % (n, s)
    return make


def array(*shape, s=0.0):
    def make():
        n = int(np.prod(shape))
        return np.cos(np.arange(1.0, n + 1) + s).reshape(shape)
    make.__name__ = "array%s%s" % (shape, "+%s" % s if s else "")
    return make


def state(n, k=0):
    def make():
        from mc import ref
        return np.array(ref.generic_state(n, k))
    make.__name__ = "state(%s, %s)" % (n, k)
    return make


def C01():
    from zquantum.core.circuits import Circuit, MultiPhaseOperation
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    def unitary(c):
        return c.to_unitary()

    def apply(c, v):
        for o in c.operations:
            v = o.apply(v)
        return v

    def simulate(c, v):
        return SymbolicSimulator().get_wavefunction(c, v)

    def phase(p, v):
        return MultiPhaseOperation(p).apply(v)

    return (cases(unitary, (circuit_a,), (circuit_b,), (circuit_c,), (circuit_d,), (Circuit,))
            + cases(apply, (circuit_a, state(3)), (circuit_b, state(4)), (circuit_a, state(3, 1)))
            + cases(simulate, (circuit_a, None), (circuit_b, None), (circuit_a, state(3)), (circuit_a, state(3, 1)))
            + cases(phase, ([0.1, 0.2, 0.3, 0.4], state(2)), ((0.1, 0.2, 0.3, 0.5), state(2))))


def C06():
    from zquantum.core.circuits import Circuit, U3
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    def single():
        return Circuit([U3(0.1, 0.2, 0.3)(0)])

    def controlled():
        return Circuit([U3(0.1, 0.2, 0.3).controlled(1)(0, 1), U3(0.1, 0.2, 0.3)(0)])

    def other():
        return Circuit([U3(0.1, 0.2, 0.4)(0), U3(0.1, 0.2, 0.3)(1)], n_qubits=3)

    def decompose(c, all_rules):
        return decompose_zquantum_circuit(c, [U3GateToRotation()] if all_rules else [])

    return cases(decompose, *[(c, r) for c in (single, controlled, other, circuit_a) for r in (True, False)])


def C07():
    from zquantum.core.circuits import H, RX, Circuit, X, add_ancilla_register, apply_gate_to_qubits, create_layer_of_gates, create_random_circuit
    from zquantum.core.circuits import layouts as lay

    def layers(data):
        from zquantum.core.circuits.layouts import CircuitLayers
        return CircuitLayers.from_dict(data)

    def drawn(n, m, seed):
        return create_random_circuit(n, m, np.random.default_rng(seed))

    return (cases(lay.build_circuit_layers_and_connectivity, *[(x, y, k) for x, y in ((2, 2), (2, 3), (3, 2), (4, 1)) for k in ("sycamore",) if y > 1],
                  *[(n, 1, "nearest-neighbor") for n in (2, 3, 5)])
            + cases(layers, ({"layers": [[[0, 1]], [[1, 2]]]},))
            + cases(create_layer_of_gates, (3, lambda: H), (4, lambda: H), (2, lambda: RX, array(2, 1)), (2, lambda: RX, array(2, 1, s=1.0)))
            + cases(apply_gate_to_qubits, (circuit_a, [0, 2], lambda: X), (circuit_b, (0, 2), lambda: X), (circuit_a, [0, 1], lambda: RX, array(2, 1)))
            + cases(add_ancilla_register, (circuit_a, 1), (circuit_a, 2), (circuit_b, 1), (Circuit, 1))
            + cases(drawn, (2, 3, 0), (2, 3, 1), (3, 3, 0)))


def C08():
    from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction
    a, b = sympy.symbols("a b")

    def zero(n):
        return Wavefunction.zero_state(n)

    def dicke(n, k):
        return Wavefunction.dicke_state(n, k)

    def numeric():
        return Wavefunction([0.6, 0.8j, 0, 0])

    def symbolic():
        return Wavefunction([0.6, a, b, 0])

    def bind(wf, m):
        return wf.bind(m)

    def probabilities(wf):
        return wf.get_probabilities()

    def outcomes(wf):
        return wf.get_outcome_probs()

    def amplitudes(wf):
        return np.array(wf.amplitudes)

    return (cases(zero, (1,), (2,), (3,)) + cases(dicke, (1, 0), (2, 1), (3, 1), (3, 2), (3, 3), (4, 2))
            + cases(bind, (symbolic, {a: 0.8}), (symbolic, {a: 0.0, b: 0.8}), (numeric, {a: 0.5}))
            + cases(probabilities, (numeric,), (symbolic,)) + cases(outcomes, (numeric,), (symbolic,))
            + cases(amplitudes, (numeric,), (symbolic,))
            + cases(flip_amplitudes, (state(2),), (state(3),)) + cases(flip_wavefunction, (numeric,)))


def shots(*s):
    def make():
        from zquantum.core.measurement import Measurements
        return Measurements([tuple(map(int, x)) for x in s])
    make.__name__ = "shots%s" % (s,)
    return make


def C10():
    from zquantum.core.measurement import Parities, concatenate_expectation_values, expectation_values_to_real, get_expectation_value_from_frequencies, \
        get_expectation_values_from_parities, get_parities_from_measurements

    def estimate(m, op, bessel):
        return m.get_expectation_values(op, use_bessel_correction=bessel)

    def parities(m, op):
        return get_parities_from_measurements(m.bitstrings, op)

    def tally(s=0):
        def make():
            return Parities(np.array([[3, 1 + s], [2, 2]]), [np.array([[[4, 0], [2, 2]], [[2, 2], [4, 0]]])])
        make.__name__ = "tally(%s)" % s
        return make

    def values(s=0):
        def make():
            from zquantum.core.measurement import ExpectationValues
            return ExpectationValues(np.array([1.0 + 0j, 2 + s]), [np.array([[1, 2], [2, 1 + s]])], [np.array([[0, 1], [1, s]])])
        make.__name__ = "values(%s)" % s
        return make

    def real(e):  # the conversion is done in place
        return expectation_values_to_real(copy.deepcopy(e))

    def both(a, b):
        return concatenate_expectation_values([a, b])

    ops = [total(iop("Z0", 2.0), iop("Z0 Z1", -1.0), iop("", 3.0)), total(iop("Z0", 2.0), iop("Z1", -1.0), iop("", 3.0))]
    sets = [shots("01", "11", "01"), shots("00", "11", "10", "10")]
    return (cases(estimate, *[(m, o, b) for m in sets for o in ops for b in (False, True)])
            + cases(parities, *[(m, o) for m in sets for o in ops])
            + cases(get_expectation_values_from_parities, (tally(),), (tally(1),))
            + cases(real, (values(),), (values(1),))
            + cases(both, (values(), values(1)), (values(1), values()))
            + cases(get_expectation_value_from_frequencies, ((0,), {"01": 1, "11": 2}), ((1,), {"01": 1, "11": 2}), ((0,), {"01": 2, "11": 1})))


def C11():
    from zquantum.core.measurement import Measurements

    def counts(m):
        return m.get_counts()

    def distribution(m):
        return m.get_distribution().distribution_dict

    def created(c):
        return Measurements.from_counts(c)

    def added(m, c):
        m2 = Measurements(list(m.bitstrings))
        m2.add_counts(c)
        return m2

    def empty():
        return Measurements()

    sets = [shots("01", "11", "01"), shots("11", "01", "01"), shots("0"), empty]
    return (cases(counts, *[(m,) for m in sets]) + cases(distribution, *[(m,) for m in sets[:3]]) + cases(empty, ())
            + cases(created, ({"01": 1},), ({"01": 2, "10": 0},), ({},)) + cases(added, (sets[0], {"10": 2}), (sets[0], {"10": 1})))


def C13():
    from zquantum.core import distribution as D
    from zquantum.core.distribution import MeasurementOutcomeDistribution as MOD
    from zquantum.core.utils import bin2dec, dec2bin, get_ordered_list_of_bitstrings

    def made(d, normalize):
        return MOD(d, normalize)

    def dist(d):
        def make():
            return MOD(dict(d))
        make.__name__ = "dist(%s)" % d
        return make

    pairs = [(dist({"00": 0.25, "11": 0.75}), dist({"00": 0.5, "01": 0.25, "11": 0.25})), (dist({"00": 0.75, "11": 0.25}), dist({"00": 0.5, "01": 0.25, "11": 0.25}))]
    r = cases(made, ({"0": 1, "1": 3}, True), ({(0,): 1.0, (1,): 3.0}, True), ({"0": 0.5, "1": 0.5}, False), ({(2, 0): 1}, True))
    for p, q in pairs:
        r += cases(D.compute_mmd, (p, q, {"sigma": 1.0}), (p, q, {"sigma": [0.5, 2]}))
        r += cases(D.compute_clipped_negative_log_likelihood, (p, q, {"epsilon": 0.1}), (p, q, {"epsilon": 0.2}))
        r += cases(D.compute_jensen_shannon_divergence, (p, q, {"epsilon": 0.1}))
    return (r + cases(dec2bin, (5, 3), (5, 4), (5, 2)) + cases(bin2dec, ([1, 0, 1],), ([0, 1, 1],))
            + cases(get_ordered_list_of_bitstrings, (1,), (2,), (3,))
            + cases(D.create_bitstring_distribution_from_probability_distribution, (lambda: np.array([0.1, 0.2, 0.3, 0.4]),),
                    (lambda: np.array([0.4, 0.3, 0.2, 0.1]),)))


def tasks(*ts):
    def make():
        from zquantum.core.interfaces.estimation import EstimationTask
        return [EstimationTask(o(), c(), n) for o, c, n in ts]
    make.__name__ = "tasks[%s]" % ", ".join("%s %s %s" % (o.__name__, c.__name__, n) for o, c, n in ts)
    return make


ZA = total(qop("Z0", 2.0), qop("Z0 Z1", -1.0), qop("", 3.0))
XA = total(qop("X0", 2.0), qop("Z1", -1.0), qop("Y0 Z1", 0.5))


def ising_sum():
    return total(iop("Z0", 2.0), iop("Z0 Z1", -1.0), iop("", 3.0))()


def C14():
    from zquantum.core import estimation as E
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    def exact(ts):
        return E.calculate_exact_expectation_values(SymbolicSimulator(), ts)

    def averaged(ts, seed):
        return E.estimate_expectation_values_by_averaging(SymbolicSimulator(seed=seed), ts)

    def bound(ts, maps):
        return E.evaluate_estimation_circuits(ts, maps)

    th = sympy.Symbol("theta")
    one = tasks((ising_sum, circuit_a, 10), (iop("Z1"), circuit_b, 4), (iop("", 2.0), circuit_a, 5), (iop("Z0"), circuit_a, 0))
    two = tasks((iop("Z1"), circuit_a, 10), (ising_sum, circuit_b, 6))
    return (cases(exact, (one,), (two,), (tasks((XA, circuit_a, None)),))
            + cases(averaged, (one, 1), (one, 2), (two, 1))
            + cases(bound, (tasks((iop("Z1"), circuit_c, 10)), [{th: 0.5}]), (tasks((iop("Z1"), circuit_c, 10)), [{th: 0.6}]), (tasks((iop("Z1"), circuit_d, 10)), [{th: 0.5}]))
            + cases(E.split_estimation_tasks_to_measure, (one,), (two,))
            + cases(E.evaluate_non_measured_estimation_tasks, (tasks((iop("", 2.0), circuit_a, 5), (iop("Z0"), circuit_a, 0)),)))


def C15():
    from zquantum.core import estimation as E
    from zquantum.core import hamiltonian as H

    def grouped(op, by_size):
        return H.group_comeasureable_terms_greedy(op, by_size)

    many = [ZA, XA, total(qop("X0", 2.0), qop("Z1", -2.0), qop("Y0 Z1", 0.5)), total(qop("X0 X1"), qop("Z0 Z1"), qop("Y2"))]
    return (cases(grouped, *[(o, s) for o in many for s in (False, True)])
            + cases(E.group_individually, (tasks((XA, circuit_a, 7)),), (tasks((XA, circuit_a, 8)),), (tasks((XA, circuit_b, 7), (ZA, circuit_a, 3)),))
            + cases(E.group_greedily, (tasks((XA, circuit_a, 7)),), (tasks((XA, circuit_b, 7), (ZA, circuit_a, 3)),))
            + cases(E.perform_context_selection, (tasks((total(qop("X0", 2.0), qop("Y1")), circuit_a, 7)),), (tasks((total(qop("X0", 3.0), qop("Y1")), circuit_a, 7)),),
                    (tasks((total(qop("X0", 2.0), qop("X1")), circuit_a, 7)),))
            + cases(E.get_context_selection_circuit_for_group if hasattr(E, "get_context_selection_circuit_for_group") else E._estimation.get_context_selection_circuit_for_group,
                    (total(qop("X0", 2.0), qop("Y1")),), (total(qop("X0", 2.0), qop("Y2")),), (qop("Z0 Z1"),)))


def C16():
    from zquantum.core import estimation as E
    from zquantum.core import hamiltonian as H
    from zquantum.core.utils import scale_and_discretize

    def values(*v):
        def make():
            from zquantum.core.measurement import ExpectationValues
            return ExpectationValues(np.array(v))
        make.__name__ = "values%s" % (v,)
        return make

    def uniform(ts, n):
        return E.allocate_shots_uniformly(ts, n)

    def proportional(ts, n, prior):
        return E.allocate_shots_proportionally(ts, n, prior)

    def frames(groups, prior):
        return H.estimate_nmeas_for_frames(groups, prior)

    def variances(groups, prior):
        return H.compute_group_variances(groups, prior)

    two = tasks((total(qop("X0", 2.0), qop("Y1")), circuit_a, 7), (total(qop("Z0", 3.0), qop("Z1")), circuit_a, 9))
    other = tasks((total(qop("X0", 1.0), qop("Y1")), circuit_a, 7), (total(qop("Z0", 3.0), qop("Z1")), circuit_a, 9))

    def groups():
        return [total(qop("X0", 2.0), qop("Y1"))(), total(qop("Z0", 3.0), qop("", 4.0))()]

    def groups2():
        return [total(qop("X0", 2.0), qop("Y1"))(), total(qop("Z0", 1.0), qop("", 4.0))()]

    return (cases(uniform, (two, 5), (two, 6), (other, 5)) + cases(proportional, (two, 10, None), (two, 11, None), (other, 10, None), (two, 10, values(0.1, 0.2, 0.3, 0.4)), (two, 10, values(0.9, 0.2, 0.3, 0.4)))
            + cases(frames, (groups, None), (groups2, None), (groups, values(0.1, 0.2, 0.3, 0.4)))
            + cases(variances, (groups, None), (groups2, None), (groups, values(0.1, 0.2, 0.3, 0.4)))
            + cases(scale_and_discretize, ([1.0, 2.0, 4.0], 10), ([1.0, 2.0, 3.0], 10), ([1.0, 2.0, 4.0], 11)))


def C20():
    from zquantum.core.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term

    def term(op, t):
        return time_evolution_for_term(op, t)

    def evolve(op, t, n):
        return time_evolution(op, t, trotter_order=n)

    def derivatives(op, t, n):
        return time_evolution_derivatives(op, t, trotter_order=n)

    t = sympy.Symbol("t")
    return (cases(term, (qop("X0 Y1", 2.0), 0.3), (qop("X0 Y1", 2.0), 0.4), (qop("X0 Y1", 3.0), 0.3), (qop("X0 Y2", 2.0), 0.3), (qop("Z0", 2.0), t))
            + cases(evolve, (XA, 0.3, 1), (XA, 0.3, 2), (XA, 0.4, 1), (ZA, 0.3, 1), (XA, t, 1))
            + cases(derivatives, (XA, 0.3, 1), (XA, 0.3, 2), (total(qop("X0"), qop("Z1", 2.0)), 0.3, 1)))


def C26():
    from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator
    from zquantum.core.openfermion.utils import anticommutator, commutator
    from zquantum.core.openfermion.utils.commutators import double_commutator

    def made(kind, text, c):
        return kind(text, c)

    def zero(kind):
        return kind.zero()

    def identity(kind):
        return kind.identity()

    def add(a, b):
        return a + b

    def sub(a, b):
        return a - b

    def mul(a, b):
        return a * b

    def power(a, n):
        return a**n

    def neg(a):
        return -a

    def scaled(a, c):
        return [a * c, c * a, a / c]

    kinds = [QubitOperator, IsingOperator, FermionOperator]
    K = [lambda k=k: k for k in kinds]
    r = cases(made, (K[0], "X0 Y1", 2.0), (K[0], "X0 Y1", 3.0), (K[1], "Z0 Z1", 2.0), (K[2], "0^ 1", 2.0), (K[0], "", 2.0), (K[0], ((0, "X"),), 1.0), (K[2], ((0, 1),), 1.0))
    for k in K:
        r += cases(zero, (k,)) + cases(identity, (k,))
    q = [XA, total(qop("X0", 2.0), qop("Y1", 1j))]
    f = [total(fop("0^ 1", 2.0), fop("1^ 0")), total(fop("0^", 2.0), fop("1"))]
    for a, b in ((q[0], q[1]), (q[1], q[0]), (f[0], f[1]), (f[1], f[0]), (q[0], q[0])):
        for fn in (add, sub, mul, commutator, anticommutator):
            r += cases(fn, (a, b))
    for a in (q[0], f[0]):
        r += cases(power, (a, 0), (a, 1), (a, 2), (a, 3)) + cases(neg, (a,)) + cases(scaled, (a, 2.0), (a, 0.5))
    return r + cases(double_commutator, (f[0], f[1], f[0]))


def C27():
    from zquantum.core.openfermion import QubitOperator, IsingOperator, FermionOperator, change_operator_type
    from zquantum.core.openfermion import convert_dict_to_isingop, convert_dict_to_qubitop, convert_isingop_to_dict, convert_qubitop_to_dict, get_pauli_strings, \
        get_qubitop_from_coeffs_and_labels, get_qubitop_from_matrix, reverse_qubit_order
    from zquantum.core.openfermion import convert_dict_to_interaction_op, convert_dict_to_interaction_rdm, convert_interaction_op_to_dict, convert_interaction_rdm_to_dict
    from zquantum.core.openfermion.transforms.opconversions import reorder
    from zquantum.core.openfermion.utils import up_then_down

    def parsed(text):
        return QubitOperator(text)

    def parsed_fermion(text):
        return FermionOperator(text)

    def printed(op):
        return str(op)

    def reordered(op, n, rev):
        return reorder(op, up_then_down, num_modes=n, reverse=rev)

    def typed(op, kind):
        return change_operator_type(op, {"q": QubitOperator, "i": IsingOperator}[kind])

    def back(op):
        return convert_dict_to_qubitop(convert_qubitop_to_dict(op))

    def ising_back(op):
        return convert_dict_to_isingop(convert_isingop_to_dict(op))

    def interaction_back(op):
        return convert_dict_to_interaction_op(convert_interaction_op_to_dict(op))

    def rdm_back(op):
        return convert_dict_to_interaction_rdm(convert_interaction_rdm_to_dict(op))

    return (cases(parsed, ("2.0 [X0 Z1] + 3 [Z1]",), ("3.0 [X0 Z1] + 3 [Z1]",), ("[X0]",)) + cases(parsed_fermion, ("2.0 [0^ 1] + 3 [1]",), ("3.0 [0^ 1]",))
            + cases(printed, (XA,), (ZA,), (fop("0^ 1", 2.0),))
            + cases(reverse_qubit_order, (XA,), (XA, 2), (XA, 3), (ZA, 3))
            + cases(reordered, (total(fop("0^ 1", 2.0), fop("3^ 2")), 4, False), (total(fop("0^ 1", 2.0), fop("3^ 2")), 6, False), (total(fop("0^ 1", 2.0), fop("3^ 2")), 4, True))
            + cases(typed, (ZA, "i"), (ising_sum, "q")) + cases(get_pauli_strings, (XA,), (ZA,))
            + cases(get_qubitop_from_coeffs_and_labels, ([1.0, 2.0], [[0, 1], [3, 2]]), ([1.0, 3.0], [[0, 1], [3, 2]]))
            + cases(get_qubitop_from_matrix, ([[1, 2], [2, -1]],), ([[1, 3], [3, -1]],))
            + cases(back, (XA,), (ZA,)) + cases(ising_back, (ising_sum,)) + cases(interaction_back, (interaction(2),), (interaction(2, 1.0),)) + cases(rdm_back, (rdm(2),), (rdm(2, 1.0),)))


def C28():
    from zquantum.core.openfermion.transforms import bravyi_kitaev, jordan_wigner, jordan_wigner_one_body, jordan_wigner_two_body, reverse_jordan_wigner
    fs = [fop("0^ 1", 2.0), fop("0^ 1", 3.0), fop("1^ 0", 2.0), total(fop("0^ 2", 1.0), fop("2^ 0"), fop("", 2.0)), fop("2^ 1^ 0 1")]
    r = []
    for f in fs:
        r += cases(jordan_wigner, (f,)) + cases(bravyi_kitaev, (f,), (f, 3), (f, 4))
    r += cases(jordan_wigner, (interaction(2),), (interaction(2, 1.0),), (interaction(4),)) + cases(bravyi_kitaev, (interaction(2),), (interaction(2, 1.0),), (interaction(2), 3), (interaction(4),))
    r += cases(jordan_wigner_one_body, (0, 0), (0, 1), (1, 0), (0, 1, 2.0), (0, 1, 2j), (0, 3))
    r += cases(jordan_wigner_two_body, (0, 1, 1, 0), (0, 1, 0, 1), (0, 1, 1, 0, 2.0), (0, 1, 2, 3), (0, 1, 2, 3, 1j), (0, 1, 2, 0))
    return r + cases(reverse_jordan_wigner, (XA,), (XA, 2), (XA, 4), (qop("X0", 2.0),), (qop("X0", 3.0),), (qop("Z2"),))


def C29():
    from zquantum.core.openfermion import get_fermion_operator, get_interaction_operator, get_polynomial_tensor
    from zquantum.core.openfermion.transforms import chemist_ordered, normal_ordered, normal_ordered_ladder_term
    from zquantum.core.openfermion.transforms.opconversions import reorder
    from zquantum.core.openfermion.utils import count_qubits, is_hermitian, is_identity, up_then_down

    def predicates(op):
        return [op.is_normal_ordered(), op.is_two_body_number_conserving(), op.is_two_body_number_conserving(True)]

    fs = [fop("0 1^", 2.0), fop("0 1^", 3.0), total(fop("0 0^ 1^ 1"), fop("1^ 0")), total(fop("0^ 1^ 1 0", 2.0), fop("0^ 1"), fop("1^ 0"), fop("", 1.5)), fop("1^ 2^ 0 3")]
    r = []
    for f in fs:
        for fn in (normal_ordered, predicates, is_hermitian, is_identity, count_qubits):
            r += cases(fn, (f,))
        r += cases(get_polynomial_tensor, (f,), (f, 4), (f, 5))
    r += cases(chemist_ordered, (fs[3],), (fop("2^ 1^ 0 3"),), (fs[1],))
    r += cases(normal_ordered_ladder_term, (((0, 0), (1, 1)), 2.0), (((0, 0), (1, 1)), 3.0), (((0, 0), (0, 1)), 2.0))
    r += cases(normal_ordered, (interaction(2),), (interaction(2, 1.0),)) + cases(get_fermion_operator, (interaction(2),), (interaction(2, 1.0),), (interaction(2, 0.0, 3.0),))
    return r + cases(get_interaction_operator, (fs[3],), (fs[3], 3), (total(fop("0^ 1"), fop("1^ 0")),))


def C30():
    from zquantum.core.openfermion import InteractionOperator, get_diagonal_component, get_fermion_number_operator, get_ground_state_rdm_from_qubit_op, hf_rdm
    from zquantum.core.openfermion.measurements import get_interaction_rdm
    from zquantum.core.openfermion.ops.representations import general_basis_change, get_active_space_integrals, get_tensors_from_integrals
    from zquantum.core.openfermion.transforms import jordan_wigner

    def add(a, b):
        return a + b

    def sub(a, b):
        return a - b

    def scale(a, c):
        return [a * c, c * a, a / c]

    def neg(a):
        return -a

    def unique(a):
        return list(a.unique_iter())

    def items(a):
        return [(k, a[k]) for k in a]

    def projected(a, ix, exact):
        return a.projected(ix, exact)

    def parts(a, ix):
        return a.projected_n_body_tensors(ix)

    def zero(n):
        return InteractionOperator.zero(n)

    def rotated(a, r):
        a = copy.deepcopy(a)
        a.rotate_basis(r)
        return a

    def expected(d, op):
        return d.expectation(op)

    def qubit_expected(d, op):
        return d.get_qubit_expectations(op)

    def measured(n):
        def make():
            op = jordan_wigner(interaction(n)())
            for k, t in enumerate(op.terms):
                op.terms[t] = 0.1 * k if t else 1.0
            return op
        make.__name__ = "measured(%s)" % n
        return make

    def ground(op, n):
        return get_ground_state_rdm_from_qubit_op(op, n)

    A, B, C = interaction(2), interaction(2, 1.0), interaction(2, 0.0, 3.0)
    rot = lambda: np.array([[0.6, 0.8], [-0.8, 0.6]])  # noqa: E731
    r = []
    for a, b in ((A, B), (B, A), (A, C), (rdm(2), rdm(2, 1.0))):
        r += cases(add, (a, b)) + cases(sub, (a, b))
    for a in (A, C, rdm(2)):
        r += cases(scale, (a, 2.0), (a, 0.5)) + cases(neg, (a,)) + cases(items, (a,))
    r += cases(unique, (A,), (B,)) + cases(projected, (A, [0], False), (A, [0], True), (A, [1], False)) + cases(parts, (A, [0])) + cases(zero, (2,), (4,))
    r += cases(general_basis_change, (array(2, 2), rot, (1, 0)), (array(2, 2, s=1.0), rot, (1, 0)), (array(2, 2), rot, (1, 1)))
    r += cases(get_tensors_from_integrals, (array(2, 2), array(2, 2, 2, 2)), (array(2, 2, s=1.0), array(2, 2, 2, 2)))
    r += cases(get_active_space_integrals, (array(3, 3), array(3, 3, 3, 3), [0], [1]), (array(3, 3), array(3, 3, 3, 3), [0], [1, 2]), (array(3, 3), array(3, 3, 3, 3), [1], [0, 2]))
    r += cases(get_diagonal_component, (A,), (B,), (rdm(2),)) + cases(get_fermion_number_operator, (2,), (3,), (2, 1), (2, 2))
    r += cases(hf_rdm, (1, 1, 2), (1, 0, 2), (2, 1, 2)) + cases(expected, (rdm(2), A), (rdm(2), B), (rdm(2, 1.0), A)) + cases(qubit_expected, (rdm(2), XA), (rdm(2), ZA))
    return r + cases(get_interaction_rdm, (measured(2),), (measured(2), 3)) + cases(ground, (total(qop("Z0"), qop("Z1", 2.0)), 1), (total(qop("Z0", 2.0), qop("Z1", 1.0)), 1)) + cases(rotated, (A, rot))


def C31():
    from zquantum.core.openfermion import count_qubits, freeze_orbitals, hermitian_conjugated, is_hermitian
    from zquantum.core.openfermion.transforms.repconversions import prune_unused_indices
    from zquantum.core.openfermion.zapata_utils import remove_inactive_orbitals

    def freeze(op, occ, un, prune):
        return freeze_orbitals(op, occ, un, prune)

    fs = [total(fop("0^ 0", 2.0), fop("2^ 1"), fop("1^ 2")), total(fop("0^ 0", 3.0), fop("2^ 1"), fop("1^ 2")), total(fop("0^ 3^ 3 0"), fop("1^ 1", 2j))]
    r = []
    for f in fs:
        r += cases(freeze, (f, [0], [], True), (f, [0], [], False), (f, [0], [1], True), (f, [1], [0], True), (f, [], [3], True))
        r += cases(prune_unused_indices, (f,)) + cases(hermitian_conjugated, (f,)) + cases(count_qubits, (f,)) + cases(is_hermitian, (f,))
    r += cases(hermitian_conjugated, (qop("X0", 2j),), (qop("X0", 3j),), (interaction(2),), (interaction(2, 1.0),))
    return r + cases(remove_inactive_orbitals, (interaction(4), 1), (interaction(4), 1, 0), (interaction(4), 2, 1), (interaction(4, 1.0), 2, 1), (interaction(4), 0, 0))


def C32():
    from zquantum.core.openfermion import get_sparse_operator
    from zquantum.core.openfermion import linalg as L
    from zquantum.core.openfermion.linalg import sparse_tools as S

    def expect(op, v):
        return L.expectation(get_sparse_operator(op, 2), v)

    def ground(op):
        return L.get_ground_state(get_sparse_operator(op, 3))[0]

    def restricted(op, k, n):
        return S.jw_number_restrict_operator(get_sparse_operator(op, n), k, n)

    def at_number(op, k):
        return S.jw_get_ground_state_at_particle_number(get_sparse_operator(op, 3), k)[0]

    def preserving(op, n, k, spin):
        return L.get_number_preserving_sparse_operator(op, n, k, spin)

    f = total(fop("0^ 1", 2.0), fop("1^ 0", 2.0), fop("2^ 2"))
    g = total(fop("0^ 2", 2.0), fop("2^ 0", 2.0), fop("1^ 1", 3.0))
    r = cases(get_sparse_operator, *[(o, n) for o in (XA, ZA, qop("X0", 2.0), qop("X0", 3.0)) for n in (2, 3)], *[(o, n) for o in (f, g) for n in (3, 4)], (interaction(2),), (interaction(2, 1.0),), (ising_sum,), (XA,), (f,))
    r += cases(S.jordan_wigner_ladder_sparse, (2, 0, 0), (2, 0, 1), (2, 1, 1), (3, 1, 1), (3, 1, 0))
    r += cases(S.jw_configuration_state, ([0], 2), ([1], 2), ([0], 3)) + cases(S.jw_hartree_fock_state, (1, 2), (2, 3), (1, 3))
    r += cases(S.jw_number_indices, (1, 2), (1, 3), (2, 3), (0, 2)) + cases(restricted, (f, 1, 3), (f, 2, 3), (g, 1, 3)) + cases(at_number, (f, 1), (g, 1), (f, 2))
    r += cases(expect, (XA, state(2)), (XA, state(2, 1)), (ZA, state(2))) + cases(ground, (f,), (g,)) + cases(L.eigenspectrum, (XA,), (f,), (f, 4))
    r += cases(preserving, (f, 3, 1, False), (f, 3, 2, False), (f, 4, 1, False), (g, 3, 1, False), (fop("0^ 2"), 4, 2, True), (fop("0^ 2"), 4, 2, False))
    return r + cases(S.get_density_matrix, (lambda: [state(1)(), state(1, 1)()], [0.5, 0.5]), (lambda: [state(1)(), state(1, 1)()], [0.25, 0.75]))


def C33():
    from zquantum.core.openfermion import fermi_hubbard
    from zquantum.core.openfermion.circuits.unitary_cc import uccsd_convert_amplitude_format, uccsd_generator, uccsd_singlet_generator, uccsd_singlet_get_packed_amplitudes, uccsd_singlet_paramsize
    from zquantum.core.openfermion.hamiltonians.special_operators import number_operator

    def hubbard(x, y, t, u, options):
        return fermi_hubbard(x, y, t, u, **options)

    def generator(s, d, anti):
        return uccsd_generator(s, d, anti)

    s, d = array(2, 2), array(2, 2, 2, 2)
    r = cases(hubbard, *[(x, y, 1.0, 4.0, {}) for x, y in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1))], (2, 2, 2.0, 4.0, {}), (2, 2, 1.0, 3.0, {}), (2, 2, 1.0, 4.0, {"periodic": False}),
              (2, 2, 1.0, 4.0, {"spinless": True}), (2, 2, 1.0, 4.0, {"chemical_potential": 0.5}), (2, 2, 1.0, 4.0, {"magnetic_field": 0.5}), (2, 2, 1.0, 4.0, {"particle_hole_symmetry": True}))
    r += cases(generator, (s, d, True), (s, d, False), (array(2, 2, s=1.0), d, True), ([[[1, 0], 0.5]], [[[1, 0, 3, 2], 0.3]], True), ([[[1, 0], 0.5]], [[[1, 0, 3, 2], 0.4]], True))
    r += cases(uccsd_convert_amplitude_format, (s, d), (array(2, 2, s=1.0), d)) + cases(uccsd_singlet_paramsize, (4, 2), (6, 2), (6, 4))
    r += cases(uccsd_singlet_generator, (array(2), 4, 2), (array(2, s=1.0), 4, 2), (array(5), 6, 2), (array(2), 4, 2, False))
    r += cases(uccsd_singlet_get_packed_amplitudes, (array(4, 4), array(4, 4, 4, 4), 4, 2), (array(4, 4, s=1.0), array(4, 4, 4, 4), 4, 2))
    return r + cases(number_operator, (2,), (3,), (2, 1), (2, 0), (2, 1, 2.0))


def C34():
    from zquantum.core import graph as G

    def seeded(fn, *a, **k):
        random.seed(7)
        np.random.seed(7)
        return fn(*a, **k)

    def specs(d):
        return seeded(G.generate_graph_from_specs, d)

    def path(weights, names=False):
        def make():
            import networkx as nx
            g = nx.Graph()
            for k, w in enumerate(weights):
                a, b = ("n%d" % k, "n%d" % (k + 1)) if names else (k, k + 1)
                g.add_edge(a, b, weight=w)
            return g
        make.__name__ = "path(%s, %s)" % (weights, names)
        return make

    def read(text):
        return G.load_graph(io.StringIO(text))

    def written(g):
        import os
        import tempfile
        fd, p = tempfile.mkstemp(dir=os.getcwd())
        os.close(fd)
        try:
            G.save_graph(g, p)
            with open(p) as f:
                return json.load(f)
        finally:
            os.remove(p)

    def family(name, *a):
        samplers = {"uniform": lambda: G.uniform_sampler(1, 2), "constant": lambda: G.constant_sampler(2.0)}
        a = [samplers[v]() if v in samplers else v for v in a]
        return seeded(getattr(G, "generate_%s" % name), *a)

    r = cases(family, ("caveman_graph", 2, 3), ("caveman_graph", 3, 3), ("caveman_graph", 2, 3, "uniform"), ("caveman_graph", 2, 3, "uniform", 5), ("caveman_graph", 2, 3, "constant"),
              ("barbell_graph", 3), ("barbell_graph", 4), ("barbell_graph", 3, "uniform"), ("ladder_graph", 2), ("ladder_graph", 3), ("ladder_graph", 3, "uniform", 4), ("random_regular_graph", 4, 2), ("random_regular_graph", 4, 2, "uniform"),
              ("random_regular_graph", 4, 2, "uniform", 3))
    r += cases(family, *[("random_graph_erdos_renyi",) + a for a in ((4, 0.5, "uniform", 5), (4, 0.5, "uniform", 6), (4, 0.5, "constant", 5), (5, 0.5, "uniform", 5))])
    r += cases(specs, *[(dict(s, **w),) for s in ({"type_graph": "erdos_renyi", "num_nodes": 4, "probability": 0.5}, {"type_graph": "complete", "num_nodes": 3}, {"type_graph": "complete", "num_nodes": 4},
                                                 {"type_graph": "regular", "num_nodes": 4, "degree": 2}, {"type_graph": "ladder", "num_nodes": 6, "length_of_ladder": 3},
                                                 {"type_graph": "caveman", "num_nodes": 6, "number_of_cliques": 2, "size_of_cliques": 3}) for w in ({}, {"random_weights": True}, {"random_weights": True, "seed": 3})])
    r += cases(G.compare_graphs, (path([1, 2]), path([1, 2])), (path([1, 2]), path([1, 3])), (path([1, 2]), path([1, 2], True)))
    r += cases(G.generate_graph_node_dict, (path([1, 2]),), (path([1, 2], True),), (path([1, 2, 3]),)) + cases(written, (path([1, 2]),), (path([1, 3]),), (path([1, 2], True),))
    return r


def C35():
    from zquantum.core.circuits.symbolic import natural_key, natural_key_revlex
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression
    a, b = sympy.symbols("a b")

    def there(e):
        return repr(expression_from_sympy(e))

    def round_trip(e):
        return translate_expression(expression_from_sympy(e), SYMPY_DIALECT)

    exprs = [a + b, b + a * 2, a * b, a - b, a / b, a**b, sympy.sin(a), sympy.cos(a), sympy.sqrt(a) + 1, sympy.Rational(1, 3) * a, sympy.pi * a, -a, sympy.exp(a * 1.5)]
    r = []
    for e in exprs:
        r += cases(there, (e,)) + cases(round_trip, (e,))
    for n in ("theta_1", "theta_10", "theta_01", "a1b2", "a2b1"):
        r += cases(natural_key, (sympy.Symbol(n),)) + cases(natural_key_revlex, (sympy.Symbol(n),))
    return r


def C37():
    from zquantum.core.testing import create_random_isingop, create_random_qubitop, create_random_wavefunction
    from zquantum.core.utils import compare_unitary, is_identity, is_unitary

    def seeded(fn, *a, **k):
        return fn(*a, **k)

    m = [lambda: np.eye(2), lambda: np.array([[0, 1], [1, 0.0]]), lambda: 1j * np.eye(2), lambda: np.array([[0.6, 0.8], [-0.8, 0.6]])]
    r = cases(create_random_qubitop, (2, 3, 5), (2, 3, 6), (3, 3, 5), (2, 2, 5)) + cases(create_random_isingop, (2, 2, 5), (3, 2, 5), (3, 3, 5))
    r += cases(create_random_wavefunction, (1, 5), (2, 5), (2, 6))
    for a in m:
        r += cases(is_identity, (a,)) + cases(is_unitary, (a,))
        for b in m:
            r += cases(compare_unitary, (a, b))
    return r


def C39():
    from zquantum.core import hamiltonian as H

    def values(d, op, sort):
        return H.get_expectation_values_from_rdms(d, op, sort)

    def lists(d, ops, sort):
        return H.get_expectation_values_from_rdms_for_qubitoperator_list(d, ops, sort)

    def reorder(op, order):
        return H.reorder_fermionic_modes(op, order)

    pair = lambda: [XA(), ZA()]  # noqa: E731
    riap = lambda: [ZA(), XA()]  # noqa: E731
    r = cases(values, *[(d, o, s) for d in (rdm(2), rdm(2, 0.1)) for o in (XA, ZA) for s in (False, True)])
    r += cases(lists, (rdm(2), pair, False), (rdm(2), riap, False), (rdm(2), pair, True), (rdm(2, 0.1), pair, False))
    return r + cases(reorder, (interaction(2), [1, 0]), (interaction(2), [0, 1]), (interaction(2, 1.0), [1, 0]), (interaction(4), [2, 3, 0, 1]), (interaction(4), [1, 2, 3, 0]))


def gates():
    from zquantum.core.circuits import CNOT, CPHASE, H, ISWAP, PHASE, RX, RY, RZ, SWAP, T, U3, X, XX, Y, CustomGateDefinition
    th = sympy.Symbol("theta")
    d1 = CustomGateDefinition("one", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * th)]]), (th,))
    d2 = CustomGateDefinition("two", sympy.Matrix([[sympy.cos(th), -sympy.sin(th)], [sympy.sin(th), sympy.cos(th)]]), (th,))
    return {"X": X, "Y": Y, "H": H, "T": T, "CNOT": CNOT, "SWAP": SWAP, "ISWAP": ISWAP, "RX(.1)": RX(0.1), "RX(.2)": RX(0.2), "RY(.1)": RY(0.1), "RZ(.1)": RZ(0.1), "RX(theta)": RX(th), "U3": U3(0.1, 0.2, 0.3),
            "U3'": U3(0.1, 0.2, th), "CPHASE(.1)": CPHASE(0.1), "PHASE(.1)": PHASE(0.1), "XX(.1)": XX(0.1), "XX(.2)": XX(0.2), "one(.1)": d1(0.1), "one(theta)": d1(th), "two(.1)": d2(0.1), "two(theta)": d2(th)}


def C02():
    def matrix(name, wrap):
        g = gates()[name]
        for w in wrap:
            g = g.dagger if w == "d" else g.controlled(w)
        return [g.matrix, g.num_qubits, g.params]

    return cases(matrix, *[(n, w) for n in gates() for w in ([], ["d"])], *[(n, w) for n in ("X", "T", "RX(.1)", "RX(theta)", "one(.1)", "ISWAP") for w in ([1], [2], ["d", 1])])


def C03():
    th, ph = sympy.symbols("theta phi")
    maps = [{th: 0.5}, {th: 0.6}, {ph: 0.5}, {th: ph}, {th: ph + 1, ph: 2.0}, {}]

    def both():
        from zquantum.core.circuits import Circuit, RX, RZ, XX
        return Circuit([RX(th)(0), RZ(ph)(1), XX(th + ph).dagger.controlled(1)(2, 1, 0)])

    def bound(c, m):
        return c.bind(m)

    def free(c):
        return list(c.free_symbols)

    def bound_gate(name, m):
        g = gates()[name].bind(m)
        return [g.params, g.matrix]

    return cases(bound, *[(c, m) for c in (both, circuit_c) for m in maps]) + cases(free, (both,), (circuit_c,), (circuit_a,)) + cases(bound_gate, *[(n, m) for n in ("RX(theta)", "U3'", "one(theta)", "two(theta)") for m in maps[:4]])


def C04():
    from zquantum.core.circuits import circuit_from_dict, circuitset_from_dict, to_dict

    def custom(name, k):
        def make():
            from zquantum.core.circuits import Circuit, CustomGateDefinition
            th = sympy.Symbol("theta")
            d = CustomGateDefinition(name, sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * th * k)]]), (th,))
            return Circuit([d(0.5)(0), d(th).dagger(1), d(sympy.Symbol("phi")).controlled(1)(0, 1)])
        make.__name__ = "custom(%s, %s)" % (name, k)
        return make

    def there(c):
        return to_dict(c)

    def back(c):
        r = circuit_from_dict(json.loads(json.dumps(to_dict(c))))
        return [r, r.to_unitary()]

    def list_back(c, d):
        return circuitset_from_dict(json.loads(json.dumps(to_dict([c, d]))))

    cs = [circuit_a, circuit_b, circuit_c, circuit_d, custom("u", 1), custom("u", 2), custom("v", 2)]
    return cases(there, *[(c,) for c in cs]) + cases(back, *[(c,) for c in cs]) + cases(list_back, (circuit_a, cs[4]), (cs[4], cs[6]))


def C05():
    from zquantum.core.circuits import X, split_circuit

    def add(a, b):
        return a + b

    def append(a, q):
        return a + X(q)

    def split(c, name):
        return [list(split_circuit(c, lambda op: op.gate.name == name))]

    cs = [circuit_a, circuit_b, circuit_c, circuit_d]
    return cases(add, *[(a, b) for a in cs for b in cs]) + cases(append, *[(a, q) for a in cs[:2] for q in (0, 5)]) + cases(split, *[(c, n) for c in cs[:3] for n in ("H", "X")])


def C09():
    from zquantum.core.measurement import sample_from_wavefunction
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.utils import sample_from_probability_distribution
    from zquantum.core.wavefunction import Wavefunction

    def sampled(v, n, seed):
        return sample_from_wavefunction(Wavefunction(v), n, seed)

    def from_probabilities(d, n, seed):
        np.random.seed(seed)
        random.seed(seed)
        return sample_from_probability_distribution(d, n)

    def run(c, n, seed):
        return SymbolicSimulator(seed=seed).run_circuit_and_measure(c, n)

    def distribution(c):
        return SymbolicSimulator().get_measurement_outcome_distribution(c)

    return (cases(sampled, (state(2), 20, 0), (state(2), 20, 1), (state(2, 1), 20, 0), (state(1), 20, 0), (state(2), 10, 0))
            + cases(from_probabilities, ({"00": 0.5, "01": 0.25, "11": 0.25}, 20, 0), ({"00": 0.25, "01": 0.5, "11": 0.25}, 20, 0), ({"00": 0.5, "01": 0.25, "11": 0.25}, 20, 3))
            + cases(run, (circuit_a, 20, 0), (circuit_a, 20, 1), (circuit_b, 20, 0), (circuit_a, 10, 0)) + cases(distribution, (circuit_a,), (circuit_b,)))


def C12():
    from zquantum.core.measurement import Measurements

    def dist(*p):
        def make():
            from zquantum.core.distribution import MeasurementOutcomeDistribution
            return MeasurementOutcomeDistribution(dict(zip(["00", "01", "10", "11"], p)))
        make.__name__ = "dist%s" % (p,)
        return make

    def represent(d, n):
        np.random.seed(3)
        random.seed(3)
        return Measurements.get_measurements_representing_distribution(d, n)

    return cases(represent, *[(d, n) for d in (dist(0.5, 0.25, 0.25), dist(0.25, 0.5, 0.25), dist(0.5, 0.5), dist(1.0)) for n in (4, 8, 20)])


def C17():
    from zquantum.core.interfaces.mock_objects import MockQuantumBackend
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    def one(c, n, seed):
        b = SymbolicSimulator(seed=seed)
        r = [b.run_circuit_and_measure(c, n), b.run_circuit_and_measure(c, n)]
        return r + [b.number_of_circuits_run, b.number_of_jobs_run]

    def several(cs, n, seed):
        b = SymbolicSimulator(seed=seed)
        return [b.run_circuitset_and_measure(cs, n), b.number_of_circuits_run, b.number_of_jobs_run]

    def mocked(c, n):
        np.random.seed(4)
        random.seed(4)
        b = MockQuantumBackend()
        return [len(b.run_circuit_and_measure(c, n).bitstrings), b.number_of_circuits_run, b.number_of_jobs_run]

    pair = lambda: [circuit_a(), circuit_b()]  # noqa: E731
    riap = lambda: [circuit_b(), circuit_a()]  # noqa: E731
    return (cases(one, (circuit_a, 5, 1), (circuit_a, 6, 1), (circuit_b, 5, 1), (circuit_a, 5, 2)) + cases(mocked, (circuit_a, 5), (circuit_a, 6), (circuit_b, 5))
            + cases(several, (pair, [5, 6], 1), (pair, [6, 5], 1), (riap, [5, 6], 1), (pair, 5, 1), (pair, [5], 1)))


def C22():
    from zquantum.core import cost_function as F
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.gradients import finite_differences_gradient
    from zquantum.core.interfaces.mock_objects import MockAnsatz
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    def cube(x):
        return float(np.sum(x**3))

    def square(x):
        return float(np.sum(x**2))

    def gradient(f, x, h):
        return finite_differences_gradient({"cube": cube, "square": square}[f], h)(x)

    def fix(x, y):
        return F.fix_parameters(y)(x)

    def ansatz_cost(layers, x, op):
        return F.AnsatzBasedCostFunction(op, MockAnsatz(layers, 2), SymbolicSimulator(), estimation_method=calculate_exact_expectation_values)(x)

    def built(layers, x, op):
        a = MockAnsatz(layers, 2)
        factory = F.substitution_based_estimation_tasks_factory(op, a)
        return F.create_cost_function(SymbolicSimulator(), factory, calculate_exact_expectation_values)(x)

    return (cases(gradient, ("cube", array(2), 1e-3), ("cube", array(2), 1e-2), ("cube", array(2, s=1.0), 1e-3), ("square", array(2), 1e-3), ("cube", array(3), 1e-3))
            + cases(fix, (array(2), array(2)), (array(2), array(1))) + cases(ansatz_cost, (1, array(1), ising_sum), (1, array(1, s=1.0), ising_sum), (2, array(2), ising_sum), (1, array(1), iop("Z1")))
            + cases(built, (1, array(1), ising_sum), (1, array(1, s=1.0), ising_sum), (2, array(2), ising_sum), (1, array(1), iop("Z1"))))


def C25():
    from zquantum.core.serialization import OrquestraDecoder, OrquestraEncoder
    from zquantum.core.utils import ValueEstimate, convert_array_to_dict, convert_dict_to_array

    def there(x):
        return json.loads(json.dumps(x, cls=OrquestraEncoder))

    def back(x):
        return json.loads(json.dumps(x, cls=OrquestraEncoder), cls=OrquestraDecoder)

    def arrays(x):
        return convert_dict_to_array(convert_array_to_dict(x))

    def estimate(v, p):
        return ValueEstimate.from_dict(ValueEstimate(v, p).to_dict())

    def values():
        from zquantum.core.measurement import ExpectationValues
        return ExpectationValues(np.array([1.0, 2.0]), [np.eye(2)], [np.ones((2, 2))])

    docs = [array(2), array(2, s=1.0), array(2, 2), lambda: array(2)() * 1j, lambda: {"a": array(2)(), "b": [1, 2.5]}, lambda: [array(2)(), {"x": 1j}], values, circuit_a, lambda: np.array(3)]
    return cases(there, *[(d,) for d in docs]) + cases(back, *[(d,) for d in docs]) + cases(arrays, *[(d,) for d in docs[:4]]) + cases(estimate, (1.0, 0.5), (1.0, None), (2.0, 0.5))


def C38():
    import tempfile

    from zquantum.core.openfermion import MolecularData, get_molecular_data
    from zquantum.core.openfermion.chem import make_reduced_hamiltonian

    def molecule(charge, s):
        def make():
            m = MolecularData([("H", (0, 0, 0)), ("Li", (0, 0, 1.0))], "sto-3g", 1, charge=charge, filename=tempfile.gettempdir() + "/never-saved")
            m.n_orbitals, m.n_qubits, m.nuclear_repulsion = 3, 6, 0.5 + s
            m.one_body_integrals = array(3, 3, s=s)()
            m.two_body_integrals = array(3, 3, 3, 3, s=s)()
            return m
        make.__name__ = "molecule(%s, %s)" % (charge, s)
        return make

    def facts(m):
        return [m.name, m.n_electrons, m.protons, m.get_n_alpha_electrons(), m.get_n_beta_electrons(), m.geometry]

    def whole(m):
        return m.get_molecular_hamiltonian()

    def part(m, occ, act):
        return m.get_molecular_hamiltonian(occ, act)

    def from_operator(op, spin):
        m = get_molecular_data(op, [("H", (0, 0, 0))], "sto-3g", 2, 1, spin)
        return [m.one_body_integrals, m.two_body_integrals, m.nuclear_repulsion, m.n_orbitals, m.n_qubits, m.n_electrons]

    ms = [molecule(0, 0.0), molecule(2, 0.0), molecule(0, 1.0)]
    r = []
    for m in ms:
        r += cases(facts, (m,)) + cases(whole, (m,)) + cases(part, (m, [0], [1]), (m, [0], [1, 2]), (m, [1], [0]))
    return r + cases(from_operator, (interaction(4), True), (interaction(4), False), (interaction(4, 1.0), True)) + cases(make_reduced_hamiltonian, (interaction(4), 2), (interaction(4), 3), (interaction(2), 2))
