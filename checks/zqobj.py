"""Objects that C36 refers to by module and function name in the specs of workflow steps."""
import json

import numpy as np
import sympy
from overrides import overrides

from zquantum.core.circuits import Circuit, CNOT, H, RX, RY
from zquantum.core.estimation import estimate_expectation_values_by_averaging
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.ansatz_utils import ansatz_property
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result
from zquantum.core.measurement import Measurements

LOG = []  # what the objects created by the steps were asked


def pattern(circuit, n):
    """n shots that depend on the number of qubits, of operations and the position"""
    k = circuit.n_qubits
    return [tuple((((i * 7 + len(circuit.operations) * 3 + 1) * (q + 1)) >> 1) & 1 for q in range(k)) for i in range(n)]


class StubBackend(QuantumBackend):
    def __init__(self, label="a", noise_model=None, device_connectivity=None):
        super().__init__()
        self.label, self.noise_model, self.device_connectivity = label, noise_model, device_connectivity
        LOG.append(("backend", label, noise_model, None if device_connectivity is None else list(device_connectivity.connectivity)))

    def run_circuit_and_measure(self, circuit, n_samples):
        super().run_circuit_and_measure(circuit, n_samples)
        LOG.append(("run", len(circuit.operations), circuit.n_qubits, n_samples))
        return Measurements(pattern(circuit, n_samples))


class SizedBackend(StubBackend):
    def __init__(self, n_samples, **kwargs):
        super().__init__(**kwargs)
        self.n_samples = n_samples


class StubOptimizer(Optimizer):
    """evaluates the cost function at the initial parameters and at one displaced point per parameter; returns the best"""

    def __init__(self, step=0.5):
        super().__init__()
        self.step = step

    def _minimize(self, cost_function, initial_params, keep_history=False):
        pts = [np.array(initial_params, dtype=float)]
        for i in range(len(initial_params)):
            p = pts[0].copy()
            p[i] += self.step * (i + 1)
            pts.append(p)
        vals = [float(cost_function(p)) for p in pts]
        LOG.append(("minimized", [p.tolist() for p in pts], vals, keep_history))
        best = min(range(len(pts)), key=lambda i: vals[i])
        return optimization_result(opt_value=vals[best], opt_params=pts[best], nit=1, nfev=len(pts), **construct_history_info(cost_function, keep_history))


class StubAnsatz(Ansatz):
    supports_parametrized_circuits = True

    def __init__(self, number_of_layers, n_qubits=2, cost_hamiltonian=None, thetas=None):
        super().__init__(number_of_layers)
        self.size, self.hamiltonian, self.thetas = n_qubits, cost_hamiltonian, thetas
        LOG.append(("ansatz", number_of_layers, n_qubits, cost_hamiltonian, None if thetas is None else np.array(thetas).tolist()))

    @property
    def number_of_qubits(self):
        return self.size

    @overrides
    def _generate_circuit(self, parameters=None):
        c = Circuit([], n_qubits=self.size)
        for k in range(self._number_of_layers):
            c += RY(sympy.Symbol(f"theta_{k}"))(k % self.size)
            c += CNOT(0, 1)
        return c


class FixedAnsatz(StubAnsatz):
    """has no parametrized form"""
    supports_parametrized_circuits = False

    @property
    @overrides
    def number_of_params(self):
        return self._number_of_layers

    @overrides
    def _generate_circuit(self, parameters=None):
        if parameters is None:
            raise ValueError("parameters needed")
        c = Circuit([], n_qubits=self.size)
        for k, p in enumerate(parameters):
            c += RX(float(p))(k % self.size)
        return c


QAOAStubAnsatz = QAOAFarhiAnsatz = WarmStartQAOAAnsatz = StubAnsatz


def noise(data):
    return {"noise": data}


def averaging(backend, estimation_tasks, factor=1):
    LOG.append(("estimate", len(estimation_tasks), factor))
    return estimate_expectation_values_by_averaging(backend, estimation_tasks)


def allocate(estimation_tasks, number_of_shots=4):
    return [EstimationTask(t.operator, t.circuit, number_of_shots) for t in estimation_tasks]


def prior_taker(estimation_tasks, prior_expectation_values=None, bonus=0):
    LOG.append(("prior", None if prior_expectation_values is None else prior_expectation_values.values.tolist(), bonus))
    return list(estimation_tasks)


def weights():
    """a sampler of edge weights"""
    while True:
        yield 2.5
