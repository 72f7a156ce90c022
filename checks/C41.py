"""C41: contracts accept every sound implementation and reject the faults they name."""
import itertools
from collections import defaultdict

import numpy as np
from scipy.optimize import OptimizeResult

from mc.core import Space
from zquantum.core.estimation import calculate_exact_expectation_values
from zquantum.core.history.recorder import recorder
from zquantum.core.interfaces import optimizer_test as ot
from zquantum.core.interfaces.estimator_contract import ESTIMATOR_CONTRACTS
from zquantum.core.interfaces.functions import CallableWithGradient
from zquantum.core.interfaces.mock_objects import MockNestedOptimizer, MockOptimizer
from zquantum.core.interfaces.optimizer import NestedOptimizer
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import IsingOperator

ID = "C41"
TECHNIQUE = "exhaustive enumeration of implementations with every combination of the faults the contracts are for, every contract run on each"
ASSUMPTIONS = ["exact estimators stand for the estimators whose repeated results are equal"]
LENGTH = ["none", "drop first", "drop last", "twice", "nothing"]
ORDER = ["none", "reversed", "rotated", "swapped"]
VALUES = ["terms", "total", "weighted"]
FAULTS = ["coefficients", "constants"]


def value(task, backend, style, faults):
    e = np.real(calculate_exact_expectation_values(backend, [task])[0].values)
    rows = []
    for (t, c), v in zip(task.operator.terms.items(), e):
        if t == () and "constants" in faults:
            continue
        rows.append(v / c if "coefficients" in faults and t != () else v)
    if style == "terms":
        return np.array(rows)
    return np.array([sum(rows)]) * (0.5 if style == "weighted" else 1)


def estimator(length, order, style, faults):
    def estimate(backend, estimation_tasks):
        r = [ExpectationValues(value(t, backend, style, faults)) for t in estimation_tasks]
        if order == "reversed":
            r.reverse()
        elif order == "rotated":
            r = r[1:] + r[:1]
        elif order == "swapped" and len(r) > 1:
            r[0], r[1] = r[1], r[0]
        return {"none": r, "drop first": r[1:], "drop last": r[:-1], "twice": r * 2, "nothing": []}[length]
    return estimate


def verdict(contract, *args):
    try:
        return bool(contract(*args))
    except (IndexError, AttributeError, KeyError):
        return False


def gen_est(tier):
    yield "library"
    for l, o, s in itertools.product(LENGTH, ORDER, VALUES):
        for f in ([], ["coefficients"], ["constants"], FAULTS):
            yield [l, o, s, f]


def step_est(ctx, case):
    ctx.state(repr(case))
    est = calculate_exact_expectation_values if case == "library" else estimator(*case)
    l, o, s, f = ["none", "none", "terms", []] if case == "library" else case
    ctx.check(len(ESTIMATOR_CONTRACTS) >= 4, "there are contracts for the number, the order, coefficients and constants")
    for rounds in (1, 2):
        ctx.step(len(ESTIMATOR_CONTRACTS))
        got = {c.__name__: verdict(c, est) for c in ESTIMATOR_CONTRACTS}
        names = sorted(got)
        if l == "none" and o == "none" and not f:
            ctx.check(all(got.values()), lambda: "a sound estimator is rejected: %s" % (got,))
        else:
            ctx.check(not all(got.values()), lambda: "an estimator with faults %s is accepted" % (case,))
        # each contract on its own
        for n in names:
            if "each_task" in n:
                ctx.eq(got[n], l == "none", n)
            elif "order" in n and l == "none":
                ctx.eq(got[n], o == "none", n)
            elif "coefficients" in n and l == "none":
                ctx.eq(got[n], "coefficients" not in f, n)
            elif "constant" in n and l == "none":
                ctx.eq(got[n], "constants" not in f, n)


HISTORY = ["right", "always", "never", "default"]
FIELDS = ["none"] + list(ot.MANDATORY_OPTIMIZATION_RESULT_FIELDS) + ["gradient_history"]


class Nested(NestedOptimizer):
    inner_optimizer = None
    recorder = recorder

    def __init__(self, history, missing):
        super().__init__()
        self.history, self.missing = history, missing

    def minimize(self, cost_function_factory, initial_params, keep_history=None):
        keep = {"right": bool(keep_history), "always": True, "never": False, "default": keep_history is None or keep_history}[self.history]
        return self._minimize(cost_function_factory, initial_params, keep)

    def _minimize(self, cost_function_factory, initial_params, keep_history=False):
        f = cost_function_factory(iteration_id=0)
        r = recorder(f) if keep_history else f
        v = r(initial_params)
        gradient = []
        if isinstance(f, CallableWithGradient):
            r.gradient(initial_params)
            gradient = r.gradient.history if keep_history else []
        out = OptimizeResult(opt_value=v, opt_params=initial_params, nfev=1, nit=1, history=r.history if keep_history else [], gradient_history=gradient)
        if self.missing != "none":
            del out[self.missing]
        return out


def factory(iteration_id):
    return lambda x: float(sum(x**2))


def gen_opt(tier):
    for k in (1, 2, 5):
        yield ["mock", k]
    for h, m in itertools.product(HISTORY, FIELDS):
        yield [h, m]


def step_opt(ctx, case):
    ctx.state(repr(case))
    if case[0] == "mock":
        opt = MockNestedOptimizer(inner_optimizer=MockOptimizer(), n_iters=case[1])
        h, m = "right", "none"
    else:
        h, m = case
        opt = Nested(h, m)
    for rounds in (1, 2):
        got = []
        for c in ot.NESTED_OPTIMIZER_CONTRACTS:
            ctx.step()
            for start in ([2.0, 3.0], [1 / 3, -2 / 7], [0.1], [1.0, 1e-9, 2.5]):
                x = np.array(start)
                got.append((c.__name__, verdict(c, opt, factory, x)))
                ctx.eq(list(x), start, "initial parameters")
        sound = h == "right" and m == "none"
        ctx.check(all(v for _, v in got) == sound, lambda: "an optimizer with history kept as in %s and missing field %s: %s" % (h, m, got))


SPACES = [
    Space("estimators", gen_est, step_est, "the exact estimator of the library and every combination of 5 lengths, 4 orders, 3 forms of values and 4 sets of ignored coefficients and constants, contracts run twice"),
    Space("nested-optimizers", gen_opt, step_opt, "the bundled nested optimizer with 1, 2, 5 iterations and every combination of 4 ways to keep histories and 6 missing fields, contracts run twice"),
]
