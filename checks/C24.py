"""C24: optimizer drivers report the true optimum and complete histories."""
import itertools
import warnings

import numpy as np

from mc import ref, rng
from mc.core import Space
from zquantum.core.gradients import finite_differences_gradient
from zquantum.core.history.recorder import recorder
from zquantum.core.history.save_conditions import every_nth
from zquantum.core.interfaces.functions import FunctionWithGradient, function_with_gradient
from zquantum.core.interfaces.mock_objects import MockNestedOptimizer, MockOptimizer, mock_cost_function
from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, extend_histories, optimization_result

ID = "C24"
ASSUMPTIONS = ["optimizers follow the documented pattern: they call the function they are given and report histories with construct_history_info", "random increments are one of three scripted answers"]
TECHNIQUE = "exhaustive enumeration of optimizers, cost functions, recorders, iteration counts and random answers on the real drivers against a log of the calls actually made"


class Log:
    """a family of cost functions that log every evaluation"""

    def __init__(self):
        self.calls, self.grads = [], []

    def make(self, kind, shift=0.0):
        def value(p):
            p = np.asarray(p, dtype=float)
            return float(np.sum((p - shift) ** 2) + 0.25 * len(p))

        def f(params):
            self.calls.append((list(map(float, params)), value(params)))
            return value(params)

        def fa(params, store_artifact=None):
            self.calls.append((list(map(float, params)), value(params)))
            if store_artifact:
                store_artifact("n", len(params), force=len(params) > 1)
            return value(params)

        def g(params):
            v = 2 * (np.asarray(params, dtype=float) - shift)
            self.grads.append((list(map(float, params)), v.tolist()))
            return v

        return {"plain": f, "art": fa, "grad": FunctionWithGradient(f, g), "artgrad": function_with_gradient(fa, g)}[kind]


class Grid(Optimizer):
    """evaluates the cost function on a line of candidates"""

    def __init__(self, n, recorder=None):
        super().__init__(*([] if recorder is None else [recorder]))
        self.n = n

    def _minimize(self, cost_function, initial_params, keep_history=False):
        best = None
        for i in range(self.n):
            p = np.array(initial_params, dtype=float) + 0.5 * i
            v = cost_function(p)
            if best is None or v < best[0]:
                best = (v, p.copy())
            p += 100  # the optimizer reuses its buffer
        return optimization_result(opt_value=best[0], opt_params=best[1], nit=self.n, nfev=self.n, **construct_history_info(cost_function, keep_history))


class Descent(Optimizer):
    """gradient descent that supplies a gradient to functions without one"""

    def __init__(self, n, recorder=None):
        super().__init__(*([] if recorder is None else [recorder]))
        self.n = n

    def _preprocess_cost_function(self, cost_function):
        if hasattr(cost_function, "gradient"):
            return cost_function
        return function_with_gradient(cost_function, finite_differences_gradient(cost_function))

    def _minimize(self, cost_function, initial_params, keep_history=False):
        p = np.array(initial_params, dtype=float)
        v, nfev = cost_function(p), 1
        for _ in range(self.n):
            p -= 0.25 * cost_function.gradient(p)
            v, nfev = cost_function(p), nfev + 1
        return optimization_result(opt_value=v, opt_params=p, nit=self.n, nfev=nfev, **construct_history_info(cost_function, keep_history))


class Still(Optimizer):
    """returns its initial parameters"""

    def _minimize(self, cost_function, initial_params, keep_history=False):
        v = cost_function(np.array(initial_params, dtype=float))
        return optimization_result(opt_value=v, opt_params=initial_params, nit=0, nfev=1, **construct_history_info(cost_function, keep_history))


RECORDERS = {"default": None, "nth2": lambda f: recorder(f, every_nth(2)), "late": lambda f: recorder(f, lambda value, params, call_number: call_number >= 1)}
KEEP = {"default": lambda n: True, "nth2": lambda n: n % 2 == 0, "late": lambda n: n >= 1}
INITS = [[], [0.0], [1.5, -2.0], [3, 4, 5], [1, 2]]
DT = ["float", "int"]


def make_opt(name, rec):
    kind, n = name
    r = RECORDERS[rec]
    if kind == "mock":
        return MockOptimizer() if r is None else MockOptimizer(r)
    if kind == "grid":
        return Grid(n, r)
    if kind == "descent":
        return Descent(n, r)
    return Still() if r is None else Still(r)


OPTS = [["mock", 0], ["still", 0], ["grid", 1], ["grid", 2], ["grid", 3], ["grid", 5], ["descent", 0], ["descent", 1], ["descent", 3]]


def gen_single(tier):
    for opt in OPTS:
        for kind in ("plain", "art", "grad", "artgrad"):
            for rec in ("default", "nth2", "late"):
                for i, init in enumerate(INITS):
                    for keep in (0, 1):
                        for dt in DT:
                            for again in ([0, 1] if tier == "quick" else [0, 1, 2]):
                                if opt[0] == "mock" and len(init) * (again + 1) > (4 if tier == "quick" else 6):
                                    continue
                                yield [opt, kind, rec, i, keep, dt, again]


POINTS = (0.0, 0.5, 1 - 2 ** -40)


def expected_history(calls, keep, kind):
    arts = kind in ("art", "artgrad")
    out = []
    for n, (p, v) in enumerate(calls):
        forced = arts and len(p) > 1
        if keep(n) or forced:
            out.append([n, p, v] + ([{"n": len(p)}] if arts else []))
    return out


def shown(history):
    return [[e.call_number, np.asarray(e.params, dtype=float).tolist(), np.asarray(e.value).tolist()] + ([dict(e.artifacts)] if hasattr(e, "artifacts") else []) for e in history]


def step_single(ctx, case):
    opt, kind, rec, ii, keep, dt, again = case
    warnings.simplefilter("ignore")
    init = np.array(INITS[ii], dtype=float if dt == "float" else int)
    ctx.state(repr(case[:-1]))

    def body(ch):
        log = Log()
        f = log.make(kind)
        o = make_opt(opt, rec)
        for _ in range(again + 1):  # repeated runs of one optimizer do not mix histories
            log.calls.clear()
            log.grads.clear()
            start = init.copy()
            with rng.closed(ch, POINTS) as (g, p):
                res = o.minimize(f, start, keep_history=bool(keep)) if keep else o.minimize(f, start)
            calls, grads = list(log.calls), list(log.grads)
            ctx.step()
            ctx.eq(start.tolist(), init.tolist(), "initial parameters after the run")
            opt_params = np.asarray(res.opt_params, dtype=float)
            value = float(np.sum(opt_params ** 2) + 0.25 * len(opt_params))
            ctx.check(abs(res.opt_value - value) < 1e-9, lambda: "optimal value %r is not the cost %r at the optimal parameters" % (res.opt_value, value))
            own = calls if not (opt[0] == "descent" and kind in ("plain", "art")) else own_calls(calls, len(init), opt[1])
            ctx.eq(res.nfev, len(own), "number of evaluations")
            ctx.check(any(np.allclose(p, opt_params) for p, _ in own), "the optimal parameters were never evaluated")
            if opt[0] == "grid":
                ctx.check(all(res.opt_value <= v + 1e-12 for _, v in own), "a recorded call is better than the reported optimum")
            if opt[0] == "mock":
                want = [[x + d for x, d in zip(init.tolist(), ds)] for ds in itertools.product(POINTS, repeat=len(init))]
                ctx.check(any(np.allclose(opt_params, w) for w in want), lambda: "mock optimizer moved to %s" % opt_params)
            if keep:
                ctx.eq(shown(res.history), expected_history(own, KEEP[rec], kind), "history")
                has_grad = "grad" in kind or opt[0] == "descent"
                ctx.eq("gradient_history" in res, has_grad, "gradient history is reported")
                if has_grad:
                    n_grads = opt[1] if opt[0] == "descent" else 0
                    gh = [e for e in res.gradient_history]
                    ctx.eq([e.call_number for e in gh], [n for n in range(n_grads) if KEEP[rec](n)], "calls of the gradient")
                    if "grad" in kind:
                        ctx.eq(shown(gh), [[n, p, v] for n, (p, v) in enumerate(grads) if KEEP[rec](n)], "gradient history")
                    else:
                        for e in gh:
                            ctx.check(np.allclose(np.asarray(e.value), 2 * np.asarray(e.params)), "gradient history")
            else:
                ctx.eq(list(res.history), [], "history without keeping it")
                ctx.check("gradient_history" not in res or list(res.gradient_history) == [], "gradient history without keeping it")

    n = sum(1 for _ in ref.explore_choices(body))
    ctx.outcome("%s:%s" % (opt[0], n))


def own_calls(calls, n, iters):
    """the optimizer's own evaluations among those made by finite differences (2 n per gradient)"""
    out, i = [calls[0]], 1
    for _ in range(iters):
        i += 2 * n
        out.append(calls[i])
        i += 1
    return out


# ---- nested --------------------------------------------------------------------------------
def gen_nested(tier):
    its = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    for opt in OPTS:
        for n in its:
            for rec in ("default", "nth2", "late"):
                for i in (0, 1, 2, 3):
                    for keep in (0, 1):
                        for kinds in itertools.product(("plain", "grad", "art"), repeat=n) if n <= 3 else [("plain",) * n, ("grad",) * n, ("plain", "grad", "plain", "grad"), ("grad", "plain", "plain", "grad")]:
                            if "art" in kinds and len(set(kinds)) > 1 and tier == "quick":
                                continue
                            if opt[0] == "mock" and len(INITS[i]) * n + n * (n - 1) // 2 > (4 if tier == "quick" else 5):
                                continue
                            yield [opt, n, rec, i, keep, list(kinds)]


def step_nested(ctx, case):
    opt, n, rec, ii, keep, kinds = case
    warnings.simplefilter("ignore")
    init = np.array(INITS[ii], dtype=float)
    ctx.state(repr(case))

    def body(ch):
        logs, made = [], []

        def factory(i):
            made.append(i)
            logs.append(Log())
            return logs[-1].make(kinds[i], shift=float(i))

        o = make_opt(opt, "default")
        nested = MockNestedOptimizer(o, n) if rec == "default" else MockNestedOptimizer(o, n, recorder=RECORDERS[rec])
        ctx.check(nested.inner_optimizer is o, "inner optimizer")
        start = init.copy()
        with rng.closed(ch, POINTS):
            res = nested.minimize(factory, start, keep_history=bool(keep)) if keep else nested.minimize(factory, start)
        ctx.step(n)
        ctx.eq(start.tolist(), init.tolist(), "initial parameters after the run")
        ctx.eq(made, list(range(n)), "iterations the factory was asked for")
        params, want_h, want_g, nfev = init.tolist(), [], [], 0
        for i in range(n):
            if i:
                params = params + [1.0]
            calls, grads = logs[i].calls, logs[i].grads
            if opt[0] == "descent" and kinds[i] != "grad":
                own = own_calls(calls, len(params), opt[1])
            else:
                own = calls
            first = own[0][0]
            if opt[0] == "mock":
                ctx.check(len(first) == len(params) and all(min(abs(a - b - d) for d in POINTS) < 1e-9 for a, b in zip(first, params)), "parameters passed to the inner run")
            else:
                ctx.eq(first, params, "parameters passed to the inner run")
            nfev += len(own)
            # everything the recorder of the nested optimizer sees
            want_h += expected_history(calls, KEEP[rec], kinds[i])
            if kinds[i] == "grad":
                want_g += [[k, p, v] for k, (p, v) in enumerate(grads) if KEEP[rec](k)]
            if opt[0] == "grid":
                params = min(own, key=lambda c: c[1])[0]
            elif opt[0] == "still":
                params = first
            else:
                params = own[-1][0]
        ctx.eq(np.asarray(res.opt_params, dtype=float).tolist(), params, "final parameters")
        last = logs[-1].make("plain", shift=float(n - 1))(np.array(params))
        ctx.check(abs(res.opt_value - last) < 1e-9, "optimal value")
        ctx.eq(res.nfev, nfev, "number of evaluations")
        ctx.eq(res.nit, n, "number of iterations")
        if keep:
            ctx.eq(shown(res.history), want_h, "history")
            if "grad" in kinds:
                ctx.eq(shown(res.gradient_history), want_g, "gradient history")
            else:
                ctx.check("gradient_history" not in res or list(res.gradient_history) == [], "gradient history of functions without gradients")
        else:
            ctx.eq(list(res.history), [], "history without keeping it")
            ctx.check("gradient_history" not in res or list(res.gradient_history) == [], "gradient history without keeping it")

    k = sum(1 for _ in ref.explore_choices(body))
    ctx.outcome("nested:%s:%d:%s" % (opt[0], n, k))


# ---- histories helpers -----------------------------------------------------------------------
def gen_helpers(tier):
    depth = 3 if tier == "quick" else 4
    for n in range(0, depth + 1):
        for seq in itertools.product([[k, c, g] for k in ("plain", "art", "grad", "artgrad") for c in (0, 1, 2) for g in ((0, 1) if "grad" in k else (0,))], repeat=n):
            if n >= 3 and len({s[0] for s in seq}) > 2:
                continue
            yield [[list(s) for s in seq]]


def step_helpers(ctx, case):
    (seq,) = case
    ctx.state(repr(seq))
    hist = {"history": []}
    want, wantg, anyg = [], [], False
    for kind, c, g in seq:
        log = Log()
        r = recorder(log.make(kind))
        for i in range(c):
            r(np.array([float(i)]))
        for i in range(g):
            r.gradient(np.array([float(i)]))
        before = {k: shown(v) for k, v in hist.items()}
        info = construct_history_info(r, True)
        ctx.eq(sorted(info), ["gradient_history", "history"] if "grad" in kind else ["history"], "entries of the history information")
        ctx.eq(construct_history_info(r, False), {"history": []}, "history information that is not kept")
        new = extend_histories(r, hist)
        ctx.step()
        ctx.eq({k: shown(v) for k, v in hist.items()}, before, "histories passed to be extended")
        want = want + expected_history(log.calls, lambda n: True, kind)
        if "grad" in kind:
            anyg = True
            wantg = wantg + [[n, p, v] for n, (p, v) in enumerate(log.grads)]
        ctx.eq(shown(new["history"]), want, "extended history")
        ctx.eq("gradient_history" in new, anyg, "extended gradient history exists")
        if anyg:
            ctx.eq(shown(new["gradient_history"]), wantg, "extended gradient history")
        ctx.eq(shown(r.history), expected_history(log.calls, lambda n: True, kind), "history of the recorder")
        hist = new
    for x in ([0.5], [1.0, -2.0], [], [3, 4]):
        ctx.check(abs(mock_cost_function(np.array(x)) - sum(v * v for v in x)) < 1e-12, "mock cost function")
    res = optimization_result(opt_value=1.5, opt_params=np.array([2.0]), history=[1], extra="e")
    ctx.eq([res.opt_value, res.opt_params.tolist(), res["history"], res.extra], [1.5, [2.0], [1], "e"], "optimization result")


# ---- long runs --------------------------------------------------------------------------------
INITS.append([0.25 * i - 1 for i in range(12)])
INITS.append([1 / 3])
INITS.append([-2e-9, 3 + 1 / 7])
RECORDERS["nth5"] = lambda f: recorder(f, every_nth(5))
KEEP["nth5"] = lambda n: n % 5 == 0
LONG_OPTS = [["grid", 12], ["grid", 35], ["descent", 11], ["descent", 23], ["still", 0]]


def gen_long(tier):
    for opt in LONG_OPTS:
        for rec in ("default", "nth2", "nth5", "late"):
            for keep in (0, 1):
                for kind in ("plain", "art", "grad", "artgrad"):
                    for i in (1, 2, 5):
                        yield ["single", [opt, kind, rec, i, keep, "float", 2]]
                for n in (5, 12) if tier == "quick" else (5, 8, 12, 25):
                    for kinds in (["plain"] * n, ["grad"] * n, (["plain", "grad", "grad"] * n)[:n], ["art"] * n, (["grad"] * 2 + ["plain"] * n)[:n]):
                        for i in (0, 2):
                            yield ["nested", [opt if opt[0] != "grid" else ["grid", 7], n, rec, i, keep, kinds]]


def step_long(ctx, case):
    (step_single if case[0] == "single" else step_nested)(ctx, case[1])


# ---- initial points that are no short decimals --------------------------------------------------
def gen_thirds(tier):
    for opt in OPTS:
        for i in (6, 7):
            for keep in (0, 1):
                for kind in ("plain", "grad", "art"):
                    yield ["single", [opt, kind, "default", i, keep, "float", 2]]
                    for n in (1, 2, 3):
                        if opt[0] == "mock" and len(INITS[i]) * n + n * (n - 1) // 2 > 3:
                            continue
                        yield ["nested", [opt, n, "default", i, keep, [kind] * n]]


SPACES = [
    Space("single", gen_single, step_single, "9 optimizers x 4 kinds of cost functions x 3 recorders x 5 initial points x kept or not x repeated runs x every scripted random answer"),
    Space("nested", gen_nested, step_nested, "9 inner optimizers x at most 3 (thorough 4) iterations x recorders x initial points x sequences of kinds of cost functions x every scripted random answer"),
    Space("helpers", gen_helpers, step_helpers, "all sequences of at most 3 (thorough 4) recorders with 0..2 calls extending one set of histories"),
    Space("long", gen_long, step_long, "runs of 12-35 evaluations and 11-23 gradients on up to 12 parameters, repeated three times; 5 and 12 (25) iterations of nested optimizers"),
        Space("thirds", gen_thirds, step_long, "9 optimizers, alone and nested, from points with many decimals and tiny ones"),
]
