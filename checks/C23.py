"""C23: recorders are transparent and their histories list exactly the calls that satisfy the save condition."""
import copy
import itertools

import numpy as np

from mc.core import Space
from zquantum.core.history.example_functions import Function2, Function5, function_1, function_3, function_4, function_6, sum_of_squares
from zquantum.core.history.recorder import recorder
from zquantum.core.history.save_conditions import always, every_nth
from zquantum.core.interfaces.functions import FunctionWithGradient, function_with_gradient, has_store_artifact_param

ID = "C23"
ASSUMPTIONS = ["functions do not modify their parameters", "copies share or own the history as Python's shallow and deep copies do"]
TECHNIQUE = "exhaustive enumeration of call, gradient, mutation, attribute and copy histories on real recorders, compared after each step with a list model"


class Boom(Exception):
    pass


class Target:
    """plain callable object with an attribute, a call log and failures"""

    def __init__(self, scale):
        self.scale = scale

    def __call__(self, params):
        if params[0] == 99:
            raise Boom("boom")
        return self.scale * (params[0] + 10 * params[1])


class TargetGrad(Target):
    def gradient(self, params):
        if params[0] == 99:
            raise Boom("boom")
        return self.scale * np.array([1.0, 10.0]) + 0 * params


class TargetArt:
    def __init__(self, scale):
        self.scale = scale

    def __call__(self, params, store_artifact=None):
        if store_artifact and params[0] == 1:
            store_artifact("sum", float(params[0] + params[1]))
            store_artifact("again", 1, force=False)
        if store_artifact and params[0] == 2:
            store_artifact("a", 1.5)
            store_artifact("forced", float(params[1]), force=True)
            store_artifact("a", 2.5)
        if params[0] == 99:
            raise Boom("boom")
        return self.scale * (params[0] + 10 * params[1])


class TargetArtGrad(TargetArt):
    def gradient(self, params):
        if params[0] == 99:
            raise Boom("boom")
        return self.scale * np.array([1.0, 10.0]) + 0 * params


class TargetArtGradArt(TargetArt):
    """the gradient stores artifacts too"""

    def gradient(self, params, store_artifact=None):
        if params[0] == 99:
            raise Boom("boom")
        if store_artifact:
            store_artifact("g", float(params[0]), force=params[0] == 1)
        return self.scale * np.array([1.0, 10.0]) + 0 * params


class TargetGradCalls(Target):
    """the gradient calls the function"""

    def gradient(self, params):
        if params[0] == 99:
            raise Boom("boom")
        e = np.eye(2)
        return np.array([self(params + e[0]) - self(params), self(params + e[1]) - self(params)])


KINDS = {"simple": Target, "grad": TargetGrad, "art": TargetArt, "artgrad": TargetArtGrad, "artgradart": TargetArtGradArt, "gradcalls": TargetGradCalls}
ARTS = {(1, False): {"sum": None, "again": 1}}
PARAMS = [(1.0, 2.0), (2.0, -1.0), (3.0, 0.5)]

CONDS = {
    "always": (always, lambda v, p, n: True),
    "default": (None, lambda v, p, n: True),
    "nth1": (every_nth(1), lambda v, p, n: True),
    "nth2": (every_nth(2), lambda v, p, n: n % 2 == 0),
    "nth3": (every_nth(3), lambda v, p, n: n % 3 == 0),
    "value": (lambda v, p, n: bool(np.sum(v) > 20), lambda v, p, n: bool(np.sum(v) > 20)),
    "params": (lambda value, params, call_number: bool(params[0] == 2), lambda v, p, n: p[0] == 2),
    "never": (lambda v, p, n: False, lambda v, p, n: False),
    "number": (lambda v, p, n: n in (1, 2), lambda v, p, n: n in (1, 2)),
}


class MRec:
    """reference recorder"""

    def __init__(self, target, kind, role):
        self.target, self.kind, self.role = target, kind, role  # target: {"scale": s} shared by reference
        self.n = 0
        self.history = []
        self.grad = None


def m_new(kind, scale):
    t = {"scale": scale}
    m = MRec(t, kind, "f")
    if "grad" in kind:
        m.grad = MRec(t, kind, "g")
    return m


def m_value(m, p):
    if m.role == "f":
        return m.target["scale"] * (p[0] + 10 * p[1])
    return [m.target["scale"] * 1.0, m.target["scale"] * 10.0]


def m_artifacts(m, p):
    if m.role == "f" and m.kind.startswith("art"):
        if p[0] == 1:
            return {"sum": p[0] + p[1], "again": 1}, False
        if p[0] == 2:
            return {"a": 2.5, "forced": p[1]}, True
        return {}, False
    if m.role == "g" and m.kind == "artgradart":
        return {"g": p[0]}, p[0] == 1
    return None, False


def m_call(m, p, cond):
    v = m_value(m, p)
    arts, forced = m_artifacts(m, p)
    if cond(np.array(v), p, m.n) or forced:
        m.history.append([m.n, list(p), v] + ([arts] if arts is not None else []))
    m.n += 1
    return v


def m_copy(m, deep, memo=None):
    memo = {} if memo is None else memo
    t = m.target
    if deep:
        t = memo.setdefault(id(m.target), dict(m.target))
    c = MRec(t, m.kind, m.role)
    c.n = m.n
    c.history = copy.deepcopy(m.history) if deep else m.history
    c.grad = m_copy(m.grad, deep, memo) if m.grad is not None else None
    return c


def observe(r):
    out = []
    for e in r.history:
        row = [e.call_number, np.asarray(e.params).tolist(), np.asarray(e.value).tolist()]
        if hasattr(e, "artifacts"):
            row.append(dict(e.artifacts))
        out.append(row)
    return out


def compare(ctx, r, m, what):
    ctx.eq(observe(r), [list(h) for h in m.history], what + ": history")
    ctx.eq(r.call_number, m.n, what + ": number of calls")
    if m.grad is not None:
        compare(ctx, r.gradient, m.grad, what + ".gradient")
    if m.role == "f":
        ctx.eq(r.scale, m.target["scale"], what + ": attribute of the target")


ALPHA = [["call", 0], ["call", 1], ["call", 2], ["raise"], ["grad", 0], ["grad", 1], ["graise"], ["mut"], ["set"], ["copy"], ["deep"], ["swap"], ["scribble"]]


def alphabet(kind):
    return [o for o in ALPHA if "grad" in kind or o[0] not in ("grad", "graise")]


def gen(tier):
    depth = 4 if tier == "quick" else 5
    for d in range(1, depth + 1):
        for kind in KINDS:
            conds = CONDS if d < depth - 1 or tier == "thorough" and d < depth else ("nth2", "value")
            if d == depth:
                conds = ("nth2",) if kind in ("artgradart", "grad") else ()
            for cond in conds:
                for first in alphabet(kind):
                    yield [kind, cond, d, first]


def step(ctx, case):
    kind, cond, d, first = case
    for rest in itertools.product(alphabet(kind), repeat=d - 1):
        run(ctx, kind, cond, [first, *rest])


def run(ctx, kind, condname, ops):
    # canonical: no swap/copy noise at the end only; every history is executed
    real_cond, cond = CONDS[condname]
    target = KINDS[kind](2.0)
    real = recorder(target) if real_cond is None else recorder(target, real_cond)
    recs = [real, None]
    models = [m_new(kind, 2.0), None]
    cur, last = 0, None
    ctx.state((kind, condname, tuple(map(tuple, ops))))
    for op in ops:
        r, m = recs[cur], models[cur]
        ctx.step()
        if op[0] in ("call", "grad"):
            p = np.array(PARAMS[op[1]])
            f, g = (r, m) if op[0] == "call" else (r.gradient, m.grad)
            got = f(p)
            want = m_call(g, PARAMS[op[1]], cond)
            ctx.eq(np.asarray(got).tolist(), want, "value returned by %s" % op[0])
            ctx.eq(p.tolist(), list(PARAMS[op[1]]), "parameters after the call")
            last = p
        elif op[0] in ("raise", "graise"):
            f = r if op[0] == "raise" else r.gradient
            try:
                f(np.array([99.0, 0.0]))
                ctx.fail("the exception of the target is lost")
            except Boom:
                pass
        elif op[0] == "mut":
            if last is not None:
                last *= -7
        elif op[0] == "set":
            r.scale = m.target["scale"] + 1
            m.target["scale"] += 1
        elif op[0] == "copy":
            recs[1 - cur], models[1 - cur] = copy.copy(r), m_copy(m, False)
            ctx.check(type(recs[1 - cur]) is type(r), "copy of a recorder has another type")
        elif op[0] == "deep":
            recs[1 - cur], models[1 - cur] = copy.deepcopy(r), m_copy(m, True)
            ctx.check(type(recs[1 - cur]) is type(r), "copy of a recorder has another type")
        elif op[0] == "scribble":
            # the caller changes what the last entries hold
            for f, g in ((r, m), (r.gradient, m.grad)) if m.grad is not None else ((r, m),):
                if g.history:
                    f.history[-1].params[1] = g.history[-1][1][1] = -555.0
                    if len(g.history[-1]) == 4:
                        f.history[-1].artifacts["scribble"] = g.history[-1][3]["scribble"] = 1
        elif op[0] == "swap":
            if recs[1 - cur] is not None:
                cur = 1 - cur
        for i in (0, 1):
            if recs[i] is not None:
                compare(ctx, recs[i], models[i], "recorder %d" % i)
    ctx.outcome("%s:%d" % (kind, len(models[cur].history)))


# ---- example functions and wrappers ---------------------------------------------------------
def gen_examples(tier):
    depth = 3 if tier == "quick" else 5
    for which in ("sum", "f1", "f2", "f3", "f4", "f5", "f6", "ufunc", "lambda", "fwg", "fwga"):
        for cond in ("always", "nth2", "nth3", "value"):
            for d in range(1, depth + 1):
                for ops in itertools.product((0, 1, 2), repeat=d):
                    for g in itertools.product((0, 1), repeat=d) if which in ("f1", "f2", "f5", "f6", "fwg", "fwga") else [(0,) * d]:
                        yield [which, cond, list(ops), list(g)]


VECS = [[1.0, 2.0, 3.0], [-2.0, 0.5, 4.0], [0.0, 1.0, -1.0]]
INTS = [5, 8, 3]


def ex_model(which, x, isgrad):
    """(value, artifacts or None, forced)"""
    if which in ("f3", "f4"):
        return 2 * x, {"bitstring": format(x, "b")}, which == "f4" and x % 2 == 0
    if which == "sum":
        return sum(v * v for v in x), None, False
    if which == "ufunc":
        return [v * v for v in x], None, False
    if which == "lambda":
        return x[0] - x[2], None, False
    if which == "f1":
        return ([2 * x[0] - x[1], -x[0]], None, False) if isgrad else (x[0] ** 2 - x[0] * x[1], None, False)
    if which == "f2":
        return ([3 * (1 - x[1]), -3 * x[0], 6 * x[2]], None, False) if isgrad else (3 * (x[0] - x[0] * x[1] + x[2] ** 2), None, False)
    if which in ("f5", "f6", "fwga"):
        a = 5
        if isgrad:
            return [a * x[1] * x[2], a * x[0] * x[2], a * x[0] * x[1]], None, False
        return a * x[0] * x[1] * x[2], ({"something": x[0] + x[1]} if x[0] > 0 else {}), False
    if which == "fwg":
        return ([2 * v for v in x], None, False) if isgrad else (sum(v * v for v in x), None, False)
    raise KeyError(which)


def step_examples(ctx, case):
    which, cond, ops, grads = case
    real_cond, mcond = CONDS[cond]
    f = {"sum": sum_of_squares, "f1": function_1, "f2": Function2(3), "f3": function_3, "f4": function_4, "f5": Function5(5), "f6": function_6, "ufunc": np.square,
         "lambda": lambda params: params[0] - params[2], "fwg": function_with_gradient(sum_of_squares, lambda p: 2 * np.asarray(p)),
         "fwga": function_with_gradient(Function5(5), Function5(5).gradient)}[which]
    ctx.state(tuple(map(str, case)))
    ctx.eq(has_store_artifact_param(f), which in ("f3", "f4", "f5", "f6", "fwga"), "function stores artifacts")
    r = recorder(f, real_cond)
    hist, n = {0: [], 1: []}, {0: 0, 1: 0}
    for o, g in zip(ops, grads):
        x = INTS[o] if which in ("f3", "f4") else np.array(VECS[o])
        xm = INTS[o] if which in ("f3", "f4") else VECS[o]
        want, arts, forced = ex_model(which, xm, g)
        got = (r.gradient if g else r)(x)
        direct = (f.gradient if g else f)(x)
        ctx.step()
        ctx.eq(np.asarray(direct).tolist(), want, "value of the bare function")
        ctx.eq(np.asarray(got).tolist(), want, "value through the recorder")
        if mcond(np.array(want), x if which in ("f3", "f4") else xm, n[g]) or forced:
            hist[g].append([n[g], xm, want] + ([arts] if arts is not None else []))
        n[g] += 1
        if which not in ("f3", "f4"):
            x += 100
        ctx.eq(observe(r), hist[0], "history")
        if hasattr(r, "gradient") and which in ("f1", "f2", "f5", "f6", "fwg", "fwga"):
            ctx.eq(observe(r.gradient), hist[1], "history of the gradient")
    ctx.outcome("%s:%s" % (which, cond))


# ---- recorders of recorders -----------------------------------------------------------------
def gen_nested(tier):
    depth = 3 if tier == "quick" else 5
    conds = ("always", "nth2", "nth3", "params", "never")
    for which in ("f3", "f4", "sum", "art", "artgrad", "grad", "f6"):
        for c1 in conds:
            for c2 in conds:
                for wrap in (0, 1) if which in ("art", "f6", "sum") else (0,):
                    for d in range(1, depth + 1):
                        yield [which, c1, c2, wrap, d]


def step_nested(ctx, case):
    which, c1, c2, wrap, d = case
    ctx.state(tuple(case))
    for ops in itertools.product((0, 1, 2), repeat=d):
        f = {"f3": function_3, "f4": function_4, "sum": sum_of_squares, "art": TargetArt(2.0), "artgrad": TargetArtGrad(2.0), "grad": TargetGrad(2.0), "f6": function_6}[which]
        ints = which in ("f3", "f4")
        arts = which in ("f3", "f4", "art", "artgrad", "f6")

        def pcond(name):
            return (lambda value, params, call_number: params == 8, lambda v, p, n: p == 8) if name == "params" and ints else CONDS[name]

        inner = recorder(f, pcond(c1)[0])
        middle = function_with_gradient(inner, lambda p: np.asarray(p)) if wrap else inner
        outer = recorder(middle, pcond(c2)[0])
        h = [[], []]
        for n, o in enumerate(ops):
            if ints:
                x = xm = INTS[o]
                want, a, forced = ex_model(which, x, 0)
            elif which in ("sum", "f6"):
                xm = VECS[o]
                x = np.array(xm)
                want, a, forced = ex_model(which, xm, 0)
            else:
                xm = list(PARAMS[o])
                x = np.array(xm)
                m = m_new(which, 2.0)
                want = m_value(m, xm)
                a, forced = m_artifacts(m, xm)
            got = outer(x)
            ctx.step()
            ctx.eq(np.asarray(got).tolist(), want, "value through two recorders")
            for k, c in enumerate((c1, c2)):
                if pcond(c)[1](want, xm, n) or forced:
                    h[k].append([n, xm, want] + ([a] if a is not None else []))
            ctx.eq(observe(inner), h[0], "history of the inner recorder")
            ctx.eq(observe(outer), h[1], "history of the outer recorder")
            ctx.eq([inner.call_number, outer.call_number], [n + 1, n + 1], "numbers of calls")
        ctx.eq(has_store_artifact_param(outer), arts, "recorder stores artifacts")


# ---- long histories, and three recorders in a row --------------------------------------------
CONDS["nth7"] = (every_nth(7), lambda v, p, n: n % 7 == 0)
CONDS["nth10"] = (every_nth(10), lambda v, p, n: n % 10 == 0)
PATTERNS = [[["call", 0]], [["call", 0], ["call", 1], ["call", 2]], [["call", 0], ["grad", 1], ["call", 2], ["mut"]], [["raise"], ["call", 0], ["grad", 0], ["grad", 1]], [["call", 2], ["set"], ["call", 1], ["raise"], ["mut"], ["grad", 1], ["graise"]],
            [["call", 0]] * 6 + [["copy"], ["swap"]], [["call", 1], ["grad", 0]] * 5 + [["deep"], ["call", 0], ["swap"]], [["grad", 0]] * 9 + [["call", 0]]]


def gen_long(tier):
    for kind in KINDS:
        for cond in ("always", "nth3", "nth7", "nth10", "number", "params", "value"):
            for i in range(len(PATTERNS)):
                yield [kind, cond, i, 33 if tier == "quick" else 130]


def step_long(ctx, case):
    kind, cond, i, n = case
    ops = [o for o in PATTERNS[i] if "grad" in kind or o[0] not in ("grad", "graise")]
    run(ctx, kind, cond, (ops * n)[:n])


def gen_three(tier):
    conds = ("always", "nth2", "nth3", "nth7", "never")
    for c in itertools.product(conds, repeat=3):
        for which in ("f4", "sum", "art"):
            yield [which, list(c), 16 if tier == "quick" else 60]


def step_three(ctx, case):
    which, cs, n = case
    ctx.state((which, tuple(cs)))
    f = {"f4": function_4, "sum": sum_of_squares, "art": TargetArt(2.0)}[which]
    recs = [f]
    for c in cs:
        recs.append(recorder(recs[-1], CONDS[c][0]))
    recs = recs[1:]
    h = [[], [], []]
    for j in range(n):
        o = (j * j + j // 3) % 3
        if which == "f4":
            x = xm = INTS[o] + j
            want, a, forced = ex_model(which, x, 0)
        elif which == "sum":
            xm = VECS[o]
            x = np.array(xm)
            want, a, forced = ex_model(which, xm, 0)
        else:
            xm = list(PARAMS[o])
            x = np.array(xm)
            m = m_new(which, 2.0)
            want = m_value(m, xm)
            a, forced = m_artifacts(m, xm)
        got = recs[-1](x)
        ctx.step()
        ctx.eq(np.asarray(got).tolist(), want, "value through three recorders")
        for k, c in enumerate(cs):
            if CONDS[c][1](want, xm, j) or forced:
                h[k].append([j, xm, want] + ([a] if a is not None else []))
    for k in range(3):
        ctx.eq(observe(recs[k]), h[k], "history of recorder %d of three" % k)


# ---- functions that call their own recorder ----------------------------------------------------
def gen_reentrant(tier):
    depth = 3 if tier == "quick" else 4
    for cond in ("always", "nth2", "nth3", "nth7", "never"):
        for arts in (0, 1):
            for branch in itertools.product((0, 1, 2), repeat=depth):
                for calls in (1, 2, 3):
                    yield [cond, arts, list(branch), calls]


def step_reentrant(ctx, case):
    """every call is counted and numbered once, also when the function calls its recorder"""
    cond, arts, branch, calls = case
    ctx.state(repr(case))
    done = []

    def body(x):
        level = int(x[0])
        total = float(x[1])
        if level < len(branch):
            for k in range(branch[level]):
                total += rec(np.array([level + 1.0, 10.0 * x[1] + k + 1]))
        done.append((x.tolist(), total))
        return total

    def plain(x):
        return body(x)

    def storing(x, store_artifact=None):
        v = body(x)
        if store_artifact:
            store_artifact("level", float(x[0]))
        return v

    rec = recorder(storing if arts else plain, CONDS[cond][0])
    for c in range(calls):
        rec(np.array([0.0, 1.0 + c]))
        ctx.step()
        n = len(done)
        ctx.eq(rec.call_number, n, "number of calls")
        numbers = [e.call_number for e in rec.history]
        ctx.eq(sorted(numbers), [i for i in range(n) if CONDS[cond][1](0, None, i)], "numbers of the calls in the history")
        got = [(e.params.tolist(), e.value) for e in rec.history]
        ctx.check(len(set(map(str, got))) == len(got) and all(g in done for g in got), "entries that are no calls")
        if arts:
            ctx.check(all(e.artifacts["level"] == e.params[0] for e in rec.history), "artifacts of another call")


SPACES = [
    Space("histories", gen, step, "6 kinds of targets x save conditions x every history of at most 4 (thorough 5) of 13 operations (calls, failing calls, gradient calls, mutation of passed arrays and of recorded entries, attribute writes, copies)"),
    Space("examples", gen_examples, step_examples, "11 bundled or wrapped functions x 4 save conditions x every history of at most 3 (thorough 5) function and gradient calls over 3 arguments"),
    Space("nested", gen_nested, step_nested, "recorders of recorders of 7 functions x 5 x 5 save conditions x every history of at most 3 (thorough 5) calls over 3 arguments"),
    Space("long", gen_long, step_long, "histories of 33 (thorough 130) operations in 8 patterns on all kinds of targets x 7 save conditions"),
    Space("three", gen_three, step_three, "all triples of 5 save conditions on three recorders in a row, 16 (thorough 60) calls"),
        Space("reentrant", gen_reentrant, step_reentrant, "functions calling their own recorder up to 2 times at each of 3 (thorough 4) levels, 1-3 outer calls, 5 save conditions, with and without artifacts"),
]
