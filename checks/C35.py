"""C35: ordering of symbols and translation of expressions."""
import cmath
import itertools
import operator

import sympy

from checks import zqfresh, zqfreshlist
from mc.core import Space
from zquantum.core.circuits.symbolic import natural_key, natural_key_fixed_names_order, natural_key_revlex
from zquantum.core.circuits.symbolic.expressions import ExpressionDialect, FunctionCall, Symbol, reduction
from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
from zquantum.core.circuits.symbolic.translations import translate_expression

ID = "C35"
ASSUMPTIONS = ["values on branch cuts and at poles are not compared", "names that differ only in leading zeros of a number are tied"]
TECHNIQUE = "exhaustive enumeration of pairs of names and of expression trees, compared with a digit-group comparator and direct complex evaluation"

ALPHABET = ["a", "b", "_", "0", "2", "10"]


def groups(name):
    """alternating text and numbers, starting and ending with text"""
    out = [""]
    for ch in name:
        if ch.isdecimal():
            if isinstance(out[-1], str):
                out.append(int(ch))
            else:
                out[-1] = 10 * out[-1] + int(ch)
        else:
            if not isinstance(out[-1], str):
                out.append("")
            out[-1] += ch
    if not isinstance(out[-1], str):
        out.append("")
    return out


def before(a, b):
    for x, y in zip(a, b):
        if x != y:
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def names(tier):
    top = 4 if tier == "quick" else 5
    out = {""}
    for k in range(1, top + 1):
        out.update("".join(x) for x in itertools.product(ALPHABET, repeat=k))
    out |= {"theta_1", "theta_10", "theta_2", "beta_1", "beta_12", "θ_3", "x1²", "²", "x_٣", "x_3", "T 1", "1.5", "-1", "gamma_1_2", "gamma_10_1"}
    out.discard("")
    return sorted(out)


def gen_pairs(tier):
    n = len(names(tier))
    for i in range(0, n, 40):
        yield [i]


def sign(a, b):
    return -1 if a < b else 1 if b < a else 0


def step_pairs(ctx, case):
    all_ = names("thorough" if ctx.thorough else "quick")
    keys = [(natural_key(sympy.Symbol(x)), natural_key_revlex(sympy.Symbol(x)), groups(x)) for x in all_]
    for i in range(case[0], min(case[0] + 40, len(all_))):
        ctx.state(all_[i])
        k, r, g = keys[i]
        ctx.check(natural_key(sympy.Symbol(all_[i], positive=True)) == k, "assumptions about a symbol change its place")
        for j, (k2, r2, g2) in enumerate(keys):
            ctx.step()
            ctx.check(sign(k, k2) == before(g, g2) and (k == k2) == (g == g2), lambda: f"order of {all_[i]!r} and {all_[j]!r}")
            ctx.check(sign(r, r2) == before(g[::-1], g2[::-1]) and (r == r2) == (g == g2), lambda: f"reversed order of {all_[i]!r} and {all_[j]!r}")


def gen_sort(tier):
    pool = ["beta_2", "beta_10", "theta_1", "theta_2", "a", "gamma_0_1", "x10y2", "x2y10"]
    for r in range(1, 5 if tier == "quick" else 6):
        for s in itertools.combinations(pool, r):
            yield list(s)


def step_sort(ctx, case):
    ctx.state(tuple(case))
    want = [sorted((groups(x) for x in case)), sorted((groups(x)[::-1] for x in case))]
    for perm in itertools.permutations(case):
        syms = [sympy.Symbol(x) for x in perm]
        ctx.step()
        ctx.eq([groups(s.name) for s in sorted(syms, key=natural_key)], want[0], f"sorted {perm}")
        ctx.eq([groups(s.name)[::-1] for s in sorted(syms, key=natural_key_revlex)], want[1], f"sorted {perm} last group first")


def gen_fixed(tier):
    for order in itertools.permutations(["gamma", "beta", "a", "b1"]):
        for r in range(0, 5):
            yield [list(order[:r])]


def step_fixed(ctx, case):
    (order,) = case
    ctx.state(tuple(order))
    for form in (list, tuple):
        key = natural_key_fixed_names_order(form(order))
        syms = [(i, w, sympy.Symbol(f"{n}_{i}")) for i in (0, 2, 10, 11, 100) for w, n in enumerate(order)]
        for (i, w, a), (j, v, b) in itertools.product(syms, repeat=2):
            ctx.step()
            ctx.check(sign(key(a), key(b)) == before((i, w), (j, v)), f"order of {a} and {b} with names {order}")
        for bad in ("delta_1", "gamma", "gamma_1_2", "gamma_x", "_1"):
            ctx.raises(lambda: key(sympy.Symbol(bad)), f"name {bad} with order {order}", (KeyError, ValueError))


# ---- expressions ------------------------------------------------------------------------------------
LEAVES = [("x",), ("y",), (2,), (-1,), ("third",), (0.5,), ("i",), (-3,)]
UNARY = ["cos", "sin", "exp", "sqrt", "tan", "neg"]
BINARY = ["add", "sub", "mul", "div", "pow"]
POINTS = [{"x": 0.7, "y": 1.3}, {"x": 2.25, "y": -0.6 + 0.8j}, {"x": -0.35 + 1.1j, "y": 0.4 - 0.9j}]
SY = {"x": sympy.Symbol("x"), "y": sympy.Symbol("y"), "third": sympy.Rational(1, 3), "i": sympy.I}
FUN = {"cos": sympy.cos, "sin": sympy.sin, "exp": sympy.exp, "sqrt": sympy.sqrt, "tan": sympy.tan, "neg": operator.neg, "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "pow": operator.pow}
NUM = {"cos": cmath.cos, "sin": cmath.sin, "exp": cmath.exp, "sqrt": cmath.sqrt, "tan": cmath.tan, "neg": operator.neg, "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv, "pow": operator.pow}

NATIVE = ExpressionDialect(
    symbol_factory=lambda s: s.name, number_factory=complex,
    known_functions={k: (reduction(NUM[k]) if k in ("add", "mul") else NUM[k]) for k in NUM if k != "neg"})


def evaluator(point):
    return NATIVE._replace(symbol_factory=lambda s: complex(point[s.name]))


TEXT = ExpressionDialect(
    symbol_factory=lambda s: f"v[{s.name!r}]", number_factory=lambda n: f"({n!r})",
    known_functions={**{k: (lambda *a, k=k: f"F[{k!r}](" + ", ".join(a) + ")") for k in ("cos", "sin", "exp", "sqrt", "tan")},
                     "add": lambda *a: "(" + " + ".join(a) + ")", "mul": lambda *a: "(" + " * ".join(a) + ")", "sub": lambda a, b: f"({a} - {b})", "div": lambda a, b: f"({a} / {b})", "pow": lambda a, b: f"({a} ** {b})"})


def to_sympy(t):
    if len(t) == 1:
        return SY[t[0]] if isinstance(t[0], str) else sympy.Float(t[0]) if isinstance(t[0], float) else sympy.Integer(t[0])
    return FUN[t[0]](*[to_sympy(a) for a in t[1:]])


def value(t, p):
    if len(t) == 1:
        return complex(p[t[0]]) if t[0] in p else 1 / 3 if t[0] == "third" else 1j if t[0] == "i" else complex(t[0])
    return NUM[t[0]](*[value(a, p) for a in t[1:]])


def near_cut(t, p):
    """a root or power of (nearly) a negative real or tiny number somewhere in the tree: the branch depends on rounding"""
    if len(t) == 1:
        return False
    if t[0] in ("sqrt", "pow"):
        z = value(t[1], p)
        if abs(z) < 1e-6 or (z.real < 0 and abs(z.imag) < 1e-6):
            return True
    return any(near_cut(a, p) for a in t[1:])


def sym_value(e, p):
    """value of a sympy expression, node by node"""
    if isinstance(e, sympy.Symbol):
        return complex(p[e.name])
    if e is sympy.I:
        return 1j
    if not isinstance(e, sympy.Basic) or e.is_Number:
        return complex(e)
    args = [sym_value(a, p) for a in e.args]
    if e.is_Add:
        return sum(args)
    if e.is_Mul:
        out = 1
        for a in args:
            out *= a
        return out
    if e.is_Pow:
        return cmath.sqrt(args[0]) if e.args[1] == sympy.Rational(1, 2) else args[0] ** args[1]
    return NUM[e.func.__name__](*args)


def check_tree(ctx, t):
    try:
        e = to_sympy(t)
    except (ZeroDivisionError, OverflowError):
        return
    if e.has(sympy.zoo, sympy.nan, sympy.oo, sympy.E, sympy.pi, sympy.cosh, sympy.sinh, sympy.tanh, sympy.re, sympy.im, sympy.Abs, sympy.Mod, sympy.sec, sympy.csc, sympy.cot, sympy.log):
        return
    ctx.step()
    tree = expression_from_sympy(e)
    ctx.outcome(type(tree).__name__ + (tree.name if isinstance(tree, FunctionCall) else ""))
    back = translate_expression(tree, SYMPY_DIALECT)
    text = translate_expression(tree, TEXT)
    for p in POINTS:
        try:
            if near_cut(t, p):
                continue
            want = value(t, p)
            if abs(want) > 1e6:
                continue
            got = [translate_expression(tree, evaluator(p)), eval(text, {"v": {k: complex(v) for k, v in p.items()}, "F": NUM}), sym_value(back, p)]
        except (ZeroDivisionError, OverflowError):
            continue
        for g in got:
            ctx.check(abs(g - want) < 1e-7 * max(1.0, abs(want)), lambda: f"{e} at {p} is {want}, its translation {tree} is {g}")
    if back != e:
        ctx.check(sympy.sympify(back).free_symbols <= e.free_symbols, lambda: f"{e} became {back}")


def level1():
    out = list(LEAVES)
    for u in UNARY:
        out += [(u, a) for a in LEAVES]
    for b in BINARY:
        out += [(b, a, c) for a in LEAVES for c in LEAVES]
    return out


def gen_trees(tier):
    n = len(level1())
    for i in range(n):
        yield [i]


def step_trees(ctx, case):
    l1 = level1()
    t = l1[case[0]]
    ctx.state(t)
    check_tree(ctx, t)
    for u in UNARY:
        check_tree(ctx, (u, t))
    for leaf in l1 if ctx.thorough and case[0] % 7 == 0 else LEAVES:
        for b in BINARY:
            check_tree(ctx, (b, t, leaf))
            check_tree(ctx, (b, leaf, t))


X, Y = SY["x"], SY["y"]
Z = sympy.Symbol("z")
UNEVALUATED = [
    (sympy.Add(X, sympy.Mul(-1, Y, evaluate=False), evaluate=False), lambda x, y: x - y),
    (sympy.Add(sympy.Mul(-1, Y, evaluate=False), X, evaluate=False), lambda x, y: x - y),
    (sympy.Add(X, sympy.Mul(-1, Y, X, evaluate=False), evaluate=False), lambda x, y: x - y * x),
    (sympy.Add(X, sympy.Mul(Y, -1, evaluate=False), evaluate=False), lambda x, y: x - y),
    (sympy.Add(X, sympy.Mul(-2, Y, evaluate=False), evaluate=False), lambda x, y: x - 2 * y),
    (sympy.Add(X, X, Y, evaluate=False), lambda x, y: 2 * x + y),
    (sympy.Add(X, Y, sympy.Mul(-1, X, evaluate=False), evaluate=False), lambda x, y: y),
    (sympy.Mul(X, sympy.Pow(Y, -1), evaluate=False), lambda x, y: x / y),
    (sympy.Mul(sympy.Pow(Y, -1), X, evaluate=False), lambda x, y: x / y),
    (sympy.Mul(X, sympy.Pow(Y, -2), evaluate=False), lambda x, y: x / y ** 2),
    (sympy.Mul(X, sympy.Pow(Y, sympy.Float(-1.0)), evaluate=False), lambda x, y: x / y),
    (sympy.Mul(sympy.Pow(X, -1), sympy.Pow(Y, -1), evaluate=False), lambda x, y: 1 / (x * y)),
    (sympy.Mul(X, Y, sympy.Pow(X, -1), evaluate=False), lambda x, y: y),
    (sympy.Mul(2, 3, X, evaluate=False), lambda x, y: 6 * x),
    (sympy.Pow(X, sympy.Float(0.5)), lambda x, y: cmath.sqrt(x)),
    (sympy.Pow(X, sympy.Rational(-1, 2)), lambda x, y: 1 / cmath.sqrt(x)),
    (sympy.Pow(X, sympy.Rational(3, 2)), lambda x, y: x * cmath.sqrt(x)),
    (sympy.Pow(X, 0, evaluate=False), lambda x, y: 1.0),
    (sympy.Pow(X, 1, evaluate=False), lambda x, y: x),
    (sympy.Pow(2, X), lambda x, y: 2 ** x),
    (sympy.Pow(-X, -1), lambda x, y: -1 / x),
    (-X - Y, lambda x, y: -x - y),
    (-(X + Y), lambda x, y: -x - y),
    (X + 1 - Y - 2 * sympy.cos(Y - X), lambda x, y: x + 1 - y - 2 * cmath.cos(y - x)),
    (sympy.Float(0.25) * sympy.I * X - sympy.Rational(7, 3), lambda x, y: 0.25j * x - 7 / 3),
    (sympy.Integer(10 ** 12) * X, lambda x, y: 10 ** 12 * x),
    (sympy.Float("1e-9") * X, lambda x, y: 1e-9 * x),
    (sympy.Rational(1, 2), lambda x, y: 0.5), (sympy.Integer(0), lambda x, y: 0), (sympy.Integer(1), lambda x, y: 1), (sympy.Integer(-1), lambda x, y: -1), (3, lambda x, y: 3), (2.5, lambda x, y: 2.5), (1 + 2j, lambda x, y: 1 + 2j),
]
REJECTED = [sympy.pi, sympy.Derivative(sympy.Function("f")(X), X), X < Y, sympy.Matrix([X]), sympy.Eq(X, Y), sympy.true, sympy.Integral(X, X), sympy.Piecewise((X, Y > 0), (Y, True)), "x", None, sympy.pi * X, sympy.cos(X + sympy.pi * Y), sympy.E, X ** sympy.pi]
UNKNOWN = [sympy.log(X), sympy.sinh(X), 1 + sympy.acos(Y), sympy.Function("f")(X), sympy.cos(sympy.log(X)), sympy.Abs(X), sympy.atan2(X, Y), X / sympy.log(Y), sympy.gamma(X)]


def gen_special(tier):
    for i in range(len(UNEVALUATED)):
        yield ["value", i]
    for i in range(len(REJECTED)):
        yield ["reject", i]
    for i in range(len(UNKNOWN)):
        yield ["unknown", i]
    yield ["dialects", 0]


def step_special(ctx, case):
    kind, i = case
    ctx.state((kind, i))
    ctx.step()
    if kind == "value":
        e, f = UNEVALUATED[i]
        tree = expression_from_sympy(e)
        for p in POINTS:
            want = f(complex(p["x"]), complex(p["y"]))
            got = [translate_expression(tree, evaluator(p)), sym_value(translate_expression(tree, SYMPY_DIALECT), p), eval(translate_expression(tree, TEXT), {"v": {k: complex(v) for k, v in p.items()}, "F": NUM})]
            for g in got:
                ctx.check(abs(g - want) < 1e-9 * max(1, abs(want)), f"{e} at {p} translates to {g} instead of {want}")
    elif kind == "reject":
        ctx.raises(lambda: expression_from_sympy(REJECTED[i]), f"{REJECTED[i]}", NotImplementedError)
    elif kind == "unknown":
        ctx.raises(lambda: translate_expression(expression_from_sympy(UNKNOWN[i]), SYMPY_DIALECT), f"{UNKNOWN[i]}", ValueError)
    else:
        for fn in sorted(SYMPY_DIALECT.known_functions):
            d = NATIVE._replace(known_functions={k: v for k, v in NATIVE.known_functions.items() if k != fn})
            args = (Symbol("x"), 2) if fn in BINARY else (Symbol("x"),)
            ctx.raises(lambda: translate_expression(FunctionCall(fn, args), d), f"{fn} in a dialect without it", ValueError)
            ctx.raises(lambda: translate_expression(FunctionCall("add", (1, FunctionCall(fn, args))), d), f"nested {fn} in a dialect without it", ValueError)
        for k in range(1, 6):
            args = tuple(0.5 * (j + 2) for j in range(k))
            for form in (tuple, list, iter):
                s, m = FunctionCall("add", form(args)), FunctionCall("mul", form(args))
                ctx.check(abs(translate_expression(s, NATIVE) - sum(args)) < 1e-9, f"sum of {k} numbers")
                prod = 1.0
                for a in args:
                    prod *= a
                ctx.check(abs(translate_expression(m, NATIVE) - prod) < 1e-9, f"product of {k} numbers")
        nested = FunctionCall("sub", (FunctionCall("div", (Symbol("x"), 4)), FunctionCall("pow", (2, FunctionCall("sqrt", (Symbol("y"),))))))
        for p in POINTS:
            ctx.check(abs(translate_expression(nested, evaluator(p)) - (p["x"] / 4 - 2 ** cmath.sqrt(p["y"]))) < 1e-9, "nested calls")
        ctx.eq(translate_expression(Symbol("theta"), SYMPY_DIALECT), sympy.Symbol("theta"), "symbol")
        for v in (0, -2, 1.5, 2 - 1j, True):
            ctx.eq(translate_expression(v, SYMPY_DIALECT), v, "number")


FRESH = zqfresh.Fresh(zqfreshlist.C35)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("pairs", gen_pairs, step_pairs, "all pairs of names of up to 4 (5) pieces from a, b, _, 0, 2, 10 and 15 others, read from both ends"),
    Space("sorting", gen_sort, step_sort, "all orders of up to 4 (5) of 8 names"),
    Space("fixed-names", gen_fixed, step_fixed, "all orders of up to four names, five indices, unknown and malformed names"),
    Space("trees", gen_trees, step_trees, "all expressions of one operation over 8 leaves, joined by any operation with any leaf on either side (thorough: a seventh of them with every one-operation expression), at 3 points in 3 dialects"),
    Space("special", gen_special, step_special, "34 unevaluated and constant expressions, 14 unsupported ones, 9 unknown functions, dialects without each function"),
]
