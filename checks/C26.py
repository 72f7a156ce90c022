"""C26: operator arithmetic is the arithmetic of the matrices the operators stand for."""
import copy
import hashlib
import itertools
import math

import numpy as np
import sympy

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc.core import Space
from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.utils import anticommutator, commutator
from zquantum.core.openfermion.utils.commutators import double_commutator

ID = "C26"
ASSUMPTIONS = ["terms with coefficients below 1e-8 are negligible by the library's convention; coefficients of the alphabet are zero, negligible or at least 1e-4",
               "mode 0 is the most significant bit of the reference matrices"]
TECHNIQUE = "exhaustive enumeration of Pauli and ladder products and of programs of in-place and functional operator statements against sparse reference matrices"

CLS = {"q": QubitOperator, "i": IsingOperator, "f": FermionOperator}
KIND = {"q": "q", "i": "q", "f": "f"}
N = 3

BASES = {
    "q": [[], [((), 1.0)], [(((0, "X"),), 1.0)], [(((0, "Y"), (1, "Z")), -0.5), ((), 2.0)], [(((1, "X"),), 1j), (((0, "Z"),), 2)], [(((0, "X"), (1, "Y"), (2, "Z")), 0.25), (((0, "X"),), -1.0)],
          [(((2, "Y"),), 1.5 - 1j)], [(((0, "Y"),), 3), (((0, "Z"), (1, "X")), 0.5), (((1, "Y"),), -2.0)]],
    "i": [[], [((), 2.0)], [(((0, "Z"),), 1.0)], [(((0, "Z"), (1, "Z")), -0.5), ((), 1)], [(((1, "Z"),), 1j), (((0, "Z"),), 2)], [(((0, "Z"), (1, "Z"), (2, "Z")), 0.25), (((2, "Z"),), -1.0)]],
    "f": [[], [((), 1.0)], [(((0, 1),), 1.0)], [(((1, 0),), -0.5), ((), 2.0)], [(((0, 1), (1, 0)), 1j), (((1, 1), (0, 0)), 2)], [(((2, 1), (1, 1), (1, 0)), 0.25), (((0, 0),), -1.0)],
          [(((0, 1), (0, 0)), 3), (((0, 0), (0, 1)), 1.5)], [(((0, 0), (0, 0)), 1.0), (((1, 0), (0, 0)), 1 - 1j)]],
}


def mk(kind, terms):
    op = CLS[kind]()
    for t, c in terms:
        op += CLS[kind](t, c)
    return op


def mat(kind, op, n=N):
    return om.terms(op.terms, n, KIND[kind])


def close(a, b):
    return om.dist(a, b) <= 1e-7 * max(1.0, om.size(b))


# ---- products of factors --------------------------------------------------------------------
def factors(kind, n):
    if kind == "q":
        return [(q, a) for q in range(n) for a in "XYZ"]
    if kind == "i":
        return [(q, "Z") for q in range(n)]
    return [(q, a) for q in range(n) for a in (1, 0)]


def text(kind, seq):
    if kind == "f":
        return " ".join("%d%s" % (q, "^" if a else "") for q, a in seq)
    return " ".join("%s%d" % (a, q) for q, a in seq)


def gen_products(tier):
    for kind in ("q", "i", "f"):
        for n, depth in ((2, 4), (3, 3)) if tier == "quick" else ((2, 5), (3, 4)):
            for d in range(0, depth + 1):
                for seq in itertools.product(factors(kind, n), repeat=d):
                    yield ["seq", kind, n, list(map(list, seq))]
    strings = list(itertools.product("IXYZ", repeat=3 if tier == "thorough" else 2))
    for a in strings:
        yield ["pairs", "q", len(a), "".join(a)]
    if tier == "quick":
        for a in itertools.product("IXYZ", repeat=3):
            yield ["pairs3", "q", 3, "".join(a)]


def step_products(ctx, case):
    what, kind, n, seq = case
    ctx.state((what, kind, n, repr(seq)))
    if what == "seq":
        fs = [tuple(f) for f in seq]
        want = om.scale(om.term(fs, n, KIND[kind]), 1.5 - 2j)
        forms = {"tuple": lambda: CLS[kind](tuple(fs), 1.5 - 2j), "list": lambda: CLS[kind](list(fs), 1.5 - 2j), "string": lambda: CLS[kind](text(kind, fs), 1.5 - 2j),
                 "bracket": lambda: CLS[kind]("1.5 [%s]" % text(kind, fs), 1 - 4j / 3)}
        if len(fs) == 1:
            forms["factor"] = lambda: CLS[kind](fs[0], 1.5 - 2j)
        first = None
        for how, f in forms.items():
            op = f()
            ctx.step()
            ctx.check(close(mat(kind, op, n), want), lambda: "%s from %s %r is %r" % (CLS[kind].__name__, how, fs, op.terms))
            ctx.check(len(op.terms) <= 1, "a product became a sum")
            first = first or op
            ctx.check(op == first, "forms of one product differ")
        # the same product by multiplication and by in-place multiplication
        prod, inpl = CLS[kind]((), 1.5 - 2j), CLS[kind]((), 1.5 - 2j)
        for x in fs:
            prod = prod * CLS[kind]((x,))
            inpl *= CLS[kind](x)
        ctx.step(2 * len(fs))
        ctx.check(close(mat(kind, prod, n), want) and close(mat(kind, inpl, n), want), lambda: "product of %r is %r" % (fs, prod.terms))
        ctx.eq(sorted(map(str, prod.terms)), sorted(map(str, first.terms)), "terms of the product")
        for t in prod.terms:
            if kind != "f":
                ctx.eq([q for q, _ in t], sorted({q for q, _ in t}), "qubits of a term")
        return
    a = seq
    ta = tuple((q, x) for q, x in enumerate(a) if x != "I")
    for b in itertools.product("IXYZ", repeat=len(a)) if what == "pairs" else [tuple(c) for c in ("XYZ", "ZXY", "YZX", "XXX", "IZY", "YIX", "ZZI", "YYY", "XIZ", "III")]:
        tb = tuple((q, x) for q, x in enumerate(b) if x != "I")
        p = QubitOperator(ta, 2.0) * QubitOperator(tb, 1j)
        ctx.step()
        ctx.check(close(mat("q", p, n), om.scale(om.mul(om.term(ta, n, "q"), om.term(tb, n, "q")), 2j)), lambda: "%s * %s is %r" % (ta, tb, p.terms))
        anti = sum(x != y and x != "I" and y != "I" for x, y in zip(a, b)) % 2
        ca, aa = commutator(QubitOperator(ta), QubitOperator(tb)), anticommutator(QubitOperator(ta), QubitOperator(tb))
        ctx.check((ca == QubitOperator()) == (not anti) and (aa == QubitOperator()) == bool(anti), lambda: "commutation of %s and %s" % (ta, tb))


# ---- programs --------------------------------------------------------------------------------
# every statement: (name, real effect on registers, model effect on matrices)
SCALARS = [2, -0.5, 1j, 1.5 - 2j]


def statements():
    S = {}

    def both(name, real, model):
        S[name] = (real, model)

    E = om.identity(N)
    both("a=a+b", lambda r: r.__setitem__(0, r[0] + r[1]), lambda m: m.__setitem__(0, om.add(m[0], m[1])))
    both("a=b+a", lambda r: r.__setitem__(0, r[1] + r[0]), lambda m: m.__setitem__(0, om.add(m[0], m[1])))
    both("a=a-b", lambda r: r.__setitem__(0, r[0] - r[1]), lambda m: m.__setitem__(0, om.add(m[0], m[1], -1)))
    both("a=b-a", lambda r: r.__setitem__(0, r[1] - r[0]), lambda m: m.__setitem__(0, om.add(m[1], m[0], -1)))
    both("a=a*b", lambda r: r.__setitem__(0, r[0] * r[1]), lambda m: m.__setitem__(0, om.mul(m[0], m[1])))
    both("a=b*a", lambda r: r.__setitem__(0, r[1] * r[0]), lambda m: m.__setitem__(0, om.mul(m[1], m[0])))
    both("a=[a,b]", lambda r: r.__setitem__(0, commutator(r[0], r[1])), lambda m: m.__setitem__(0, om.add(om.mul(m[0], m[1]), om.mul(m[1], m[0]), -1)))
    both("a={a,b}", lambda r: r.__setitem__(0, anticommutator(r[0], r[1])), lambda m: m.__setitem__(0, om.add(om.mul(m[0], m[1]), om.mul(m[1], m[0]))))
    both("a=-a", lambda r: r.__setitem__(0, -r[0]), lambda m: m.__setitem__(0, om.scale(m[0], -1)))
    both("a=a**2", lambda r: r.__setitem__(0, r[0] ** 2), lambda m: m.__setitem__(0, om.mul(m[0], m[0])))
    both("a=a**3", lambda r: r.__setitem__(0, r[0] ** 3), lambda m: m.__setitem__(0, om.mul(m[0], om.mul(m[0], m[0]))))
    both("a=a**0", lambda r: r.__setitem__(0, r[0] ** 0), lambda m: m.__setitem__(0, E))
    both("a=a**1", lambda r: r.__setitem__(0, r[0] ** 1), lambda m: None)
    both("a=2j*a", lambda r: r.__setitem__(0, 2j * r[0]), lambda m: m.__setitem__(0, om.scale(m[0], 2j)))
    both("a=a*3", lambda r: r.__setitem__(0, r[0] * 3), lambda m: m.__setitem__(0, om.scale(m[0], 3)))
    both("a=a*0.0", lambda r: r.__setitem__(0, r[0] * 0.0), lambda m: m.__setitem__(0, {}))
    both("a=a/4", lambda r: r.__setitem__(0, r[0] / 4), lambda m: m.__setitem__(0, om.scale(m[0], 0.25)))
    both("a=a/(1+1j)", lambda r: r.__setitem__(0, r[0] / (1 + 1j)), lambda m: m.__setitem__(0, om.scale(m[0], 1 / (1 + 1j))))
    both("a=a+1.5", lambda r: r.__setitem__(0, r[0] + 1.5), lambda m: m.__setitem__(0, om.add(m[0], E, 1.5)))
    both("a=2j+a", lambda r: r.__setitem__(0, 2j + r[0]), lambda m: m.__setitem__(0, om.add(m[0], E, 2j)))
    both("a=a-1", lambda r: r.__setitem__(0, r[0] - 1), lambda m: m.__setitem__(0, om.add(m[0], E, -1)))
    both("a=1-a", lambda r: r.__setitem__(0, 1 - r[0]), lambda m: m.__setitem__(0, om.add(E, m[0], -1)))

    def ip(f):
        def g(r):
            x = r[0]
            r[0] = f(x, r[1])
            if r[0] is not x:
                raise AssertionError("an in-place update made a new operator")
        return g

    import operator as o
    both("a+=b", ip(lambda x, y: o.iadd(x, y)), S["a=a+b"][1])
    both("a-=b", ip(lambda x, y: o.isub(x, y)), S["a=a-b"][1])
    both("a*=b", ip(lambda x, y: o.imul(x, y)), S["a=a*b"][1])
    both("a+=a", ip(lambda x, y: o.iadd(x, x)), lambda m: m.__setitem__(0, om.scale(m[0], 2)))
    both("a-=a", ip(lambda x, y: o.isub(x, x)), lambda m: m.__setitem__(0, {}))
    both("a*=a", ip(lambda x, y: o.imul(x, x)), S["a=a**2"][1])
    both("a*=-1", ip(lambda x, y: o.imul(x, -1)), S["a=-a"][1])
    both("a/=4", ip(lambda x, y: o.itruediv(x, 4)), S["a=a/4"][1])
    both("a+=1", ip(lambda x, y: o.iadd(x, 1)), lambda m: m.__setitem__(0, om.add(m[0], E)))
    both("a-=0.5", ip(lambda x, y: o.isub(x, 0.5)), lambda m: m.__setitem__(0, om.add(m[0], E, -0.5)))

    def compress(x, y):
        x.compress()
        return x

    both("compress", ip(compress), lambda m: None)
    both("swap", lambda r: r.reverse(), lambda m: m.reverse())
    both("b=copy", lambda r: r.__setitem__(1, copy.deepcopy(r[0])), lambda m: m.__setitem__(1, m[0]))
    both("b=a+0", lambda r: r.__setitem__(1, r[0] + 0), lambda m: m.__setitem__(1, m[0]))
    both("b=a*1", lambda r: r.__setitem__(1, r[0] * 1), lambda m: m.__setitem__(1, m[0]))
    both("a=sum", lambda r: r.__setitem__(0, sum([r[0], r[1], r[0]])), lambda m: m.__setitem__(0, om.add(om.scale(m[0], 2), m[1])))
    both("a=acc", lambda r: r.__setitem__(0, type(r[0]).accumulate([r[1], r[0], r[1]])), lambda m: m.__setitem__(0, om.add(om.scale(m[1], 2), m[0])))
    both("a=accs", lambda r: r.__setitem__(0, type(r[0]).accumulate((x for x in [r[1], r[1]]), start=r[0])), lambda m: m.__setitem__(0, om.add(om.scale(m[1], 2), m[0])))
    return S


ST = statements()
CORE = ["a=a+b", "a=b-a", "a=a*b", "a=[a,b]", "a=-a", "a=a**2", "a=2j*a", "a=a/4", "a=1-a", "a+=b", "a-=b", "a*=b", "a+=a", "a-=a", "a*=-1", "a+=1", "compress", "swap", "b=copy", "b=a+0", "a=sum", "a=acc"]


def gen_programs(tier):
    for kind in ("q", "i", "f"):
        nb = len(BASES[kind])
        for i in range(nb):
            for j in range(nb):
                for s in ST:
                    yield [kind, i, j, s, 2]
        pairs = [(3, 4), (5, 2), (4, 5)] if tier == "quick" else [(i, j) for i in range(2, nb) for j in range(2, nb) if i != j]
        for i, j in pairs:
            for s in CORE:
                yield [kind, i, j, s, 3]
        if tier == "thorough":
            for s in CORE:
                yield [kind, 3, 4, s, 4]


def run_program(ctx, kind, i, j, prog):
    regs = [mk(kind, BASES[kind][i]), mk(kind, BASES[kind][j])]
    mats = [om.terms(BASES[kind][i], N, KIND[kind]), om.terms(BASES[kind][j], N, KIND[kind])]
    for k, s in enumerate(prog):
        if k and max(map(om.size, mats)) > 1e4 or max(len(regs[0].terms), len(regs[1].terms)) > 40:
            return
        real, model = ST[s]
        real(regs)
        model(mats)
        ctx.step()
    for r in (0, 1):
        ctx.check(close(mat(kind, regs[r]), mats[r]), lambda: "after %s from %s the operator %s is %r" % (prog, [BASES[kind][i], BASES[kind][j]], "ab"[r], regs[r].terms))
    ctx.eq(type(regs[0]) is CLS[kind] and type(regs[1]) is CLS[kind], True, "type of the results")


def step_programs(ctx, case):
    kind, i, j, s, depth = case
    pool = ST if depth == 2 else CORE
    ctx.state((kind, i, j, s, depth))
    if depth == 2:
        run_program(ctx, kind, i, j, [s])
    for rest in itertools.product(pool, repeat=depth - 1):
        run_program(ctx, kind, i, j, [s, *rest])
    ctx.outcome("%s:%s" % (kind, s))


# ---- equality, iteration, queries -----------------------------------------------------------
COEFS = [None, 0.0, 1e-10, 1.0, 1.0 + 1e-10, 1.0001, -1.0, 1j, 1e5, 1e5 + 1e-5, 1e5 + 1.0, 1, 1e-4, 1 + 1e-10j]


def near(a, b):
    a, b = (0.0 if a is None else a), (0.0 if b is None else b)
    return abs(a - b) < 1e-8 * max(1, abs(a), abs(b))


TERMS = {"q": [((0, "X"),), ((0, "Y"), (2, "Z")), ()], "i": [((0, "Z"),), ((0, "Z"), (2, "Z")), ()], "f": [((0, 1),), ((2, 1), (0, 0)), ()]}


def gen_eq(tier):
    for kind in ("q", "f", "i"):
        for a in range(len(COEFS)):
            for b in range(len(COEFS)):
                yield [kind, a, b]


def raw(kind, coefs, order):
    op = CLS[kind]()
    for k in order:
        if coefs[k] is not None:
            op.terms[TERMS[kind][k]] = coefs[k]
    return op


def step_eq(ctx, case):
    kind, a, b = case
    ctx.state(tuple(case))
    for c, d in itertools.product(range(len(COEFS)), repeat=2):
        x, y = [COEFS[a], COEFS[b], 2.0], [COEFS[c], COEFS[d], 2.0]
        want = all(near(p, q) for p, q in zip(x, y))
        got = set()
        for o1, o2 in (((0, 1, 2), (0, 1, 2)), ((0, 1, 2), (2, 1, 0)), ((1, 0, 2), (2, 0, 1))):
            p, q = raw(kind, x, o1), raw(kind, y, o2)
            got |= {p == q, q == p, not (p != q), p.isclose(q)}
            ctx.step()
        ctx.eq(got, {want}, "equality of coefficients %s and %s" % (x, y))
    x = raw(kind, [COEFS[a], COEFS[b], None], (0, 1))
    for other in "qif":
        y = raw(other, [COEFS[a], COEFS[b], None], (0, 1))
        if other != kind:
            ctx.eq([x == y, x != y], [False, True], "operators of different types")
    ctx.eq([x == 1.0, x == "x", x is None], [False, False, False], "comparison with other objects")
    # queries
    small = [c for c in x.terms.values() if abs(c) >= 1e-8]
    ctx.eq(x.many_body_order(), max([len(t) for t, c in x.terms.items() if abs(c) >= 1e-8] or [0]), "many-body order")
    vals = [abs(c) for c in x.terms.values()]
    ctx.check(abs(x.induced_norm() - sum(vals)) < 1e-9 * max(1, sum(vals)), "induced norm of order 1")
    ctx.check(abs(x.induced_norm(2) - math.sqrt(sum(v * v for v in vals))) < 1e-9 * max(1, sum(vals)), "induced norm of order 2")
    ctx.eq(x.constant, 0.0, "constant")
    x.constant = 2.5
    ctx.eq([x.constant, x.terms[()]], [2.5, 2.5], "constant after setting it")
    for tol in (1e-8, 1e-3, 2.0):
        z = copy.deepcopy(x)
        z.compress(tol)
        for t in set(z.terms) | set(x.terms):
            v = x.terms.get(t, 0)
            w = (v.real if abs(v.real) > tol else 0) + (1j * v.imag if abs(v.imag) > tol else 0)
            ctx.check(abs(z.terms.get(t, 0) - w) < 1e-12, lambda: "compress(%g) of %r gives %r" % (tol, v, z.terms.get(t)))
            ctx.check(w != 0 or t not in z.terms, "compress kept a negligible term")


# ---- iteration ---------------------------------------------------------------------------------
def gen_iter(tier):
    pool = {k: [t for t in TERMS[k]] + [((1, {"q": "Y", "i": "Z", "f": 0}[k]),), ((0, {"q": "X", "i": "Z", "f": 1}[k]), (1, {"q": "X", "i": "Z", "f": 1}[k]))] for k in "qif"}
    for kind in "qif":
        for n in range(0, 6):
            for ts in itertools.permutations(range(5), n):
                if n >= 4 and tier == "quick" and ts[0] > ts[1]:
                    continue
                yield [kind, [[list(f) for f in pool[kind][t]] for t in ts]]


def step_iter(ctx, case):
    kind, ts = case
    ts = [tuple(tuple(f) for f in t) for t in ts]
    items = [(t, [1.0, -2.0, 0.5j, 3, 0.25 + 1j][k]) for k, t in enumerate(ts)]
    op = CLS[kind]()
    for t, c in items:
        op += CLS[kind](t, c)
    ctx.state(repr(case))
    single = [[(t, c)] for t, c in items]

    def show(x):
        return [(t, c) for t, c in x.terms.items()]

    ctx.eq([show(x) for x in op], single, "iteration")
    ctx.eq([show(x) for x in op], single, "second iteration")
    ctx.eq([(show(x), show(y)) for x in op for y in op], [(x, y) for x in single for y in single], "nested iteration")
    ctx.eq([(show(x), show(y)) for x, y in zip(op, op)], [(x, x) for x in single], "parallel iteration")
    i1, i2 = iter(op), iter(op)
    ctx.eq([show(next(i1)) for _ in items[:2]] + [show(next(i2)) for _ in items[:1]] + [show(x) for x in i1], single[:2] + single[:1] + single[2:], "interleaved iteration")
    ctx.eq([show(x) for x in op.get_operators()], single, "operators of single terms")
    total = sum((x for x in op), CLS[kind]())
    ctx.check(total == op, "sum of the terms")
    for g in range(1, 8):
        groups = list(op.get_operator_groups(g))
        ctx.step()
        ctx.eq(len(groups), min(g, len(items)), "number of groups")
        ctx.eq([i for x in groups for i in show(x)], [x for s in single for x in s], "terms of the groups")
        ctx.check(CLS[kind].accumulate(groups) == op, "sum of the groups")
        ctx.check(all(len(x.terms) >= 1 for x in groups), "empty group")
    ctx.eq(show(op), [x for s in single for x in s], "operator after iterating")
    ctx.eq([CLS[kind].zero().terms, CLS[kind].identity().terms], [{}, {(): 1.0}], "zero and identity")
    ctx.check(op * CLS[kind].identity() == op and CLS[kind].identity() * op == op and op + CLS[kind].zero() == op and op * CLS[kind].zero() == CLS[kind].zero(), "neutral elements")
    if kind == "q" and items:
        z = copy.deepcopy(op)
        z.renormalize()
        ctx.check(abs(z.induced_norm(2) - 1) < 1e-12 and z * op.induced_norm(2) == op, "renormalized operator")
    elif kind == "q":
        ctx.raises(op.renormalize, "renormalize zero", ZeroDivisionError)


# ---- symbolic coefficients -------------------------------------------------------------------
TH, PH = sympy.Symbol("theta"), sympy.Symbol("phi", real=True)
SYM = [TH, PH * 2, TH - PH, sympy.Integer(-2), sympy.I, -sympy.I, sympy.Rational(1, 3), sympy.Float(-0.5), TH * sympy.I, sympy.cos(PH), sympy.Integer(0), sympy.Float(1e-12), 2.0, 1j, -1 - sympy.I]
SUBS = {TH: 0.7, PH: -1.3}


def num(c):
    return complex(sympy.sympify(c).subs(SUBS)) if isinstance(c, sympy.Expr) else complex(c)


def gen_sym(tier):
    for i in range(len(SYM)):
        for j in range(len(SYM)):
            for kind in ("q", "f") if tier == "thorough" else ("q",):
                yield [kind, i, j]


def step_sym(ctx, case):
    kind, i, j = case
    ctx.state(tuple(case))
    t = TERMS[kind]

    def m(op):
        return om.terms([(a, num(c)) for a, c in op.terms.items()], N, KIND[kind])

    def fresh():
        return CLS[kind](t[0], SYM[i]) + CLS[kind](t[1], SYM[j]), CLS[kind](t[0], SYM[j]) + CLS[kind](t[2], 2.0)

    a, b = fresh()
    A = om.terms([(t[0], num(SYM[i])), (t[1], num(SYM[j]))], N, KIND[kind])
    B = om.terms([(t[0], num(SYM[j])), (t[2], 2.0)], N, KIND[kind])
    E = om.identity(N)
    for what, got, want in (("sum", a + b, om.add(A, B)), ("difference", a - b, om.add(A, B, -1)), ("product", a * b, om.mul(A, B)), ("scaled", a * SYM[j], om.scale(A, num(SYM[j]))),
                            ("scaled left", SYM[i] * b, om.scale(B, num(SYM[i]))), ("plus constant", a + SYM[j], om.add(A, E, num(SYM[j]))), ("power", a ** 2, om.mul(A, A)), ("negation", -a, om.scale(A, -1))):
        ctx.step()
        ctx.check(close(m(got), want), lambda: "%s of %s and %s is %s" % (what, SYM[i], SYM[j], got.terms))
    ctx.check(close(m(a), A) and close(m(b), B), "operands after arithmetic")
    if num(SYM[j]) != 0 and abs(num(SYM[j])) > 1e-6:
        ctx.check(close(m(a / SYM[j]), om.scale(A, 1 / num(SYM[j]))), "quotient")
    c = copy.deepcopy(a)
    c.compress()
    ctx.check(close(m(c), A), lambda: "compress of %s gives %s" % (a.terms, c.terms))
    same = sympy.simplify(sympy.sympify(SYM[i]) - sympy.sympify(SYM[j]))
    ctx.eq(CLS[kind](t[0], SYM[i]) == CLS[kind](t[0], SYM[j]), bool(not same.free_symbols and abs(complex(same)) < 1e-8), "equality of %s and %s" % (SYM[i], SYM[j]))


# ---- commutators and errors ---------------------------------------------------------------
def gen_comm(tier):
    nb = len(BASES["f"])
    for i, j, k in itertools.product(range(nb), repeat=3):
        yield ["double", i, j, k]
    hops = list(itertools.combinations(range(3), 2)) + [(1, 0), (2, 1), (2, 0)]
    for x in range(len(hops)):
        for y in range(len(hops)):
            for i in range(nb):
                yield ["hop", list(hops[x]), list(hops[y]), i]
    for kind in "qif":
        yield ["errors", kind, 0, 0]
    for i in range(5):
        for j in range(5):
            yield ["array", i, j, 0]


def step_comm(ctx, case):
    what, x, y, z = case
    ctx.state(repr(case))
    ctx.step()

    def C(a, b):
        return om.add(om.mul(a, b), om.mul(b, a), -1)

    if what == "double":
        ops = [mk("f", BASES["f"][k]) for k in (x, y, z)]
        keep = [copy.deepcopy(o) for o in ops]
        ms = [mat("f", o) for o in ops]
        got = double_commutator(*ops)
        ctx.check(close(mat("f", got), C(ms[0], C(ms[1], ms[2]))), "double commutator of %s" % ops)
        ctx.check(all(a == b for a, b in zip(ops, keep)), "operands changed")
        ctx.check(got.is_normal_ordered(), "double commutator is not normal ordered")
        ctx.check(close(mat("f", commutator(ops[0], ops[1])), C(ms[0], ms[1])), "commutator")
    elif what == "hop":
        op2 = FermionOperator(((x[0], 1), (x[1], 0)), 1.5) + FermionOperator(((x[1], 1), (x[0], 0)), 1.5)
        op3 = FermionOperator(((y[0], 1), (y[1], 0)), -2.0) + FermionOperator(((y[1], 1), (y[0], 0)), -2.0)
        op1 = mk("f", BASES["f"][z])
        i2, i3 = set(x), set(y)
        got = double_commutator(op1, op2, op3, i2, i3, True, True)
        ctx.eq([i2, i3], [set(x), set(y)], "index sets after the call")
        ctx.check(close(mat("f", got), C(mat("f", op1), C(mat("f", op2), mat("f", op3)))), "double commutator with hopping flags")
    elif what == "array":
        P = [np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]]), np.array([[0, -1j], [1j, 0]]), np.array([[1.0, 2], [3, 4]]), np.eye(2)]
        a, b = P[x], P[y]
        ka, kb = a.tolist(), b.tolist()
        ctx.check(np.allclose(commutator(a, b), a.dot(b) - b.dot(a)) and np.allclose(anticommutator(a, b), a.dot(b) + b.dot(a)), "commutators of arrays")
        ctx.eq([a.tolist(), b.tolist()], [ka, kb], "arrays")
    else:
        kind = x
        op, cls = mk(kind, BASES[kind][2]), CLS[kind]
        other = CLS["f" if kind != "f" else "q"]()
        for bad in ("x", None, [1], other, np.array([1, 2]), {}):
            for f in (lambda: op + bad, lambda: op - bad, lambda: op * bad, lambda: op / bad):
                if isinstance(bad, np.ndarray) and f.__code__.co_code is None:
                    continue
                ctx.raises(f, "arithmetic with %r" % (bad,), TypeError)
        for bad in (-1, 1.5, 1j, "2", None):
            ctx.raises(lambda: op ** bad, "power %r" % (bad,), ValueError)
        ctx.raises(lambda: op / 0, "division by zero", ZeroDivisionError)
        ctx.raises(lambda: commutator(op, other), "commutator of different types", TypeError)
        ctx.raises(lambda: anticommutator(op, other), "anticommutator of different types", TypeError)
        for bad in ("1", None, [1], "abc"):
            ctx.raises(lambda: cls((), bad), "coefficient %r" % (bad,), ValueError)
        for bad in (5, 1.5, {"a": 1}):
            ctx.raises(lambda: cls(bad), "term %r" % (bad,), ValueError)
        good = {"q": "X", "i": "Z", "f": 1}[kind]
        for bad in ([(-1, good)], [(0, "W")], [(0, 7)], [("0", good)], [(0, good, 1)], [(1.0, good)], [(0,)]):
            ctx.raises(lambda: cls(bad), "term %r" % (bad,), ValueError)
        ctx.raises(lambda: hash(op), "hash", TypeError)


# ---- many indices and many terms, against rules on dictionaries of terms --------------------
PAULI = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def d_mul(kind, a, b):
    out = {}
    for t, c in a.items():
        for u, d in b.items():
            if kind == "f":
                k, w = tuple(t) + tuple(u), c * d
            else:
                f, w = dict(t), c * d
                for q, p in u:
                    if q not in f:
                        f[q] = p
                    elif f[q] == p:
                        del f[q]
                    else:
                        ph, r = PAULI[(f[q], p)]
                        w, f[q] = w * ph, r
                k = tuple(sorted(f.items()))
            out[k] = out.get(k, 0) + w
    return out


def d_add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return out


def d_same(a, b):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 * max(1, abs(b.get(k, 0))) for k in set(a) | set(b))


def d_op(kind, seed, nterms, idx):
    """a sum of distinct terms over the indices idx, of lengths 0..5"""
    out = {}
    acts = {"q": "XYZ", "i": "Z", "f": (1, 0)}[kind]
    k = seed
    while len(out) < nterms:
        k += 1
        L = (k * 7 + seed) % 6
        digest = hashlib.sha256(b"%d %d" % (k, seed)).digest()
        mix = lambda j: digest[j]
        qs = [idx[mix(j) % len(idx)] for j in range(L)]
        if kind != "f":
            qs = sorted(set(qs))
        t = tuple((q, acts[mix(j + 9) % len(acts)]) for j, q in enumerate(qs))
        if t not in out:
            out[t] = [1.0, -0.5, 2, 1j, 0.25 - 1j, -3][(k + len(out)) % 6]
    return out


INDICES = {"dense": list(range(12)), "sparse": [0, 3, 9, 10, 11, 19, 100, 101, 1000], "high": [98, 99, 100, 110, 1010, 10, 2]}


def gen_large(tier):
    for kind in "qif":
        for idx in INDICES:
            for n in (1, 7, 30) if tier == "quick" else (1, 7, 30, 120):
                for seed in range(6 if tier == "quick" else 15):
                    if kind == "i" and n > 30:
                        continue
                    yield [kind, idx, n, seed]


def step_large(ctx, case):
    kind, idx, n, seed = case
    ctx.state(tuple(case))
    cls = CLS[kind]
    da, db = d_op(kind, seed, n, INDICES[idx]), d_op(kind, seed + 3, max(1, n // 2), INDICES[idx])

    def build(d):
        op = cls()
        for t, c in d.items():
            op += cls(t, c)
        return op

    a, b = build(da), build(db)
    parsed = cls()
    for t, c in da.items():
        parsed += cls(text(kind, t), c)
    spelled = cls(" + ".join("%r [%s]" % (complex(c), text(kind, t)) for t, c in da.items()))
    ctx.check(d_same(a.terms, da) and parsed == a and spelled == a, lambda: "operator from its parts, strings and one string: %r" % (da,))
    what = "%s of operators of %d and %d terms over %s" % ("%s", len(da), len(db), INDICES[idx])
    E = {(): 1.0}
    snap = (dict(a.terms), dict(b.terms))
    for name, f, want in (("sum", lambda: a + b, d_add(da, db)), ("difference", lambda: a - b, d_add(da, db, -1)), ("product", lambda: a * b, d_mul(kind, da, db)), ("product", lambda: b * a, d_mul(kind, db, da)),
                          ("commutator", lambda: commutator(a, b), d_add(d_mul(kind, da, db), d_mul(kind, db, da), -1)), ("anticommutator", lambda: anticommutator(a, b), d_add(d_mul(kind, da, db), d_mul(kind, db, da))),
                          ("square", lambda: b ** 2, d_mul(kind, db, db)), ("shift", lambda: a + 2.5, d_add(da, E, 2.5)), ("reflection", lambda: 1 - a, d_add(E, da, -1)), ("multiple", lambda: a * (0.5 - 1j), d_mul(kind, da, {(): 0.5 - 1j})),
                          ("quotient", lambda: a / 8, d_mul(kind, da, {(): 0.125})), ("accumulated sum", lambda: cls.accumulate([a, b, a, b, b]), d_add(d_add(da, da), d_mul(kind, db, {(): 3})))):
        got = f()
        ctx.step()
        ctx.check(d_same(got.terms, want), lambda: what % name + ": %r, expected %r" % (got.terms, want))
    ctx.check((a.terms, b.terms) == snap, "operands changed")
    x = copy.deepcopy(a)
    model = dict(da)
    for j in range(12):
        x += b
        model = d_add(model, db)
        x -= a
        model = d_add(model, da, -1)
        x *= -1
        model = d_mul(kind, model, {(): -1})
        ctx.check(d_same(x.terms, model), lambda: what % "twelve updates in place" + ": step %d" % j)
    ctx.eq(a.many_body_order(), max(len(t) for t in da), "many-body order")
    ctx.check(abs(a.induced_norm() - sum(abs(c) for c in da.values())) < 1e-9 and abs(a.induced_norm(3) - sum(abs(c) ** 3 for c in da.values()) ** (1 / 3)) < 1e-9, "norms")
    for g in (1, 2, 3, 7, n, n + 3):
        groups = list(a.get_operator_groups(g))
        ctx.check(len(groups) == min(g, n) and cls.accumulate(groups) == a and max(len(x.terms) for x in groups) - min(len(x.terms) for x in groups) <= 1, "groups of terms")
    ctx.eq([(list(x.terms.items())) for x in a], [[(t, c)] for t, c in a.terms.items()], "iteration")
    import warnings
    for g in (0, -3):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            groups = list(a.get_operator_groups(g))
        ctx.check(len(groups) == 1 and groups[0] == a and any(issubclass(x.category, RuntimeWarning) for x in w), "operator in %d groups" % g)
    # one changed coefficient anywhere makes a difference
    for t in list(da)[:: max(1, n // 5)]:
        y = copy.deepcopy(a)
        y.terms[t] += 1e-3
        ctx.check(y != a and a != y and not a.isclose(y) and a.isclose(y, 0.1), "operators differing in one coefficient")
        y.terms[t] -= 1e-3
        ctx.check(y == a, "equal operators")
        del y.terms[t]
        ctx.check(y != a and a != y, "operators differing in one term")


FRESH = zqfresh.Fresh(zqfreshlist.C26)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("products", gen_products, step_products, "all sequences of at most 4 (thorough 5) factors on 2 and 3 (4) on 3 modes in 4 spellings; products and commutators of all pairs of Pauli strings"),
    Space("programs", gen_programs, step_programs, "all programs of two of 39 statements over all pairs of 6..8 operators, of three statements (thorough four) of 22 over selected pairs"),
    Space("equality", gen_eq, step_eq, "all pairs of operators with two coefficients from 14 values, in several orders of the terms"),
    Space("iteration", gen_iter, step_iter, "all orders of at most 5 terms, nested and interleaved iteration, 7 numbers of groups"),
    Space("symbolic", gen_sym, step_sym, "all pairs of 15 symbolic coefficients in 8 operations"),
    Space("commutators", gen_comm, step_comm, "all triples of 8 fermion operators; all hopping pairs on 3 modes; error cases"),
    Space("large", gen_large, step_large, "sums of 1, 7 and 30 (thorough 120) terms over indices of up to four digits: arithmetic, updates in place, grouping, equality against rules on dictionaries"),
]
