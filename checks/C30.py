"""C30: tensors of ladder operators: arithmetic, conversions, basis changes and reduced density matrices."""
import copy
import itertools
import operator as o

import numpy as np
import sympy

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc import ref
from mc.core import Space
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, PolynomialTensor, QubitOperator, get_diagonal_component, get_fermion_number_operator,
                                       get_ground_state_rdm_from_qubit_op, get_interaction_operator, get_polynomial_tensor, hf_rdm)
from zquantum.core.openfermion.measurements import get_interaction_rdm
from zquantum.core.openfermion.ops.representations import (InteractionOperatorError, general_basis_change, get_active_space_integrals, get_tensors_from_integrals)
from zquantum.core.openfermion.ops.representations.interaction_rdm import InteractionRDMError
from zquantum.core.openfermion.transforms import get_fermion_operator, jordan_wigner, normal_ordered

ID = "C30"
ASSUMPTIONS = ["interaction operators are combined with tensors of their own kinds only", "products of tensors are element by element, as documented by the tests of the library",
               "states of reduced density matrices have a definite number of particles",
               "spatial integrals have the symmetries of real orbitals where active spaces are compared"]
TECHNIQUE = "exhaustive enumeration of programs of tensor statements against a functional model, and of operators, rotations and states against sparse reference matrices"

N = 2


def arr(shape, k, dtype):
    size = int(np.prod(shape))
    a = np.array([((3 * i * i + (k + 2) * i + k) % 7 - 3) * (0.5 if dtype != int else 1) for i in range(size)])
    if dtype is complex:
        a = a + 1j * np.array([(i * (k + 1)) % 3 - 1 for i in range(size)])
    return a.astype(dtype).reshape(shape)


def t2(k, d=float):
    return arr((N,) * 2, k, d)


def t4(k, d=float):
    return arr((N,) * 4, k, d)


MAKE = [
    lambda: PolynomialTensor({(): 1.5, (1, 0): t2(0)}),
    lambda: PolynomialTensor({(1, 0): t2(1, complex), (1, 1, 0, 0): t4(2)}),
    lambda: PolynomialTensor({(0, 1): t2(3), (): -2}),
    lambda: InteractionOperator(0.25, t2(4), t4(5)),
    lambda: InteractionOperator(1 - 1j, t2(6, complex), t4(0, complex)),
    lambda: InteractionRDM(t2(2), t4(1, complex)),
    lambda: PolynomialTensor({(1, 1): t2(5, complex)}),
    lambda: PolynomialTensor({(1, 0): t2(2, int)}),
]


def content(x):
    return {k: np.array(v, dtype=complex) for k, v in x.n_body_tensors.items()}


def equal(a, b):
    for k in set(a) | set(b):
        d = np.abs(a.get(k, 0.0) - b.get(k, 0.0)) if k in a and k in b else np.abs(a[k] if k in a else b[k])
        if np.max(d) > 1e-9:
            return False
    return True


def madd(a, b, s=1, lost_sign=False):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + s * v if k in out else v if lost_sign else s * v
    return out


# statements that subtract one operator from another: (minuend, subtrahend)
SUBTRACT = {"a=a-b": (0, 1), "a=b-a": (1, 0), "a-=b": (0, 1)}


def mconst(a, c):
    out = dict(a)
    out[()] = out.get((), 0.0) + c
    return out


def mscale(a, s):
    return {k: s * v for k, v in a.items()}


def mhad(a, b):
    return {k: v * b[k] if k in b else 0.0 * v for k, v in a.items()}


def ip(f):
    def g(r):
        x = r[0]
        r[0] = f(x, r[1])
        if r[0] is not x:
            raise AssertionError("an in-place update made a new operator")
    return g


def fset(i, v):
    def g(x):
        x[i] = v
    return g


def setitem(x, y):
    k = (1, 0) if (1, 0) in x.n_body_tensors else min(k for k in x.n_body_tensors if k)
    x[((0, k[0]), (1, k[1]))] = 5.0
    return x


def msetitem(m):
    k = (1, 0) if (1, 0) in m else min(k for k in m if k)
    v = m[k].copy()
    v[0, 1] = 5.0
    return {**m, k: v}


def setconst(x, y):
    x.constant = -0.75
    return x


def put(f):
    return lambda m: m.__setitem__(0, f(m[0], m[1]))


def hadamard_table(x):
    ks = [k for k in x.n_body_tensors if k]
    return len(set(map(len, ks))) == 1


ST = {
    "a=a+b": (lambda r: r.__setitem__(0, r[0] + r[1]), put(lambda a, b: madd(a, b))),
    "a=b+a": (lambda r: r.__setitem__(0, r[1] + r[0]), put(lambda a, b: madd(a, b))),
    "a=a-b": (lambda r: r.__setitem__(0, r[0] - r[1]), put(lambda a, b: madd(a, b, -1))),
    "a=b-a": (lambda r: r.__setitem__(0, r[1] - r[0]), put(lambda a, b: madd(b, a, -1))),
    "a=a*b": (lambda r: r.__setitem__(0, r[0] * r[1]), put(mhad)),
    "a=b*a": (lambda r: r.__setitem__(0, r[1] * r[0]), put(lambda a, b: mhad(b, a))),
    "a+=b": (ip(o.iadd), put(lambda a, b: madd(a, b))),
    "a-=b": (ip(o.isub), put(lambda a, b: madd(a, b, -1))),
    "a*=b": (ip(o.imul), put(mhad)),
    "a+=a": (ip(lambda x, y: o.iadd(x, x)), put(lambda a, b: mscale(a, 2))),
    "a-=a": (ip(lambda x, y: o.isub(x, x)), put(lambda a, b: mscale(a, 0))),
    "a=a+2": (lambda r: r.__setitem__(0, r[0] + 2), put(lambda a, b: mconst(a, 2))),
    "a=1j+a": (lambda r: r.__setitem__(0, 1j + r[0]), put(lambda a, b: mconst(a, 1j))),
    "a=a-0.5": (lambda r: r.__setitem__(0, r[0] - 0.5), put(lambda a, b: mconst(a, -0.5))),
    "a=1-a": (lambda r: r.__setitem__(0, 1 - r[0]), put(lambda a, b: mconst(mscale(a, -1), 1))),
    "a+=3": (ip(lambda x, y: o.iadd(x, 3)), put(lambda a, b: mconst(a, 3))),
    "a-=1.5": (ip(lambda x, y: o.isub(x, 1.5)), put(lambda a, b: mconst(a, -1.5))),
    "a=2*a": (lambda r: r.__setitem__(0, 2 * r[0]), put(lambda a, b: mscale(a, 2))),
    "a=a*0.5j": (lambda r: r.__setitem__(0, r[0] * 0.5j), put(lambda a, b: mscale(a, 0.5j))),
    "a*=-1.5": (ip(lambda x, y: o.imul(x, -1.5)), put(lambda a, b: mscale(a, -1.5))),
    "a/=4": (ip(lambda x, y: o.itruediv(x, 4)), put(lambda a, b: mscale(a, 0.25))),
    "a=a/(1+1j)": (lambda r: r.__setitem__(0, r[0] / (1 + 1j)), put(lambda a, b: mscale(a, 1 / (1 + 1j)))),
    "a=-a": (lambda r: r.__setitem__(0, -r[0]), put(lambda a, b: mscale(a, -1))),
    "a[01]=5": (ip(setitem), put(lambda a, b: msetitem(a))),
    "a.constant": (ip(setconst), put(lambda a, b: {**a, (): -0.75})),
    "swap": (lambda r: r.reverse(), lambda m: m.reverse()),
    "b=copy": (lambda r: r.__setitem__(1, copy.deepcopy(r[0])), lambda m: m.__setitem__(1, m[0])),
    "b=a+0": (lambda r: r.__setitem__(1, r[0] + 0), lambda m: m.__setitem__(1, mconst(m[0], 0.0))),
    "b=a/4": (lambda r: r.__setitem__(1, r[0] / 4), lambda m: m.__setitem__(1, mscale(m[0], 0.25))),
    "b=-a": (lambda r: r.__setitem__(1, -r[0]), lambda m: m.__setitem__(1, mscale(m[0], -1))),
    "b=a*1": (lambda r: r.__setitem__(1, r[0] * 1), lambda m: m.__setitem__(1, m[0])),
}


def gen_programs(tier):
    for i in range(len(MAKE)):
        for j in range(len(MAKE)):
            if {i, j} & {3, 4} and {i, j} & {2, 6}:
                continue  # interaction operators hold constants, one- and two-body tensors only
            for s in ST:
                yield [i, j, s, 2 if tier == "quick" or (i + j) % 3 else 3]


def step_programs(ctx, case):
    i, j, s, depth = case
    ctx.state(tuple(case))
    lost = None
    for rest in itertools.product(ST, repeat=depth - 1):
        regs = [MAKE[i](), MAKE[j]()]
        mods = [content(regs[0]), content(regs[1])]
        prog = [s, *rest]
        for st in prog:
            real, model = ST[st]
            before = list(mods)
            real(regs)
            model(mods)
            if st in SUBTRACT:
                x, y = (before[r] for r in SUBTRACT[st])
                # known finding: tensors the minuend lacks keep their sign; the walk goes on from the actual result
                other = madd(x, y, -1, lost_sign=True)
                if set(y) - set(x) and not equal(mods[0], other) and equal(content(regs[0]), other):
                    mods[0] = other
                    lost = "%s from operators %d and %d" % (prog, i, j)
            ctx.step()
        for r in (0, 1):
            ctx.check(equal(content(regs[r]), mods[r]), lambda: "after %s from operators %d and %d the tensors of %s are %r instead of %r" % (prog, i, j, "ab"[r], regs[r].n_body_tensors, mods[r]))
        a, b = regs
        ctx.eq([bool(a == b), bool(a != b)], [equal(mods[0], mods[1]), not equal(mods[0], mods[1])], "equality after %s" % prog)
        if depth == 2:
            # reading the elements
            want = {}
            for k, v in mods[0].items():
                if k == ():
                    want[()] = complex(v)
                else:
                    for idx in itertools.product(range(N), repeat=len(k)):
                        if abs(v[idx]) > 1e-12:
                            want[tuple(zip(idx, k))] = complex(v[idx])
            got = [t for t in a if t == () or abs(a[t]) > 1e-12]
            ctx.check(len(got) == len(set(got)) and set(got) == set(want), lambda: "elements of the tensors after %s" % prog)
            ctx.check(all(abs(complex(a[t]) - want[t]) < 1e-9 for t in want), "values of the elements")
            lens = [(len(t), "".join(str(x[1]) for x in t)) for t in got]
            ctx.check(lens == sorted(lens), "order of the elements")
            ctx.eq(a.n_qubits, N, "number of modes")
            ctx.check(abs(complex(a.constant) - complex(mods[0].get((), 0.0))) < 1e-9, "constant")
            if any(k and np.asarray(v).dtype.kind == "i" for k, v in a.n_body_tensors.items()):
                continue  # tensors are documented to hold floats
            f = get_fermion_operator(a)
            ctx.check(om.dist(om.terms(f.terms, N, "f"), om.terms(want, N, "f")) < 1e-9, lambda: "fermion operator of the tensors after %s" % prog)
    ctx.outcome(s)
    if lost:
        ctx.fail("tensors missing in the minuend are added instead of subtracted: " + lost, key="minuend-misses-tensor")


# ---- conversions -------------------------------------------------------------------------------
POOL = [((), 1.5), (((0, 1), (0, 0)), 1.0), (((0, 0), (0, 1)), -1.0), (((0, 1), (1, 0)), 1j), (((2, 1), (0, 0)), 2), (((0, 1), (1, 1), (1, 0), (0, 0)), 0.5), (((0, 1), (0, 0), (1, 1), (1, 0)), -0.5), (((2, 1), (1, 1), (0, 0), (1, 0)), 1 - 1j),
        (((1, 0), (2, 1), (1, 1), (0, 0)), 1.0), (((0, 1), (1, 1)), 1.0), (((1, 0), (0, 0)), -2.0), (((0, 1),), 1.0), (((0, 1), (1, 1), (2, 1), (0, 0)), 1.0), (((2, 1), (1, 1), (0, 1), (2, 0), (1, 0), (0, 0)), 0.25), (((0, 0), (0, 0)), 3.0)]


def gen_conv(tier):
    for r in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for ks in itertools.combinations(range(len(POOL)), r):
            yield list(ks)


def tensor_terms(x):
    out = {}
    for k, v in x.n_body_tensors.items():
        if k == ():
            out[()] = complex(v)
        else:
            for idx, c in np.ndenumerate(v):
                if c:
                    out[tuple(zip(idx, k))] = complex(c)
    return out


def diag_part(m):
    return {(i, j): x for (i, j), x in m.items() if i == j}


def step_conv(ctx, case):
    ctx.state(tuple(case))
    op = FermionOperator()
    for k in case:
        op += FermionOperator(*POOL[k])
    base = dict(op.terms)
    used = max([q + 1 for t in base for q, _ in t] or [0])
    no = normal_ordered(op).terms
    two_body = all([a for _, a in t] in ([], [1, 0], [1, 1, 0, 0]) for t in no)
    for n in (None, used, 3, 4):
        k = used if n is None else n
        if k < used:
            continue
        m = om.terms(base, k, "f")
        ctx.step()
        if not two_body:
            ctx.raises(lambda: get_interaction_operator(op) if n is None else get_interaction_operator(op, n), "interaction operator of %r" % base, InteractionOperatorError)
        else:
            iop = get_interaction_operator(op) if n is None else get_interaction_operator(op, n)
            ctx.eq(iop.n_qubits, k, "number of modes")
            ctx.check(type(iop) is InteractionOperator and om.dist(om.terms(tensor_terms(iop), k, "f"), m) < 1e-9, lambda: "interaction operator of %r" % base)
            ctx.check(om.dist(om.terms(get_fermion_operator(iop).terms, k, "f"), m) < 1e-9, "and back")
            ctx.check(iop == copy.deepcopy(iop) and not iop != iop and (iop + 0.5 != iop), "equality of interaction operators")
            if k:
                d, r = get_diagonal_component(iop)
                md, mr = om.terms(tensor_terms(d), k, "f"), om.terms(tensor_terms(r), k, "f")
                ctx.check(om.dist(md, diag_part(m)) < 1e-9, lambda: "diagonal component of %r" % base)
                ctx.check(om.dist(om.add(md, mr), m) < 1e-9 and d + r == iop, lambda: "components of %r" % base)
                d.one_body_tensor += 1
                r.two_body_tensor += 1
                ctx.check(om.dist(om.terms(tensor_terms(iop), k, "f"), m) < 1e-9, "components share memory with the operator")
        pt = get_polynomial_tensor(op) if n is None else get_polynomial_tensor(op, n)
        ctx.eq(pt.n_qubits, k, "number of modes of the tensor of %r" % base)
        ctx.check(om.dist(om.terms(tensor_terms(pt), k, "f"), m) < 1e-9, lambda: "polynomial tensor of %r" % base)
        ctx.check(om.dist(om.terms(get_fermion_operator(pt).terms, k, "f"), m) < 1e-9, "and back")
        if k and any(len(x) for x in pt.n_body_tensors):
            d, r = get_diagonal_component(pt)
            md, mr = om.terms(tensor_terms(d), k, "f"), om.terms(tensor_terms(r), k, "f")
            ctx.check(om.dist(md, diag_part(m)) < 1e-9 and om.dist(om.add(md, mr), m) < 1e-9, lambda: "components of the tensors of %r" % base)
            ctx.check(d + r == pt, "sum of the components")
        # projections
        if two_body and k:
            for sel in [0, 1, 2, 3] + [list(c) for z in range(k + 1) for c in itertools.combinations(range(k), z)]:
                for exact in (False, True):
                    p = iop.projected(sel, exact)
                    for kk, v in iop.n_body_tensors.items():
                        if kk == ():
                            want = v if not (exact and sel) else 0
                            ctx.check(p.constant == want, "projected constant")
                            continue
                        for idx in itertools.product(range(k), repeat=len(kk)):
                            s = set(idx)
                            keep = (len(s) == sel if exact else len(s) <= sel) if isinstance(sel, int) else (s == set(sel) if exact else s <= set(sel))
                            ctx.check(p.n_body_tensors[kk][idx] == (v[idx] if keep else 0), lambda: "projection on %s (exact=%s) at %s" % (sel, exact, idx))
    if used:
        ctx.raises(lambda: get_interaction_operator(op, used - 1), "too few modes", ValueError)
        ctx.raises(lambda: get_polynomial_tensor(op, used - 1), "too few modes", ValueError)
    ctx.eq(op.terms, base, "operator after the conversions")
    if not case:
        for bad in (QubitOperator("X0"), 1.0, None, InteractionRDM(t2(0), t4(0))):
            ctx.raises(lambda: get_interaction_operator(bad), "interaction operator of %s" % type(bad), TypeError)
            ctx.raises(lambda: get_polynomial_tensor(bad), "polynomial tensor of %s" % type(bad), TypeError)
        for bad in (QubitOperator("X0"), 1.0, None, FermionOperator("0^ 0")):
            ctx.raises(lambda: get_fermion_operator(bad), "fermion operator of %s" % type(bad), TypeError)
            ctx.raises(lambda: get_diagonal_component(bad), "diagonal component of %s" % type(bad), TypeError)
        ctx.raises(lambda: get_interaction_operator(FermionOperator("0^ 0", sympy.Symbol("x"))), "symbolic coefficient", TypeError)
        for n in range(1, 6):
            for p in [None] + list(range(0, n + 1)):
                op = get_fermion_number_operator(n, p)
                m = om.terms(tensor_terms(op), n, "f")
                ctx.check(op.n_qubits == n and om.dist(m, {(i, i): bin(i).count("1") - (p or 0) for i in range(1 << n)}) < 1e-9, lambda: "number operator %s %s" % (n, p))


# ---- basis changes ------------------------------------------------------------------------------
ROT = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[1, 1], [1, -1]]) / np.sqrt(2), np.array([[0.6, 0.8], [-0.8, 0.6]]), np.array([[1, 0], [0, 1j]]), np.array([[0.6, 0.8j], [0.8j, 0.6]]), np.array([[1.0, 0.5], [0.0, 1.0]])]
KEYS = [k for n in (1, 2, 3, 4) for k in itertools.product((0, 1), repeat=n)]


def gen_basis(tier):
    for k in range(len(KEYS)):
        for r in range(len(ROT)):
            yield [k, r]


def ladder_of(vec, up, n):
    """sum of ladder operators with coefficients vec"""
    m = {}
    for q, c in enumerate(vec):
        m = om.add(m, om.term(((q, up),), n, "f"), complex(c))
    return m


def step_basis(ctx, case):
    k, r = case
    key, R = KEYS[k], ROT[r]
    ctx.state(tuple(case))
    forms = [(R, 2), (np.kron(R, np.eye(2)), 4) if len(key) <= 2 else (R, 2)]
    for full, n in forms:
        t = arr((n,) * len(key), k % 5, complex)
        keep = t.copy()
        got = general_basis_change(t, R, key)
        ctx.step()
        have = om.terms({tuple(zip(idx, key)): complex(c) for idx, c in np.ndenumerate(got) if c}, n, "f")
        want = {}
        for idx in itertools.product(range(n), repeat=len(key)):
            if t[idx]:
                m = om.identity(n)
                for a, up in zip(idx, key):
                    m = om.mul(m, ladder_of(full[a].conj() if up else full[a], up, n))
                want = om.add(want, m, complex(t[idx]))
        ctx.check(om.dist(have, want) < 1e-9, lambda: "basis change of a %s tensor by %s on %d modes" % (key, R.tolist(), n))
        # element by element
        el = np.zeros((n,) * len(key), dtype=complex)
        for out in itertools.product(range(n), repeat=len(key)):
            for idx in itertools.product(range(n), repeat=len(key)):
                w = t[idx]
                for a, b, up in zip(idx, out, key):
                    w = w * (np.conj(full[a][b]) if up else full[a][b])
                el[out] += w
        ctx.check(np.max(np.abs(el - got)) < 1e-9, "elements of the transformed tensor")
        ctx.check(np.array_equal(t, keep), "tensor after the basis change")
        if len(key) > 1 and len(key) % 2 == 0:
            x = PolynomialTensor({(): 2.5, key: t})
            x.rotate_basis(R)
            ctx.check(x.constant == 2.5 and np.max(np.abs(x.n_body_tensors[key] - el)) < 1e-9, "rotate_basis")
            if np.max(np.abs(R @ R.conj().T - np.eye(2))) < 1e-9:
                x.rotate_basis(R.conj().T)
                ctx.check(np.max(np.abs(x.n_body_tensors[key] - keep)) < 1e-9, "rotate_basis and back")


# ---- reduced density matrices -----------------------------------------------------------------
def gen_rdm(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for parts in range(n + 1):
            for s in range(3 if n < 4 else 2):
                yield ["state", n, parts, s]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for a in range(n + 1):
            for b in range(n + 1):
                yield ["hf", n, a, b]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for parts in range(0, n + 1):
            for s in range(2):
                yield ["ground", n, parts, s]
    yield ["errors", 0, 0, 0]


def sector_state(n, parts, s):
    v = [0j] * (1 << n)
    idx = [j for j in range(1 << n) if bin(j).count("1") == parts]
    if s == 0:
        v[idx[0]] = 1.0
    else:
        for k, j in enumerate(idx):
            v[j] = (1 + k * 0.5) * (1 if s == 1 else (0.6 + 0.8j) ** k)
    nrm = sum(abs(x) ** 2 for x in v) ** 0.5
    return [x / nrm for x in v]


def expect(m, v):
    return sum(complex(a).conjugate() * b for a, b in zip(v, om.apply(m, v)))


def check_rdm(ctx, rdm, v, n, what):
    for i, j in itertools.product(range(n), repeat=2):
        w = expect(om.term(((i, 1), (j, 0)), n, "f"), v)
        ctx.check(abs(rdm.one_body_tensor[i, j] - w) < 1e-6, lambda: "%s: one-body element %s is %s instead of %s" % (what, (i, j), rdm.one_body_tensor[i, j], w))
    for q in itertools.product(range(n), repeat=4):
        w = expect(om.term(tuple(zip(q, (1, 1, 0, 0))), n, "f"), v)
        ctx.check(abs(rdm.two_body_tensor[q] - w) < 1e-6, lambda: "%s: two-body element %s is %s instead of %s" % (what, q, rdm.two_body_tensor[q], w))
    ctx.step(n ** 4)


def majoranas(t, n):
    bits = 0
    for q, p in t:
        z = (3 << (2 * q))
        if p == "Z":
            bits ^= z
        else:
            bits ^= (1 if p == "X" else 2) << (2 * q)
            for k in range(q):
                bits ^= 3 << (2 * k)
    return bin(bits).count("1")


def step_rdm(ctx, case):
    what, n, x, y = case
    ctx.state(repr(case))
    if what == "errors":
        rdm = InteractionRDM(t2(0), t4(0))
        for bad in (FermionOperator("0^ 0"), 1.0, IsingOperator("Z0"), None):
            ctx.raises(lambda: rdm.expectation(bad), "expectation of %s" % type(bad), InteractionRDMError)
        ctx.raises(lambda: get_interaction_rdm(QubitOperator("Z0", sympy.Symbol("x"))), "symbolic expectation", TypeError)
        return
    if what == "hf":
        v = [0.0] * (1 << (2 * n))
        occ = [2 * k for k in range(x)] + [2 * k + 1 for k in range(y)]
        v[sum(1 << (2 * n - 1 - q) for q in occ)] = 1.0
        rdm = hf_rdm(x, y, n)
        ctx.check(type(rdm) is InteractionRDM and rdm.n_qubits == 2 * n, "type of the RDM")
        if n <= 2 or ctx.thorough and n <= 2:
            check_rdm(ctx, rdm, v, 2 * n, "Hartree-Fock RDM of %d and %d electrons" % (x, y))
        else:
            for i, j in itertools.product(range(2 * n), repeat=2):
                ctx.check(rdm.one_body_tensor[i, j] == (1 if i == j and i in occ else 0), "one-body element")
                for k, l in itertools.product(range(2 * n), repeat=2):
                    w = (1 if i != j and i in occ and j in occ else 0) * ((k == j and l == i) - (k == i and l == j))
                    ctx.check(rdm.two_body_tensor[i, j, k, l] == w, lambda: "two-body element %s of %d orbitals" % ((i, j, k, l), n))
        return
    if what == "ground":
        # diagonal and hopping part with a unique ground state in each sector
        op = FermionOperator()
        for p in range(n):
            op += FermionOperator(((p, 1), (p, 0)), [0.3, -0.7, 1.1, 0.45][p])
            for q in range(p):
                hop = 0.25 + 0.1 * p + (0.05j * q if y else 0)
                op += FermionOperator(((p, 1), (q, 0)), hop) + FermionOperator(((q, 1), (p, 0)), np.conj(hop).item() if y else hop)
                op += FermionOperator(((p, 1), (p, 0), (q, 1), (q, 0)), 0.15 * (p + 1))
        qop = jordan_wigner(op)
        m = om.terms(op.terms, n, "f")
        dense = np.zeros((1 << n,) * 2, dtype=complex)
        for (i, j), c in m.items():
            dense[i, j] = c
        idx = [j for j in range(1 << n) if bin(j).count("1") == x]
        w, vec = np.linalg.eigh(dense[np.ix_(idx, idx)])
        if len(w) > 1 and w[1] - w[0] < 1e-3:
            return
        v = [0j] * (1 << n)
        for k, j in enumerate(idx):
            v[j] = complex(vec[k, 0])
        rdm = get_ground_state_rdm_from_qubit_op(qop, x)
        check_rdm(ctx, rdm, v, n, "ground state RDM of %d particles on %d modes" % (x, n))
        ctx.check(abs(rdm.expectation(get_interaction_operator(op, n)) - w[0]) < 1e-6, "ground state energy from the RDM")
        return
    v = sector_state(n, x, y)
    exps = QubitOperator()
    for word in itertools.product("IXYZ", repeat=n):
        t = tuple((q, p) for q, p in enumerate(word) if p != "I")
        exps.terms[t] = expect(om.term(t, n, "q"), v)
    rdm = get_interaction_rdm(exps, n)
    ctx.check(type(rdm) is InteractionRDM, "type of the RDM")
    check_rdm(ctx, rdm, v, n, "RDM of state %s" % case)
    ctx.check(get_interaction_rdm(exps) == rdm, "number of modes from the operator")
    wider = get_interaction_rdm(exps, n + 1)
    ctx.check(wider.n_qubits == n + 1 and np.max(np.abs(wider.one_body_tensor[:n, :n] - rdm.one_body_tensor)) < 1e-9, "RDM on more modes")
    # expectation values from the RDM
    for word in itertools.product("IXYZ", repeat=n):
        t = tuple((q, p) for q, p in enumerate(word) if p != "I")
        op = QubitOperator(t, 1.5 - 0.5j)
        ctx.step()
        if majoranas(t, n) > 4:
            ctx.raises(lambda: rdm.expectation(op), "observable %s outside of the RDM" % (t,), InteractionRDMError)
        else:
            w = exps.terms[t]
            e = rdm.get_qubit_expectations(op)
            ctx.check(abs(e.terms[t] - w) < 1e-8 and op.terms == {t: 1.5 - 0.5j}, lambda: "expectation of %s is %s instead of %s" % (t, e.terms[t], w))
            ctx.check(abs(rdm.expectation(op + QubitOperator((), 2.0)) - ((1.5 - 0.5j) * w + 2.0)) < 1e-8, lambda: "expectation of %r" % op.terms)
    for s in range(3):
        one, two = arr((n,) * 2, s, complex), arr((n,) * 4, s + 1, complex)
        iop = InteractionOperator(0.5, one, two)
        ctx.check(abs(rdm.expectation(iop) - expect(om.terms(tensor_terms(iop), n, "f"), v)) < 1e-8, "expectation of an interaction operator")


# ---- integrals --------------------------------------------------------------------------------
def gen_integrals(tier):
    for n in (1, 2, 3):
        for s in range(3):
            yield ["tensors", n, s]
            if n > 1:
                yield ["active", n, s]
    for n in (1, 2, 3):
        for s in range(2):
            for cplx in (0, 1):
                yield ["unique", n, [s, cplx]]


def integrals(n, s, sym=True):
    one = np.array([[((2 * i + 3 * j + s) % 5 - 2) / 2 for j in range(n)] for i in range(n)])
    two = np.zeros((n,) * 4)
    for q in itertools.product(range(n), repeat=4):
        two[q] = ((q[0] + 2 * q[1] + 3 * q[2] + 5 * q[3] + s) % 9 - 4) / 4
    if sym:
        one = (one + one.T) / 2
        # (p,q,r,s) ~ (s,q,r,p) ~ (p,r,q,s) ~ (q,p,s,r)
        for perm in ((3, 1, 2, 0), (0, 2, 1, 3), (1, 0, 3, 2)):
            two = (two + two.transpose(perm)) / 2
        for perm in ((3, 1, 2, 0), (0, 2, 1, 3), (1, 0, 3, 2)):
            two = (two + two.transpose(perm)) / 2
    return one, two


def spin_terms(one, two, const=0.0):
    n = one.shape[0]
    out = [((), const)]
    for p, q in itertools.product(range(n), repeat=2):
        for a in (0, 1):
            out.append((((2 * p + a, 1), (2 * q + a, 0)), one[p, q]))
    for p, q, r, s in itertools.product(range(n), repeat=4):
        if two[p, q, r, s]:
            for a, b in itertools.product((0, 1), repeat=2):
                out.append((((2 * p + a, 1), (2 * q + b, 1), (2 * r + b, 0), (2 * s + a, 0)), two[p, q, r, s] / 2))
    return out


def step_integrals(ctx, case):
    what, n, s = case
    ctx.state(repr(case))
    if what == "tensors":
        one, two = integrals(n, s, sym=False)
        a, b = get_tensors_from_integrals(one, two)
        ctx.step()
        if n <= 2:
            m = om.terms(tensor_terms(InteractionOperator(0.0, a, b)), 2 * n, "f")
            ctx.check(om.dist(m, om.terms(spin_terms(one, two), 2 * n, "f")) < 1e-9, "operator of the integrals")
        for (i, j), x in np.ndenumerate(a):
            ctx.check(x == (one[i // 2, j // 2] if i % 2 == j % 2 else 0), lambda: "one-body tensor element %s" % ((i, j),))
        for q, x in np.ndenumerate(b):
            ctx.check(x == (two[tuple(i // 2 for i in q)] / 2 if q[0] % 2 == q[3] % 2 and q[1] % 2 == q[2] % 2 else 0), lambda: "two-body tensor element %s" % (q,))
        return
    if what == "active":
        one, two = integrals(n, s)
        keep = (one.copy(), two.copy())
        full = om.terms(spin_terms(one, two), 2 * n, "f") if n <= 3 else None
        for z in range(0, n):
            for occ in itertools.combinations(range(n), z):
                rest = [p for p in range(n) if p not in occ]
                for k in range(1, len(rest) + 1):
                    for act in itertools.combinations(rest, k):
                        const, o1, o2 = get_active_space_integrals(one, two, list(occ) if occ else None, list(act))
                        ctx.step()
                        # matrix elements between states with the core filled and the rest empty
                        where = [2 * p + a for p in act for a in (0, 1)]
                        core = sum(1 << (2 * n - 1 - (2 * p + a)) for p in occ for a in (0, 1))
                        small = om.terms(spin_terms(o1, o2, const), 2 * k, "f")

                        def lift(j):
                            return core | sum(1 << (2 * n - 1 - where[q]) for q in range(2 * k) if (j >> (2 * k - 1 - q)) & 1)

                        ok = all(abs(full.get((lift(i), lift(j)), 0) - small.get((i, j), 0)) < 1e-9 for i in range(1 << 2 * k) for j in range(1 << 2 * k))
                        ctx.check(ok, lambda: "active space %s with core %s of %d orbitals" % (act, occ, n))
        ctx.raises(lambda: get_active_space_integrals(one, two, [0], []), "no active orbitals", ValueError)
        ctx.check(np.array_equal(one, keep[0]) and np.array_equal(two, keep[1]), "integrals after the reduction")
        return
    s, cplx = s
    if cplx:
        one = arr((n, n), s, complex)
        two = arr((n,) * 4, s, complex)
        one, two = one + one.conj().T, two + two.conj().transpose(3, 2, 1, 0)
        two = two + two.transpose(1, 0, 3, 2)
        perms = [(0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1)]
    else:
        one, two = integrals(n, s)
        perms = [(0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1), (0, 3, 2, 1), (1, 2, 3, 0), (3, 0, 1, 2), (2, 1, 0, 3)]
        for _ in range(2):
            for p in perms:
                two = (two + two.transpose(p)) / 2
    op = InteractionOperator(1.0, one, two)
    got = list(op.unique_iter(bool(cplx)))
    ctx.step()
    ctx.eq(len(got), len(set(got)), "repeated terms")
    covered = {}
    for t in got:
        idx = tuple(q for q, _ in t)
        ctx.check(len(t) == 0 or bool(op[t]), "a term with coefficient zero")
        orbit = {idx} if not t else {idx, idx[::-1]} if len(t) == 2 else {tuple(idx[i] for i in p) for p in perms}
        for x in orbit:
            ctx.check((len(t), x) not in covered, lambda: "symmetric terms %s and %s" % (x, covered.get((len(t), x))))
            covered[len(t), x] = idx
    want = {(0, ())} | {(2, i) for i, c in np.ndenumerate(one) if c} | {(4, i) for i, c in np.ndenumerate(two) if c}
    ctx.eq(set(covered), want, "terms up to symmetry")


# ---- members and rejected arguments ------------------------------------------------------------
def gen_members(tier):
    for i in range(len(MAKE)):
        for what in ("setters", "mod", "text", "reject", "function"):
            yield [what, i]
    for n in range(0, 5):
        yield ["zero", n]


def step_members(ctx, case):
    what, i = case
    ctx.state(tuple(case))
    ctx.step()
    if what == "zero":
        z = InteractionOperator.zero(i)
        ctx.check(type(z) is InteractionOperator and z.n_qubits == i and not tensor_terms(z).get((), 0) and not {k for k in tensor_terms(z) if k}, "zero operator")
        ctx.check(z.one_body_tensor.shape == (i,) * 2 and z.two_body_tensor.shape == (i,) * 4, "shapes of the zero operator")
        if i:
            z.one_body_tensor[0, 0] = 1j
            ctx.check(z[(0, 1), (0, 0)] == 1j and not tensor_terms(InteractionOperator.zero(i)).get(((0, 1), (0, 0))), "zero operators share arrays")
        return
    x = MAKE[i]()
    m = content(x)
    if what == "setters":
        new = {(): 3.5, (1, 0): t2(6), (1, 1, 0, 0): t4(6)}
        if isinstance(x, (InteractionOperator, InteractionRDM)):
            x.one_body_tensor = t2(7)
            ctx.check(equal(content(x), {**m, (1, 0): t2(7)}) and np.array_equal(x.one_body_tensor, t2(7)), "one-body tensor after it was set")
            x.two_body_tensor = t4(7)
            ctx.check(equal(content(x), {**m, (1, 0): t2(7), (1, 1, 0, 0): t4(7)}) and np.array_equal(x.two_body_tensor, t4(7)), "two-body tensor after it was set")
        x[()] = 0.125
        ctx.check(x.constant == 0.125 and x[()] == 0.125, "constant set as an element")
        x.n_body_tensors = new
        ctx.check(x.n_body_tensors is new and equal(content(x), {k: np.array(v) for k, v in new.items()}) and x.constant == 3.5, "tensors after they were set")
        for k in [k for k in new if k]:
            for idx in itertools.product(range(N), repeat=len(k)):
                t = tuple(zip(idx, k))
                ctx.check(x[t] == new[k][idx], "reading an element")
                x[t] = 11.0 + idx[0]
                ctx.check(x[t] == 11.0 + idx[0] and new[k][idx] == 11.0 + idx[0], "writing an element")
    elif what == "mod":
        if any(np.iscomplexobj(v) for v in x.n_body_tensors.values()):
            ctx.raises(lambda: x % 2, "remainder of complex tensors", TypeError)
            return
        for d in (1, 2, 0.75, 1.3):
            y = x % d
            ctx.check(equal(content(y), {k: v - d * np.floor(v.real / d) for k, v in m.items()}), lambda: "remainders of %r by %s are %r" % (x.n_body_tensors, d, y.n_body_tensors))
        ctx.check(equal(content(x), m), "tensors after the remainder")
    elif what == "text":
        for x in (x, x * 0, PolynomialTensor({(1, 0): np.zeros((N, N))})):
            lines = str(x)
            ctx.eq(repr(x), lines, "text")
            want = [t for t in x]
            if not want:
                ctx.eq(lines, "0", "text of a zero operator")
                continue
            ctx.check(lines.endswith("\n") and len(lines.splitlines()) == len(want), "lines of the text")
            for t, l in zip(want, lines.splitlines()):
                ctx.eq(l, "%s %s" % (t, x[t]), "line of the text")
    elif what == "function":
        for f, g in ((np.conj, np.conj), (np.real, np.real), (lambda v: v * v, lambda v: v * v)):
            y = x.with_function_applied_elementwise(f)
            ctx.check(equal(content(y), {k: g(v) for k, v in m.items()}), "function applied to every element")
            if isinstance(x, InteractionOperator):
                ctx.check(type(y) is InteractionOperator, "type of the result")
        ctx.check(equal(content(x), m), "tensors after functions were applied")
    else:
        big = PolynomialTensor({(1, 0): np.ones((N + 1, N + 1))})
        for bad in ("1", None, [1.0], FermionOperator("0^ 0"), QubitOperator("Z0"), {}):
            for f in (o.add, o.sub, o.mul, o.iadd, o.isub, o.imul, o.truediv, o.itruediv):
                ctx.raises(lambda: f(x, bad), "%s with %r" % (f.__name__, bad), TypeError)
        for f in (o.add, o.sub, o.mul, o.iadd, o.isub, o.imul):
            ctx.raises(lambda: f(x, big), "%s with a tensor on more modes" % f.__name__, TypeError)
            ctx.raises(lambda: f(big, x), "%s with a tensor on fewer modes" % f.__name__, TypeError)
        for f in (o.truediv, o.itruediv):
            ctx.raises(lambda: f(x, x), "division by a tensor", TypeError)
        ctx.check(equal(content(x), m) and equal(content(big), {(1, 0): np.ones((N + 1, N + 1))}), "tensors after rejected statements")
        ctx.check((x == big, x != big, big == x, big != x) == (False, True, False, True), "tensors on different numbers of modes")
        a = InteractionOperator(0.5, t2(0), t4(0))
        for eps, want in ((1e-10, True), (1e-6, False), (-1e-6, False)):
            for idx in itertools.product(range(N), repeat=4):
                b = copy.deepcopy(a)
                b.two_body_tensor[idx] += eps
                ctx.eq([a == b, b == a, a != b], [want, want, not want], "equality of operators that differ by %g at %s" % (eps, idx))
            b = a + eps
            ctx.eq([a == b, b == a], [want, want], "equality of operators whose constants differ by %g" % eps)


# ---- larger operators ----------------------------------------------------------------------------
def gen_wide(tier):
    for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 8, 11):
        words = [(p, q, r, s) for p, q, r, s in itertools.product(range(n), repeat=4) if p != q and r != s]
        sel = words if n <= (4 if tier == "quick" else 6) else [w for w in words if w[0] > w[1] and w[2] > w[3] and (sum(w) + w[1]) % 3 == 0]
        for w in sel:
            yield ["word", n, list(w)]
    for n in (5, 6, 7, 12, 27):
        for s in range(3):
            yield ["tensors", n, s]
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
        for s in range(3):
            for key in ([1, 0], [0, 1], [1, 1, 0, 0], [1, 0, 1, 0], [1, 1, 1]):
                if n ** len(key) <= 1300:
                    yield ["rotate", n, [s, key]]
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        for parts in range(n + 1):
            yield ["rdm", n, parts]
    yield ["order", 0, 0]


def step_wide(ctx, case):
    what, n, x = case
    ctx.state(repr(case))
    ctx.step()
    if what == "word":
        p, q, r, s = x
        word = ((p, 1), (q, 1), (r, 0), (s, 0))
        op = FermionOperator(word, 0.5 - 1j) + FermionOperator(((s, 0), (p, 1)), 2.0) + FermionOperator(((n - 1, 1), (0, 0)), -0.75)
        want = normal_ordered(op)
        keep = dict(op.terms)
        for k in (None, n + 2):
            for t in (get_interaction_operator(op, k), get_polynomial_tensor(op, k)):
                ctx.eq(t.n_qubits, k or n, "number of modes")
                back = get_fermion_operator(t)
                ctx.check(normal_ordered(back) == want, lambda: "operator of the tensors of %r is %r" % (keep, back.terms))
            d, rest = get_diagonal_component(get_interaction_operator(op, k))
            diag = {t: c for t, c in normal_ordered(get_fermion_operator(d)).terms.items() if abs(c) > 1e-12}
            dw = {t: c for t, c in want.terms.items() if sorted(i for i, a in t if a) == sorted(i for i, a in t if not a) and abs(c) > 1e-12}
            ctx.check(set(diag) == set(dw) and all(abs(diag[t] - dw[t]) < 1e-9 for t in dw), lambda: "diagonal component of %r is %r" % (keep, diag))
            ctx.check(normal_ordered(get_fermion_operator(rest) + get_fermion_operator(d)) == want, "sum of the components")
        ctx.eq(op.terms, keep, "operator after the conversions")
    elif what == "tensors":
        # a few entries at the ends of every axis
        rng = sorted({0, 1, n // 2, n - 2, n - 1})
        one = np.zeros((n, n), dtype=complex)
        for i, (p, q) in enumerate(itertools.product(rng, repeat=2)):
            one[p, q] = (i + x + 1) * (1 if x != 1 else 1j)
        a = PolynomialTensor({(): 1.0, (1, 0): one})
        b = PolynomialTensor({(0, 1): one.T.copy(), (1, 0): 2 * one})
        c = a + b
        ctx.check(np.array_equal(c.n_body_tensors[1, 0], 3 * one) and np.array_equal(c.n_body_tensors[0, 1], one.T), "sum of tensors on %d modes" % n)
        got = list(c)
        want = [()] + [((p, 0), (q, 1)) for p in range(n) for q in range(n) if one[q, p]] + [((p, 1), (q, 0)) for p in range(n) for q in range(n) if one[p, q]]
        ctx.eq(got, want, "elements in order")
        f = get_fermion_operator(c)
        ctx.check(len(f.terms) == len(want) and all(abs(f.terms[t] - complex(c[t])) < 1e-12 for t in want), "fermion operator on %d modes" % n)
        back = get_polynomial_tensor(f, n)
        delta = np.trace(one)
        ctx.check(back.n_qubits == n and abs(back.constant - (1.0 + delta)) < 1e-9 and np.max(np.abs(back.n_body_tensors[1, 0] - 3 * one + one)) < 1e-9, "tensors of the fermion operator")
    elif what == "rotate":
        s, key = x
        key = tuple(key)
        R = np.array([[((i * i + 3 * j + s * i * j) % 7 - 3) / 2 + (1j * ((i + 2 * j) % 3 - 1) if s else 0) for j in range(n)] for i in range(n)])
        t = arr((n,) * len(key), s, complex)
        want = t
        for axis, up in enumerate(key):
            want = np.moveaxis(np.tensordot(R.conj() if up else R, want, axes=([0], [axis])), 0, axis)
        got = general_basis_change(t, R, key)
        ctx.check(got.shape == t.shape and np.max(np.abs(got - want)) < 1e-8 * max(1, np.max(np.abs(want))), lambda: "basis change of a %s tensor on %d modes" % (key, n))
        full = np.kron(R, np.eye(2))
        if len(key) == 2:
            t = arr((2 * n,) * 2, s, complex)
            got = general_basis_change(t, R, key)
            want = (full.conj() if key[0] else full).T @ t @ (full.conj() if key[1] else full)
            ctx.check(np.max(np.abs(got - want)) < 1e-8 * max(1, np.max(np.abs(want))), "basis change of both spins on %d orbitals" % n)
        pt = PolynomialTensor({(): 0.5, key: arr((n,) * len(key), s, complex), (1, 0): arr((n, n), 2, complex)})
        pt.rotate_basis(R)
        w2 = R.conj().T @ arr((n, n), 2, complex) @ R
        ctx.check(pt.constant == 0.5 and np.max(np.abs(pt.n_body_tensors[1, 0] - w2)) < 1e-8 * max(1, np.max(np.abs(w2))), "rotate_basis of one of several tensors")
    elif what == "rdm":
        v = sector_state(n, x, 2)
        exps = QubitOperator()
        for word in itertools.product("IXYZ", repeat=n):
            t = tuple((q, p) for q, p in enumerate(word) if p != "I")
            if majoranas(t, n) <= 4:
                e = sum(v[i].conjugate() * y * v[j] for j in range(1 << n) if v[j] for i, y in [om._pauli(t, n, j)])
                exps.terms[t] = e
        rdm = get_interaction_rdm(exps, n)
        ev = lambda t: sum(v[i].conjugate() * y * v[j] for j in range(1 << n) if v[j] for i, y in [om._ladder(t, n, j)] if y)
        for i, j in itertools.product(range(n), repeat=2):
            ctx.check(abs(rdm.one_body_tensor[i, j] - ev(((i, 1), (j, 0)))) < 1e-7, lambda: "one-body element %s of %d modes" % ((i, j), n))
        for q in itertools.product(range(n), repeat=4):
            ctx.check(abs(rdm.two_body_tensor[q] - ev(tuple(zip(q, (1, 1, 0, 0))))) < 1e-7, lambda: "two-body element %s of %d modes" % (q, n))
        for t in list(exps.terms)[:: 7]:
            ctx.check(abs(rdm.expectation(QubitOperator(t, 2.0)) - 2 * exps.terms[t]) < 1e-7, lambda: "expectation of %s" % (t,))
    else:
        ctx.raises(lambda: general_basis_change(np.zeros((1,) * 27), np.eye(1), (1,) * 27), "a tensor of order 27", ValueError)
        R = np.array([[0.5, -1.0], [2.0, 0.25j]])
        for order in (6, 8, 10):
            t, key = arr((2,) * order, 1, complex), tuple((1, 0, 0, 1, 1, 1, 0, 0, 1, 0)[:order])
            want = t
            for axis, up in enumerate(key):
                want = np.moveaxis(np.tensordot(R.conj() if up else R, want, axes=([0], [axis])), 0, axis)
            ctx.check(np.max(np.abs(general_basis_change(t, R, key) - want)) < 1e-8 * np.max(np.abs(want)), "a tensor of order %d" % order)


# ---- diagonal parts of tensors of every kind ------------------------------------------------------
def gen_diag(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for k in range(len(KEYS)):
            yield [n, k]


def step_diag(ctx, case):
    n, k = case
    ctx.state(tuple(case))
    key = KEYS[k]
    for other in [None] + KEYS[: 6]:
        x = PolynomialTensor({(): 0.5, **({} if other is None else {other: arr((n,) * len(other), 3, complex)}), key: arr((n,) * len(key), k % 5, complex) + 0.125})
        m = content(x)
        full = om.terms(tensor_terms(x), n, "f")
        d, r = get_diagonal_component(x)
        ctx.step()
        ctx.check(om.dist(om.terms(tensor_terms(d), n, "f"), diag_part(full)) < 1e-9, lambda: "diagonal component of tensors %s on %d modes" % (sorted(m), n))
        ctx.check(d + r == x and equal(content(x), m), "sum of the components of tensors")
        # every single entry
        for idx in itertools.product(range(n), repeat=len(key)):
            t = np.zeros((n,) * len(key), dtype=complex)
            t[idx] = 1.5
            d, r = get_diagonal_component(PolynomialTensor({key: t}))
            w = om.term(tuple(zip(idx, key)), n, "f")
            ctx.check(om.dist(om.terms(tensor_terms(d), n, "f"), diag_part(om.scale(w, 1.5))) < 1e-9 and np.array_equal((d + r).n_body_tensors[key], t), lambda: "diagonal component of %s%s" % (key, idx))


FRESH = zqfresh.Fresh(zqfreshlist.C30)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("programs", gen_programs, step_programs, bound={"programs": "all programs of 2 (thorough also 3) of 31 statements on all pairs of 8 tensors on 2 modes"}),
    Space("conversions", gen_conv, step_conv, bound={"operators": "all sums of up to 3 (4) of 15 terms on 3 modes, on up to 4 modes, with all projections"}),
    Space("basis changes", gen_basis, step_basis, bound={"tensors": "every key of length up to 4 with 7 rotations, plain and spin-doubled"}),
    Space("rdm", gen_rdm, step_rdm, bound={"states": "states of every particle number on up to 3 (4) modes, all Pauli strings", "Hartree-Fock": "all numbers of electrons in up to 3 (4) orbitals"}),
    Space("integrals", gen_integrals, step_integrals, bound={"orbitals": "up to 3 orbitals, every choice of core and active orbitals"}),
    Space("members", gen_members, step_members, bound={"members": "all setters, remainders, texts, elementwise functions and rejected arguments of 8 tensors; zero operators on up to 4 modes"}),
    Space("wide", gen_wide, step_wide, bound={"words": "two-body words on 4 to 6 (thorough 11) modes with both conversions and their components", "tensors": "up to 27 modes, rotations of up to 5 (thorough 6) modes, density matrices of every particle number on up to 5 (thorough 6) modes"}),
    Space("diagonal", gen_diag, step_diag, bound={"tensors": "every key of length up to 4 alone and with 6 others on 2 (thorough 3) modes, every single entry"}),
]
