"""C15: grouping and basis changes measure exactly the given operator."""
import itertools

import numpy as np

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core import estimation as E
from zquantum.core import hamiltonian as H
from zquantum.core.circuits import Circuit
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.openfermion import IsingOperator, QubitOperator, change_operator_type
from zquantum.core.symbolic_simulator import SymbolicSimulator

ID = "C15"
ASSUMPTIONS = ["coefficients are not negligible (operator arithmetic drops terms below 1e-8)",
               "operators act inside the register of the circuit they are measured on"]
TECHNIQUE = "exhaustive enumeration of operators over all Pauli strings; basis changes compared as matrices, hence for every state"


def strings(n):
    out = []
    for s in itertools.product("IXYZ", repeat=n):
        out.append(tuple((q, a) for q, a in enumerate(s) if a != "I"))
    return out


def mk(terms):
    op = QubitOperator()
    for t, c in terms:
        op += QubitOperator(t, c)
    return op


def como(a, b):
    da, db = dict(a), dict(b)
    return all(da[q] == db[q] for q in da if q in db)


def gen_pairs(tier):
    n = 3
    for i in range(4 ** n):
        yield [n, i]


def step_pairs(ctx, case):
    n, i = case
    S = strings(n)
    ctx.state(tuple(case))
    for b in S:
        ctx.step()
        ctx.eq(bool(H.is_comeasureable(S[i], b)), como(S[i], b), f"co-measurable {S[i]} and {b}")
        ctx.eq(bool(H.is_comeasureable(tuple(reversed(S[i])), b)), como(S[i], b), f"co-measurable {S[i]} and {b}")
        if not como(S[i], b):
            ctx.raises(lambda: E.get_context_selection_circuit_for_group(mk([(S[i], 1.0), (b, 0.5)])), f"context for {S[i]} and {b}", ValueError)
            ctx.raises(lambda: E.perform_context_selection([EstimationTask(mk([(S[i], 1.0), ((), 1.0), (b, 0.5)]), Circuit([], 3), 2)]),
                       f"context selection for {S[i]} and {b}", ValueError)


COEF = [1.5, -0.25, 2.0, -2.0, 0.5j]


def gen_group(tier):
    S = len(strings(2))
    for L in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for c in itertools.permutations(range(S), L):
            if L == 4 and c[0] > c[-1] and tier == "thorough" and (c[1] + c[2]) % 2:
                continue
            yield [2, list(c)]
    S3 = range(0, 64)
    for c in itertools.permutations(S3, 2) if tier == "thorough" else itertools.combinations(S3, 2):
        yield [3, list(c)]


def check_groups(ctx, groups, terms, what):
    seen = {}
    for g in groups:
        ctx.check(len(g.terms) > 0, f"{what}: empty group")
        for t, c in g.terms.items():
            ctx.check(t not in seen, f"{what}: {t} is in two groups")
            seen[t] = c
        for a, b in itertools.combinations(g.terms, 2):
            ctx.check(como(a, b), f"{what}: {a} and {b} share a group")
        if () in g.terms:
            ctx.eq(len(g.terms), 1, f"{what}: size of the group with the constant")
    ctx.eq(seen, dict(terms), f"{what}: terms of all groups")


def step_group(ctx, case):
    n, idx = case
    S = strings(n)
    terms = [(S[i], COEF[(k * 2 + len(idx)) % 5]) for k, i in enumerate(idx)]
    op = mk(terms)
    before = list(op.terms.items())
    ctx.state((n, tuple(idx)))
    for f in (lambda o: H.group_comeasureable_terms_greedy(o), lambda o: H.group_comeasureable_terms_greedy(o, True),
              lambda o: H.group_comeasureable_terms_greedy(o, sort_terms=False),
              H.get_decomposition_function("greedy"), H.get_decomposition_function("greedy-sorted")):
        ctx.step()
        check_groups(ctx, f(op), terms, f"groups of {terms}")
        ctx.eq(list(op.terms.items()), before, f"grouping {terms} changed the operator")
    # tasks
    circ = [Circuit([zq.real_op(["g", "H", [], [0], []])], n_qubits=n), Circuit([], n_qubits=n)]
    tasks = [EstimationTask(op, circ[0], 7), EstimationTask(mk([(((0, "X"),), 1.0)]), circ[1], None)]
    for f in (E.group_individually, quiet(lambda t: E.group_greedily(t)), quiet(lambda t: E.group_greedily(t, sort_terms=True))):
        new = f(tasks)
        ctx.step()
        mine = [t for t in new if t.number_of_shots == 7]
        ctx.check(new[len(mine):] and len(new) == len(mine) + 1 and new[-1].circuit == circ[1] and dict(new[-1].operator.terms) == {((0, "X"),): 1.0}
                  and new[-1].number_of_shots is None, f"tasks of {terms}: the second task is {new[len(mine):]}")
        ctx.check(all(t.circuit == circ[0] for t in mine), f"tasks of {terms}: circuits")
        check_groups(ctx, [t.operator for t in mine], terms, f"tasks of {terms}")
        if f is E.group_individually:
            ctx.eq([dict(t.operator.terms) for t in mine], [{t: c} for t, c in before], f"individual terms of {terms}")
    ctx.eq(list(op.terms.items()), before, f"grouping tasks of {terms} changed the operator")


def quiet(f):
    import contextlib
    import io

    def g(x):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(x)
    return g


_uni = {}


def unitary_of(c, n):
    k = (str(c), n)
    if k not in _uni:
        full = Circuit([], n_qubits=n) + c
        _uni[k] = ref.tolist(full.to_unitary()) if full.operations else [[1.0 if i == j else 0.0 for j in range(1 << n)] for i in range(1 << n)]
    return _uni[k]


def gen_ctx(tier):
    for n in (1, 2, 3):
        for basis in itertools.product("XYZ", repeat=n):
            masks = list(itertools.product((0, 1), repeat=n))
            for L in range(0, 4 if n < 3 or tier == "thorough" else 3):
                for c in itertools.permutations(range(len(masks)), L) if L < 3 else itertools.combinations(range(len(masks)), L):
                    yield ["".join(basis), list(c)]
            yield ["".join(basis), list(range(len(masks)))]
            yield ["".join(basis), list(reversed(range(len(masks))))]


_mat = {}


def pmat(t, n):
    if (t, n) not in _mat:
        _mat[t, n] = np.array(ref.pauli_term(t, n), dtype=complex)
    return _mat[t, n]


def step_ctx(ctx, case):
    basis, idx = case
    n = len(basis)
    masks = list(itertools.product((0, 1), repeat=n))
    terms = [(tuple((q, basis[q]) for q in range(n) if masks[i][q]), COEF[k % 5]) for k, i in enumerate(idx)]
    op = mk(terms)
    before = list(op.terms.items())
    ctx.state((basis, tuple(idx)))
    c, ising = E.get_context_selection_circuit_for_group(op)
    ctx.step()
    what = f"context of {terms}"
    ctx.check(isinstance(ising, IsingOperator), f"{what}: operator type")
    ctx.eq(list(op.terms.items()), before, f"{what}: operator changed")
    ctx.check(c.n_qubits <= n, f"{what}: circuit on {c.n_qubits} qubits")
    ctx.eq([(tuple(q for q, _ in t), cf) for t, cf in ising.terms.items()], [(tuple(q for q, _ in t), cf) for t, cf in terms], f"{what}: diagonal operator")
    u = np.array(unitary_of(c, n), dtype=complex)
    for (t, _), zt in zip(terms, ising.terms):
        z = pmat(tuple((q, "Z") for q, _ in zt), n)
        got = u.conj().T.dot(z).dot(u)
        ctx.check(np.abs(got - pmat(t, n)).max() < 1e-9, f"{what}: measuring {zt} after the basis change does not measure {t}")


PREP = [["g", "RY", [0.7], [0], []], ["g", "RX", [1.2], [1], []], ["g", "CNOT", [], [0, 2], []], ["g", "RZ", [0.4], [2], []], ["g", "RY", [-0.8], [2], []],
        ["g", "PHASE", [0.9], [1], []], ["g", "CNOT", [], [2, 1], []]]


def gen_flow(tier):
    S = [t for t in strings(3)]
    for i in range(len(S)):
        for j in range(i + 1, len(S), 1 if tier == "thorough" else 2):
            yield [i, j, (i * 7 + j * 3) % 64]


_wf = {}


def probs(c):
    k = str(c)
    if k not in _wf:
        _wf[k] = np.array(ref.run([zq_of(o) for o in c.operations], c.n_qubits))
    return np.abs(_wf[k]) ** 2


def zq_of(o):
    m = ref.tolist(o.gate.matrix)
    return m, list(o.qubit_indices)


def step_flow(ctx, case):
    """the whole preparation: group, change basis, measure; the sum is the expectation of the operator"""
    S = strings(3)
    terms = []
    for k, i in enumerate(case):
        if all(t != S[i] for t, _ in terms):
            terms.append((S[i], [1.5, -0.25, 2.0][k]))
    ctx.state(tuple(case))
    base = Circuit([zq.real_op(d) for d in PREP], n_qubits=3)
    v = ref.run([zq.ref_op(d) for d in PREP], 3)
    tasks = [EstimationTask(mk(terms), base, 5)]
    for f in (E.group_individually, quiet(lambda t: E.group_greedily(t)), quiet(lambda t: E.group_greedily(t, sort_terms=True))):
        groups = f(tasks)
        sel = E.perform_context_selection(groups)
        ctx.step()
        ctx.eq(len(sel), len(groups), f"{terms}: tasks after context selection")
        got = {}
        for g, s in zip(groups, sel):
            ctx.check(s.number_of_shots == 5 and s.circuit.n_qubits == 3, f"{terms}: shots or register after context selection")
            ctx.check(list(s.circuit.operations[: len(PREP)]) == list(base.operations), f"{terms}: circuit is not extended at its end")
            p = probs(s.circuit)
            for (t, cf), (zt, zc) in zip(g.operator.terms.items(), s.operator.terms.items()):
                got[t] = zc * sum(p[i] * (-1) ** sum(ref.bits(i, 3)[q] for q, _ in zt) for i in range(8))
        for t, cf in terms:
            e = ref.expect(ref.pauli_term(t, 3, cf), v)
            ctx.check(abs(got[t] - e) < 1e-8, lambda: f"{terms}: {t} is measured as {got[t]}, expected {e}")
        ctx.check(groups[0].circuit == base, f"{terms}: tasks changed")


def gen_many(tier):
    for shift in range(0, 64, 8 if tier == "quick" else 1):
        for step in (1, 5, 11, 27):
            for L in (11, 32, 64):
                yield [shift, step, L]


def step_many(ctx, case):
    """operators of many terms: all groups and the whole preparation"""
    shift, stp, L = case
    S = strings(3)
    terms = [(S[(shift + k * stp) % 64], (1.0 + k) * (-1) ** k / (1 + (k * 7) % 5)) for k in range(L)]
    op = mk(terms)
    before = list(op.terms.items())
    ctx.state(tuple(case))
    base = Circuit([zq.real_op(d) for d in PREP], n_qubits=3)
    v = ref.run([zq.ref_op(d) for d in PREP], 3)
    for sort in (False, True):
        ctx.step()
        groups = H.group_comeasureable_terms_greedy(op, sort_terms=sort)
        check_groups(ctx, groups, terms, f"groups of {case}")
        made = quiet(lambda t: E.group_greedily(t, sort_terms=sort))([EstimationTask(op, base, 9)])
        check_groups(ctx, [t.operator for t in made], terms, f"tasks of {case}")
        sel = E.perform_context_selection(made)
        got = {}
        for g, s in zip(made, sel):
            p = probs(s.circuit)
            ctx.check(s.number_of_shots == 9 and len(s.operator.terms) == len(g.operator.terms), f"{case}: shots or terms after context selection")
            for (t, cf), (zt, zc) in zip(g.operator.terms.items(), s.operator.terms.items()):
                got[t] = zc * sum(p[i] * (-1) ** sum(ref.bits(i, 3)[q] for q, _ in zt) for i in range(8))
        for t, cf in terms:
            e = ref.expect(ref.pauli_term(t, 3, cf), v)
            ctx.check(t in got and abs(got[t] - e) < 1e-8, lambda: f"{case}: {t} is measured as {got.get(t)}, expected {e}")
    ctx.eq(list(op.terms.items()), before, f"{case}: operator changed")


def gen_wide(tier):
    n = 13
    for q in range(n):
        for d in range(1, n):
            for axes in itertools.product("XYZ", repeat=2):
                if tier == "quick" and (q + d + "XYZ".index(axes[0])) % 2:
                    continue
                yield [n, q, (q + d) % n, "".join(axes)]


def step_wide(ctx, case):
    """two-digit qubit indices; terms in unsorted order; the basis change is a product of one-qubit rotations"""
    n, q, r, axes = case
    a, b = axes
    rest = [k for k in range(n) if k not in (q, r)]
    terms = [(((q, a), (r, b)), 1.0), (((q, a),), 0.5), ((), 2.0), (((r, b), (rest[0], "Z")), -1.5), (((rest[1], "X"), (rest[2], "Y")), 1.0)]
    terms = [(tuple(sorted(t)), c) for t, c in terms]
    op = mk(terms)
    ctx.state(tuple(case))
    ctx.step()
    for t, u in itertools.product([t for t, _ in terms], repeat=2):
        ctx.eq(bool(H.is_comeasureable(t, u)), como(t, u), f"co-measurable {t} and {u}")
    other = {"X": "Y", "Y": "Z", "Z": "X"}
    bad = ((r, other[b]),)
    ctx.check(not H.is_comeasureable(terms[0][0], bad), f"co-measurable {terms[0][0]} and {bad}")
    ctx.raises(lambda: E.get_context_selection_circuit_for_group(mk(terms + [(bad, 1.0)])), f"context for {terms} with {bad}", ValueError)
    groups = H.group_comeasureable_terms_greedy(mk(terms + [(bad, 1.0)]))
    check_groups(ctx, groups, terms + [(bad, 1.0)], f"groups of {case}")
    c, ising = E.get_context_selection_circuit_for_group(op)
    axis = {}
    for t, _ in terms:
        axis.update(dict(t))
    # conjugate Z on every qubit through the rotations of the circuit
    local = {}
    for o in c.operations:
        ctx.check(len(o.qubit_indices) == 1, f"{case}: basis change acts on {o.qubit_indices}")
        k = o.qubit_indices[0]
        m = np.array(ref.tolist(o.gate.matrix), dtype=complex)
        local[k] = m.dot(local.get(k, np.eye(2)))
    P = {"X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]]}
    for k in range(n):
        u = local.get(k, np.eye(2))
        if k not in axis:
            continue
        got = u.conj().T.dot(np.array(P["Z"])).dot(u)
        ctx.check(np.abs(got - np.array(P[axis[k]])).max() < 1e-9, f"{case}: qubit {k} is not measured along {axis[k]}")
    ctx.eq([(tuple(sorted(z for z, _ in t)), cf) for t, cf in ising.terms.items()], [(tuple(z for z, _ in t), cf) for t, cf in terms], f"{case}: diagonal operator")
    ctx.check(all(x == "Z" for t in ising.terms for _, x in t), f"{case}: diagonal operator")
    sel = E.perform_context_selection([EstimationTask(op, Circuit([], n_qubits=n), 3)])[0]
    ctx.check(sel.circuit.n_qubits == n and dict(sel.operator.terms) == dict(ising.terms) and sel.number_of_shots == 3, f"{case}: task after context selection")


def gen_name(tier):
    for s in ("greedy", "greedy-sorted", "", "Greedy", "greedy_sorted", "sorted", None, 1):
        yield [s]


def step_name(ctx, case):
    ctx.state(tuple(case))
    ctx.step()
    if case[0] in ("greedy", "greedy-sorted"):
        op = mk([(((0, "Z"),), 0.5), (((0, "X"),), 2.0), (((1, "X"),), 1.0)])
        groups = H.get_decomposition_function(case[0])(op)
        want = [[((0, "Z"),), ((1, "X"),)], [((0, "X"),)]] if case[0] == "greedy" else [[((0, "X"),), ((1, "X"),)], [((0, "Z"),)]]
        ctx.eq([list(g.terms) for g in groups], want, f"{case}: groups in the documented greedy order")
    else:
        ctx.raises(lambda: H.get_decomposition_function(case[0]), f"decomposition method {case[0]!r}", ValueError)


# ---- lists of tasks: every task is prepared as if it were alone -------------------------------
LIST_OPS = [[(((0, "X"),), 1.0)], [(((0, "X"),), 2.0)], [(((0, "Y"),), 2.0)], [(((0, "X"),), -1.0), ((), 0.5)], [((), 0.5)], [(((0, "X"), (1, "Y")), 1.0), (((0, "X"),), 3.0)], [(((0, "X"),), 3.0), (((0, "X"), (1, "Y")), 1.0)],
            [(((0, "X"), (1, "Y")), 1.5), (((1, "Y"),), 3.0)], [(((1, "Z"),), 1.0)], [(((0, "Z"), (1, "Z")), 1.0)], [(((0, "X"),), 1j)], []]
MIXED_OPS = LIST_OPS + [[(((0, "X"),), 1.0), (((0, "Y"),), 2.0), ((), 3.0)], [(((0, "X"),), 2.0), (((0, "Y"),), 1.0), ((), 3.0)], [(((0, "Y"),), 1.0), (((0, "X"),), 2.0)]]


def gen_lists(tier):
    for mixed in (0, 1):
        n = len(MIXED_OPS if mixed else LIST_OPS)
        for L in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            for idx in itertools.product(range(n), repeat=L):
                for pat in ((0, 0), (0, 1)) if L < 3 else ((0, 1),):
                    yield [mixed, list(idx), list(pat)]


def step_lists(ctx, case):
    mixed, idx, pat = case
    ctx.state((mixed, tuple(idx), tuple(pat)))
    circs = [Circuit([zq.real_op(["g", "H", [], [0], []])], n_qubits=2), Circuit([zq.real_op(["g", "RX", [0.3], [1], []])], n_qubits=3)]
    pool = MIXED_OPS if mixed else LIST_OPS

    def tasks():
        return [EstimationTask(mk(pool[i]), circs[pat[k % 2]], [5, None, 7][(k + i) % 3]) for k, i in enumerate(idx)]

    def view(ts):
        return [(list(t.operator.terms.items()), type(t.operator), str(t.circuit), t.circuit.n_qubits, t.number_of_shots) for t in ts]

    fs = [("individually", E.group_individually), ("greedily", quiet(lambda t: E.group_greedily(t))), ("greedily sorted", quiet(lambda t: E.group_greedily(t, sort_terms=True)))]
    if not mixed:
        fs.append(("context selection", E.perform_context_selection))
    for name, f in fs:
        given = tasks()
        got = f(given)
        ctx.step()
        alone = [x for t in tasks() for x in view(f([t]))]
        ctx.eq(view(got), alone, "%s: tasks of the list %s" % (name, [pool[i] for i in idx]))
        ctx.eq(view(given), view(tasks()), "%s: given tasks" % name)
    if not mixed:
        for t, s in zip(tasks(), E.perform_context_selection(tasks())):
            ctx.eq([(tuple((q, "Z") for q, _ in k), c) for k, c in t.operator.terms.items()], [(tuple(k), c) for k, c in s.operator.terms.items()], "diagonal operator of a task in a list")
            ctx.check(s.circuit.n_qubits == t.circuit.n_qubits and s.number_of_shots == t.number_of_shots, "register or shots of a task in a list")


FRESH = zqfresh.Fresh(zqfreshlist.C15)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("pairs", gen_pairs, step_pairs, "all pairs of Pauli strings on 3 qubits: co-measurability and rejection"),
    Space("grouping", gen_group, step_group, "all ordered choices of up to 3 (thorough 4, half of them) Pauli strings on 2 qubits and all pairs on 3, five grouping functions, three task transformations"),
    Space("context", gen_ctx, step_ctx, "every basis on up to 3 qubits with ordered choices of up to 2-3 co-measurable terms and all of them, as matrices"),
    Space("pipeline", gen_flow, step_flow, "operators of 3 terms on 3 qubits, one of every (second) pair of strings, through grouping, basis change and exact measurement"),
    Space("many", gen_many, step_many, "operators of 11, 32 and 64 terms on 3 qubits from 8 (thorough 64) starts and 4 strides, through grouping, basis change and exact measurement"),
    Space("wide", gen_wide, step_wide, "13 qubits, every ordered pair of qubits with half of (thorough all) the pairs of axes"),
    Space("names", gen_name, step_name, "known and unknown decomposition methods"),
    Space("lists", gen_lists, step_lists, "all lists of up to 2 (thorough 3) tasks over 12-15 operators that share strings, coefficients or order, two patterns of circuits: every task is prepared as if it were alone"),
]
