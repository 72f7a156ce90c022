"""C27: texts, files and dictionaries of operators denote the operators they were made from; relabelling moves factors only."""
import io
import itertools
import json
import os
import pathlib
import re

import numpy as np
import sympy

from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc import ref, rng
from checks.C26 import INDICES, d_op
from mc.core import Space
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import (FermionOperator, InteractionOperator, InteractionRDM, IsingOperator, QubitOperator, change_operator_type, convert_dict_to_isingop,
                                       convert_dict_to_qubitop, convert_isingop_to_dict, convert_qubitop_to_dict, create_circuits_from_qubit_operator, evaluate_qubit_operator,
                                       evaluate_qubit_operator_list, generate_random_qubitop, get_expectation_value, get_pauli_strings, get_qubitop_from_coeffs_and_labels,
                                       get_qubitop_from_matrix, load_interaction_operator, load_interaction_rdm, load_ising_operator, load_qubit_operator, load_qubit_operator_set,
                                       reverse_qubit_order, save_interaction_operator, save_interaction_rdm, save_ising_operator, save_parameter_grid_evaluation, save_qubit_operator,
                                       save_qubit_operator_set)
from zquantum.core.openfermion.transforms.opconversions import reorder
from zquantum.core.openfermion.utils import load_operator, save_operator, up_then_down
from zquantum.core.openfermion.utils.operator_utils import OperatorUtilsError
from zquantum.core.utils import ValueEstimate
from zquantum.core.wavefunction import Wavefunction

ID = "C27"
ASSUMPTIONS = ["a text with unbalanced brackets, or with two numbers separated by white space only, is unspecified and not compared",
               "texts keep 12 digits of complex coefficients (formatting of complex numbers by the interpreter in use)", "coefficients are finite and not negligible where texts are compared (negligible terms are not printed)",
               "the data directory of operator files is a scratch directory"]
TECHNIQUE = "exhaustive enumeration of token strings against an independent grammar, of histories of saved operator files against a model of the file, and of relabellings against permuted reference matrices"

CLS = {"q": QubitOperator, "i": IsingOperator, "f": FermionOperator}
KIND = {"q": "q", "i": "q", "f": "f"}

# ---- grammar ------------------------------------------------------------------------------------
FACTOR = {"q": re.compile(r"([XYZ])(\d+)\Z"), "i": re.compile(r"(Z)(\d+)\Z"), "f": re.compile(r"(\d+)(\^?)\Z")}
UREAL = r"(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?"
REAL = re.compile(r"[+-]?%s\Z" % UREAL)
IMAG = re.compile(r"([+-]?)(%s|)j\Z" % UREAL)
PAIR = re.compile(r"([+-]?%s)([+-])(%s|)j\Z" % (UREAL, UREAL))
PAULI = {("X", "Y"): ("Z", 1j), ("Y", "Z"): ("X", 1j), ("Z", "X"): ("Y", 1j), ("Y", "X"): ("Z", -1j), ("Z", "Y"): ("X", -1j), ("X", "Z"): ("Y", -1j)}


class Bad(Exception):
    pass


class Unspecified(Exception):
    pass


def term_of(kind, text):
    """(phase, normal form of the term)"""
    out = []
    for w in text.split():
        m = FACTOR[kind].match(w)
        if not m:
            raise Bad
        out.append((int(m.group(2)), m.group(1)) if kind != "f" else (int(m.group(1)), 1 if m.group(2) else 0))
    if kind == "f":
        return 1, tuple(out)
    phase, by = 1, {}
    for q, p in out:
        if q not in by:
            by[q] = p
        elif by[q] == p:
            del by[q]
        else:
            by[q], x = PAULI[by[q], p]
            phase *= x
    return phase, tuple(sorted(by.items()))


def unsigned(text):
    """number without an outer sign; None if it is not one"""
    if REAL.match(text):
        return float(text)
    m = IMAG.match(text)
    if m:
        return complex(0, (-1 if m.group(1) == "-" else 1) * (float(m.group(2)) if m.group(2) else 1.0))
    inner = text[1:-1] if text[:1] == "(" and text[-1:] == ")" else text
    m = PAIR.match(inner)
    if m:
        return complex(float(m.group(1)), (-1 if m.group(2) == "-" else 1) * (float(m.group(3)) if m.group(3) else 1.0))
    if inner != text and IMAG.match(inner):
        return unsigned(inner)
    return None


def coefficient_of(text):
    if re.search(r"[\dj.]\s+[\dj.]", text) or re.search(r"\de\s|e[+-]?\s+\d", text):
        raise Unspecified
    t = "".join(text.split())
    if t[:1] == "+":
        t = t[1:]
    if t == "":
        return 1.0
    if t == "-":
        return -1.0
    if t[:1] == "-" and t[1:2] == "(":
        v = unsigned(t[1:])
        if v is None or not isinstance(v, complex):
            raise Bad
        return -v
    v = unsigned(t)
    if v is None:
        raise Bad
    return v


def parse(kind, text):
    out = {}
    if "[" not in text:
        if "]" in text:
            raise Bad
        phase, t = term_of(kind, text)
        return {t: phase * 1.0}
    pos = 0
    while True:
        a = text.find("[", pos)
        if a < 0:
            if "]" in text[pos:]:
                raise Unspecified
            return out
        b = text.find("]", a)
        if b < 0:
            raise Unspecified
        c = coefficient_of(text[pos:a])
        phase, t = term_of(kind, text[a + 1:b])
        out[t] = out.get(t, 0) + c * phase
        pos = b + 1


TOKENS = {"q": ["X0", "Z1", "Y12", "X", "0", "-", "+", " ", "[", "]", "1.5", "2j", "(1-2j)", "Q0", "X-1"], "i": ["Z0", "Z10", "X0", "-", "+", " ", "[", "]", "2", "(1-2j)"],
          "f": ["0^", "1", "12^", "^", "-", "+", " ", "[", "]", "1.5", "(1-2j)", "0"]}
# larger building blocks: whole terms and separators
BLOCKS = {"q": ["[X0 Y1]", "[]", "[Y1  X0]", "[X0 Y0 Z0]", "[Z0 X0]", "[Z3 Z3]", "[W0]", "[X0Y1]", "1.5", "-1.5", "2j", "-2j", "(1+2j)", "-(1-2j)", "(-1-2j)", "1e-3", "-1.5e+1", ".5", "j", "x", "+", " + ", "-", "\n", "+\n", " "],
          "i": ["[Z0 Z1]", "[]", "[Z1 Z0]", "[Z0 Z0 Z2]", "[X0]", "1.5", "-2j", "-(1-2j)", "1e-3", "+", " - ", "\n"],
          "f": ["[0^ 1]", "[]", "[1 0^]", "[1 1]", "[2^ 2]", "[^0]", "[0^1]", "[-1^]", "1.5", "-2j", "-(1-2j)", "1e-3", "+", " - ", "\n"]}


def gen_parse(tier):
    for kind in "qif":
        for d in range(0, 6 if tier == "thorough" else 5):
            if d < 2:
                for seq in itertools.product(range(len(TOKENS[kind])), repeat=d):
                    yield ["tokens", kind, list(seq), 0]
            else:
                for seq in itertools.product(range(len(TOKENS[kind])), repeat=2):
                    yield ["tokens", kind, list(seq), d - 2]
        for d in range(1, 6 if tier == "thorough" and kind != "q" else 5):
            for a in range(len(BLOCKS[kind])):
                yield ["blocks", kind, [a], d - 1]


def step_parse(ctx, case):
    what, kind, head, more = case
    pool = TOKENS[kind] if what == "tokens" else BLOCKS[kind]
    cls = CLS[kind]
    ctx.state((what, kind, tuple(head), more))
    head = "".join(pool[i] for i in head)
    for rest in itertools.product(pool, repeat=more):
        text = head + "".join(rest)
        try:
            want = parse(kind, text)
        except Unspecified:
            continue
        except Bad:
            want = None
        ctx.step()
        try:
            got = cls(text).terms
        except ValueError:
            got = None
        if want is None or got is None:
            ctx.check(want is None and got is None, lambda: "%s(%r) gives %r, its meaning is %r" % (cls.__name__, text, got, want))
        else:
            ok = set(got) == set(want) and all(abs(got[t] - want[t]) < 1e-12 for t in want)
            ctx.check(ok, lambda: "%s(%r) gives %r, its meaning is %r" % (cls.__name__, text, got, want))
            if ok and "[" in text:
                scaled = cls(text, 2j).terms
                ctx.check(all(abs(scaled.get(t, 0) - 2j * want[t]) < 1e-12 for t in want), lambda: "%s(%r, 2j) gives %r" % (cls.__name__, text, scaled))


# ---- printing -----------------------------------------------------------------------------------
COEFS = [1.0, -1.0, 0.1, -2.5e-7, 1e22, 1 / 3, 3, -7, 1j, -1j, 1 + 2j, -1 - 2j, -0.1 + 1e-7j, 2 - 1 / 3j, 1e300j, complex(-3, 0), np.float64(0.3), np.complex128(-0.2 + 0.1j)]
TERMS = {"q": [(), ((0, "X"),), ((0, "Y"), (12, "Z")), ((3, "Z"), (4, "X"), (5, "Y"))], "i": [(), ((0, "Z"),), ((0, "Z"), (12, "Z")), ((3, "Z"), (4, "Z"), (5, "Z"))],
         "f": [(), ((0, 1),), ((12, 0), (0, 1)), ((1, 1), (1, 1), (0, 0), (3, 0))]}


def alike(a, b):
    """equal up to the 12 digits the interpreter's formatting of complex numbers keeps"""
    return set(a) == set(b) and all(abs(a[t] - b[t]) <= 1e-11 * abs(b[t]) for t in b)


def make(kind, items):
    op = CLS[kind]()
    for t, c in items:
        op.terms[t] = c
    return op


def gen_print(tier):
    for kind in "qif":
        for a in range(len(COEFS)):
            for b in range(-1, len(COEFS)):
                yield [kind, a, b]


def step_print(ctx, case):
    kind, a, b = case
    ctx.state(tuple(case))
    T = TERMS[kind]
    sets = list(itertools.permutations(range(len(T)), 2)) if b >= 0 else [(k,) for k in range(len(T))]
    third = [None] if not ctx.thorough else [None, 0.25, -1j]
    for ks in sets:
        for c in third:
            items = [(T[ks[0]], COEFS[a])] + ([(T[ks[1]], COEFS[b])] if b >= 0 else [])
            if c is not None:
                items += [(T[k], c) for k in range(len(T)) if k not in ks][:1]
            op = make(kind, items)
            for text in (str(op), repr(op)):
                ctx.step()
                back = CLS[kind](text)
                ctx.check(alike(back.terms, op.terms), lambda: "%r is printed as %r and read as %r" % (op.terms, text, back.terms))
            ctx.eq(str(make(kind, items[::-1])), str(op), "text of the same terms in another order")
            ctx.check(alike(parse(kind, str(op)), op.terms), lambda: "%r is printed as %r" % (op.terms, str(op)))
            ctx.eq(str(op).count("["), len(items), "number of printed terms")
            # joining texts with a plus sign adds operators
            both = CLS[kind](str(op) + " + " + str(op))
            ctx.check(both == op * 2, "joined texts")


# ---- files: histories of one file ------------------------------------------------------------
def file_ops():
    ops = []
    for kind in "qf":
        T = TERMS[kind]
        ops.append((kind, []))
        ops.append((kind, [(T[0], 1.5), (T[2], -1 + 0.1j)]))
        ops.append((kind, [(T[1], 2), (T[3], -0.25), (T[0], 1j)]))
    return ops


OPS = file_ops()
EVENTS = [("save", k, plain, over) for k in range(len(OPS)) for plain in (False, True) for over in (False, True)] + [("load", plain) for plain in (False, True)] + [
    ("save-invalid", "rdm"), ("save-invalid", "ising"), ("save-invalid", "sympy")]


def gen_files(tier):
    for e in range(len(EVENTS)):
        for f in range(len(EVENTS)):
            yield [e, f, 0]
            if tier == "thorough" or EVENTS[e][0] == "save" and EVENTS[e][3] is False:
                yield [e, f, 1]


def invalid(which):
    if which == "rdm":
        return InteractionRDM(np.zeros((2, 2)), np.zeros((2, 2, 2, 2)))
    if which == "ising":
        return IsingOperator("Z0")
    return QubitOperator("X0", sympy.Symbol("t"))


def step_files(ctx, case):
    e, f, more = case
    ctx.state(tuple(case))
    d = str(ctx.scratch)
    for k, rest in enumerate(itertools.product(range(len(EVENTS)), repeat=more)):
        content = None  # (kind, items, plain)
        name = "h%d%s" % (k, ".data" if k % 2 else "")
        path = os.path.join(d, "h%d.data" % k)
        if os.path.exists(path):
            os.remove(path)
        for ev in [EVENTS[e], EVENTS[f], *(EVENTS[x] for x in rest)]:
            ctx.step()
            before = open(path, "rb").read() if os.path.exists(path) else None
            if ev[0] == "save":
                kind, items = OPS[ev[1]]
                op = make(kind, items)
                if content is not None and not ev[3]:
                    ctx.raises(lambda: save_operator(op, name, d, plain_text=ev[2]), "overwriting without permission", OperatorUtilsError)
                    ctx.check(open(path, "rb").read() == before, "a refused save changed the file")
                else:
                    save_operator(op, name, d, allow_overwrite=ev[3], plain_text=ev[2])
                    content = (kind, items, ev[2])
                ctx.eq(op.terms, dict(items), "saved operator")
            elif ev[0] == "save-invalid":
                ctx.raises(lambda: save_operator(invalid(ev[1]), name, d, allow_overwrite=True), "saving an operator that has no file form", Exception)
                ctx.check((open(path, "rb").read() if os.path.exists(path) else None) == before, "a failed save changed the file")
            elif content is None:
                ctx.raises(lambda: load_operator(name, d, plain_text=ev[1]), "loading a file that does not exist", OSError)
            elif ev[1] == content[2]:
                kind, items, _ = content
                back = load_operator(name, d, plain_text=ev[1])
                ctx.check(type(back) is CLS[kind] and alike(back.terms, dict(items)), lambda: "%r loaded as %s %r" % (items, type(back).__name__, back.terms))
                back += CLS[kind](())
                back *= 2
        ctx.eq(sorted(x for x in os.listdir(d) if x.startswith("h%d." % k)), ["h%d.data" % k] if content is not None else [], "files")
    ctx.raises(lambda: save_operator(make("q", OPS[1][1]), "", d), "file without a name", OperatorUtilsError)
    ctx.raises(lambda: load_operator(None, d), "file without a name", OperatorUtilsError)


# ---- JSON -------------------------------------------------------------------------------------
def gen_json(tier):
    for kind in "qi":
        for a in range(len(COEFS)):
            for b in range(-1, len(COEFS)):
                yield ["op", kind, a, b]
    for n in range(0, 4):
        for ks in itertools.product(range(3), repeat=n):
            yield ["set", "q", list(ks), 0]
    for n in (1, 2):
        for typ in range(3):
            for const in range(4):
                yield ["io", n, typ, const]
    for n in range(0, 3):
        for ks in itertools.product(range(4), repeat=n):
            yield ["grid", "", list(ks), 0]


def each_source(ctx, path, load):
    """the same file through every kind of source"""
    out = [load(str(path)), load(pathlib.Path(path)), load(os.fsencode(str(path)))]
    with open(path) as f:
        out.append(load(f))
    out.append(load(io.StringIO(open(path).read())))
    ctx.step(len(out))
    return out


def step_json(ctx, case):
    what, kind, a, b = case
    ctx.state(repr(case))
    path = os.path.join(ctx.scratch, "o.json")
    if what == "op":
        T = TERMS[kind]
        save, load, to, frm = (save_qubit_operator, load_qubit_operator, convert_qubitop_to_dict, convert_dict_to_qubitop) if kind == "q" else (save_ising_operator, load_ising_operator, convert_isingop_to_dict, convert_dict_to_isingop)
        for ks in itertools.permutations(range(len(T)), 2) if b >= 0 else [(k,) for k in range(len(T))] + [()]:
            items = [(T[k], COEFS[[a, b][j]]) for j, k in enumerate(ks)]
            op = make(kind, items)
            save(op, path)
            for back in each_source(ctx, path, load) + [frm(to(op)), frm(json.loads(json.dumps(to(op))))]:
                ctx.check(type(back) is CLS[kind] and list(back.terms.items()) == items, lambda: "%r came back as %r" % (items, back.terms))
            ctx.eq(list(op.terms.items()), items, "saved operator")
        return
    if what == "set":
        T = TERMS["q"]
        ops = [make("q", [[], [(T[1], 0.5), (T[0], -1j)], [(T[3], 2)]][k]) for k in a]
        save_qubit_operator_set(ops, path)
        for back in each_source(ctx, path, load_qubit_operator_set):
            ctx.eq([list(x.terms.items()) for x in back], [list(x.terms.items()) for x in ops], "set of operators")
        return
    if what == "io":
        n, typ, const = kind, a, b
        shape = [(n, n), (n,) * 4]
        tens = [np.arange(1, 1 + n ** len(s), dtype=float).reshape(s) * 0.3 - 0.7 for s in shape]
        if typ == 1:
            tens = [t * (1 - 0.5j) + 0.25j for t in tens]
        elif typ == 2:
            tens = [tens[0], tens[1] * 1j]
        c = [0.0, -1.5, 2 - 1j, 1e-17][const]
        op = InteractionOperator(c, tens[0].copy(), tens[1].copy())
        save_interaction_operator(op, path)
        for back in each_source(ctx, path, load_interaction_operator):
            ctx.check(type(back) is InteractionOperator and back.constant == c and np.array_equal(back.one_body_tensor, tens[0]) and np.array_equal(back.two_body_tensor, tens[1])
                      and back.one_body_tensor.shape == shape[0] and back.two_body_tensor.shape == shape[1], lambda: "interaction operator with constant %s came back as %s" % (c, back.constant))
            ctx.check(back == op, "interaction operators compare equal")
        rdm = InteractionRDM(tens[0].copy(), tens[1].copy())
        save_interaction_rdm(rdm, path)
        for back in each_source(ctx, path, load_interaction_rdm):
            ctx.check(type(back) is InteractionRDM and np.array_equal(back.one_body_tensor, tens[0]) and np.array_equal(back.two_body_tensor, tens[1]), "interaction RDM")
        return
    pool = [{"value": ValueEstimate(0.5), "parameter1": 1.5}, {"value": ValueEstimate(-1.0, 0.25), "p": [1, 2]}, {"value": ValueEstimate(2.0, 0.0)}, {"value": ValueEstimate(1e-3), "x": "y"}]
    evs = [dict(pool[k]) for k in a]
    keep = [dict(x) for x in evs]
    save_parameter_grid_evaluation(evs, path)
    ctx.step()
    data = json.load(open(path))
    ctx.eq(len(data["values_set"]), len(a), "number of evaluations")
    for k, got in zip(a, data["values_set"]):
        ctx.eq(ValueEstimate.from_dict(got["value"]), pool[k]["value"], "stored value")
        ctx.eq({x: y for x, y in got.items() if x != "value"}, {x: y for x, y in pool[k].items() if x != "value"}, "stored parameters")
    ctx.check(evs == keep and all(isinstance(x["value"], ValueEstimate) for x in evs), "evaluations after saving")


# ---- relabelling --------------------------------------------------------------------------------
def gen_relabel(tier):
    n = 3 if tier == "quick" else 4
    for kind in "qif":
        acts = {"q": "XYZ", "i": "Z", "f": (1, 0)}[kind]
        fs = [(q, a) for q in range(n) for a in acts]
        for d in range(0, 3 if tier == "quick" or kind == "q" else 4):
            for t in itertools.product(fs, repeat=d):
                if kind != "f" and sorted({q for q, _ in t}) != [q for q, _ in t]:
                    continue
                yield [kind, n, [list(f) for f in t]]


def step_relabel(ctx, case):
    kind, n, t = case
    t = tuple(tuple(f) for f in t)
    ctx.state(repr(case))
    extra = {"q": ((0, "Y"), (1, "Z")), "i": ((0, "Z"), (1, "Z")), "f": ((1, 1), (0, 0))}[kind]
    op = CLS[kind](t, 1.5 - 1j) + CLS[kind](extra, 0.5) + CLS[kind]((), 2)
    base = dict(op.terms)
    for nm in (n, n + 1):
        for perm in itertools.permutations(range(nm)):
            for rev in (False, True):
                where = list(perm)
                if rev:
                    where = [perm.index(q) for q in range(nm)]
                got = reorder(op, lambda i, k: perm[i], num_modes=nm, reverse=rev)
                ctx.step()
                want = om.terms([(tuple((where[q], a) for q, a in s), c) for s, c in base.items()], nm, KIND[kind])
                ctx.check(type(got) is CLS[kind] and om.dist(om.terms(got.terms, nm, KIND[kind]), want) < 1e-12, lambda: "reorder of %r by %s reverse=%s gives %r" % (base, perm, rev, got.terms))
                if not rev:
                    ctx.check(reorder(got, lambda i, k: perm[i], num_modes=nm, reverse=True) == op, "reorder and back")
            if kind != "f" and nm == n:
                m = om.permute(om.terms(base, nm, KIND[kind]), nm, perm)
                ctx.check(om.dist(om.terms(reorder(op, lambda i, k: perm[i], num_modes=nm).terms, nm, "q"), m) < 1e-12, "matrix of the relabelled operator")
    used = max(q for s in base for q, _ in s) + 1
    for nm in (None, used, n + 2):
        k = used if nm is None else nm
        got = reorder(op, up_then_down, nm)
        order = list(range(0, k, 2)) + list(range(1, k, 2))
        want = {}
        for s, c in base.items():
            w = tuple((order.index(q), a) for q, a in s)
            w = tuple(sorted(w)) if kind != "f" else w
            want[w] = want.get(w, 0) + c
        ctx.eq(got.terms, want, "up-then-down order of %r on %s modes" % (base, nm))
        ctx.check(reorder(got, up_then_down, k, reverse=True) == op, "up-then-down and back")
    ctx.eq(op.terms, base, "operator after relabelling")
    for k in range(0, 12):
        ctx.eq([up_then_down(i, k) for i in range(k)], [(list(range(0, k, 2)) + list(range(1, k, 2))).index(i) for i in range(k)], "up-then-down order of %d modes" % k)
    if kind == "q":
        for nm in (None, used, n + 1):
            k = used if nm is None else nm
            got = reverse_qubit_order(op, nm) if nm is not None else reverse_qubit_order(op)
            ctx.step()
            ctx.check(om.dist(om.terms(got.terms, k, "q"), om.permute(om.terms(base, k, "q"), k, [k - 1 - q for q in range(k)])) < 1e-12, lambda: "reverse order of %r on %s qubits is %r" % (base, nm, got.terms))
            ctx.check(reverse_qubit_order(got, k) == op, "reversing twice")
        ctx.raises(lambda: reverse_qubit_order(op, used - 1), "too few qubits", ValueError)
    # types
    if kind == "i":
        got = change_operator_type(op, QubitOperator)
        ctx.check(type(got) is QubitOperator and got.terms == base, "Ising operator as a qubit operator")
        ctx.check(change_operator_type(got, IsingOperator) == op, "and back")
    if kind == "q":
        if all(a == "Z" for s in base for _, a in s):
            ctx.check(change_operator_type(op, IsingOperator).terms == base, "diagonal qubit operator as an Ising operator")
        else:
            ctx.raises(lambda: change_operator_type(op, IsingOperator), "operator that is not diagonal as an Ising operator", (ValueError, TypeError))


# ---- labels, matrices, expectation values ----------------------------------------------------
def gen_labels(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for i in range(2 ** n):
            for j in range(2 ** n):
                yield ["unit", n, i, j]
        for k in range(4 ** n):
            yield ["pauli", n, k, 0]
        for s in range(6):
            yield ["matrix", n, s, 0]
    for n in range(1, 4):
        for lab in itertools.product(range(4), repeat=n):
            yield ["label", n, list(lab), 0]
    for r, c in ((2, 3), (3, 3), (4, 2), (5, 5), (6, 6)):
        yield ["bad", r, c, 0]
    strings = [p for p in itertools.product("IXYZ", repeat=3)]
    for a in range(len(strings)):
        yield ["expect", a, 0, 0]
    for d in range(0, 4):
        for ks in itertools.product(range(5), repeat=d):
            yield ["evaluate", list(ks), 0, 0]
    for n in range(1, 4):
        for terms in range(0, 4):
            for loc in range(1, n + 1):
                for fixed in (0, 1):
                    if terms <= 3 ** loc * len(list(itertools.combinations(range(n), loc))):
                        yield ["random", n, terms, [loc, fixed]]


def pauli_of(label):
    return tuple((q, " XYZ"[x]) for q, x in enumerate(label) if x)


EVAL = [[], [(((0, "X"),), 1.5)], [((), -2.0), (((1, "Z"),), 1j)], [(((0, "Y"), (1, "Z")), 0.5 - 1j), ((), 1), (((2, "X"),), -0.25)], [((), 0.0), (((0, "Z"),), 3)]]


def step_labels(ctx, case):
    what, n, x, y = case
    ctx.state(repr(case))
    if what in ("unit", "pauli", "matrix"):
        N = 2 ** n
        if what == "unit":
            m = [[0.0] * N for _ in range(N)]
            m[x][y] = 1.0
        elif what == "pauli":
            label = [(x >> (2 * i)) & 3 for i in range(n)]
            m = [[complex(v) for v in row] for row in ref.pauli_term(pauli_of(label), n)]
        else:
            m = [[[(i * 7 + j * 3) % 5 - 2, (i + 2 * j) % 3 * 1j - (i * j) % 4, float(i == j) * 2.5, (i + 1) * (j + 1) + (i - j) * 1j, 0, 1][x] for j in range(N)] for i in range(N)]
        for form in (m, np.array(m)) if what != "unit" else (m,):
            op = get_qubitop_from_matrix(form)
            ctx.step()
            got = om.terms(op.terms, n, "q")
            ctx.check(om.dist(got, om.from_dense(m)) < 1e-10, lambda: "expansion of %r is %r" % (m, op.terms))
        return
    if what == "label":
        others = [[1] * n, [3] + [0] * (n - 1), [0] * n]
        coefs = [0.5, -2.0, 1j, 3]
        op = get_qubitop_from_coeffs_and_labels(coefs, [x] + others)
        want = om.terms([(pauli_of(l), c) for l, c in zip([x] + others, coefs)], n, "q")
        ctx.step()
        ctx.check(om.dist(om.terms(op.terms, n, "q"), want) < 1e-12, lambda: "labels %s give %r" % (x, op.terms))
        ctx.eq(get_qubitop_from_coeffs_and_labels([], []).terms, {}, "no labels")
        one = QubitOperator(pauli_of(x), -0.5)
        ctx.eq(get_pauli_strings(one + QubitOperator("Z2 X11")), ["".join("%s%d" % (p, q) for q, p in pauli_of(x)), "Z2X11"], "Pauli strings")
        second = ((0, "Y"), (2, "X"))
        circs = create_circuits_from_qubit_operator(one + QubitOperator("Y0 X2", 3))
        ctx.eq([[(g.gate.name, tuple(g.qubit_indices)) for g in c.operations] for c in circs], [[(p, (q,)) for q, p in t] for t in dict.fromkeys([pauli_of(x), second])], "circuits of the terms")
        return
    if what == "bad":
        ctx.raises(lambda: get_qubitop_from_matrix([[1.0] * x for _ in range(n)]), "%d by %d matrix" % (n, x), Exception)
        return
    if what == "expect":
        string = list(itertools.product("IXYZ", repeat=3))[n]
        t = tuple((q, p) for q, p in enumerate(string) if p != "I")
        op = QubitOperator(t, 1.5) + QubitOperator("X0 Y1", -0.5) + QubitOperator((), 2)
        for v in [ref.generic_state(3, 1), ref.generic_state(3, 2)] + [[1.0 if i == k else 0.0 for i in range(8)] for k in range(8)]:
            for rev in (False, True):
                items = [(tuple((2 - q if rev else q, p) for q, p in s), c) for s, c in op.terms.items()]
                mv = om.apply(om.terms(items, 3, "q"), v)
                want = sum(complex(a).conjugate() * b for a, b in zip(v, mv))
                got = get_expectation_value(op, Wavefunction(list(v)), rev)
                ctx.step()
                ctx.check(abs(got - want) < 1e-9, lambda: "expectation of %r reversed=%s is %s instead of %s" % (op.terms, rev, got, want))
        return
    if what == "evaluate":
        ops = [make("q", EVAL[k]) for k in n]
        coefs = [c for k in n for _, c in EVAL[k]]
        vals = np.array([0.5 - 0.375 * i for i in range(len(coefs))])
        want = sum((c * v).real for c, v in zip(coefs, vals))
        got = evaluate_qubit_operator_list(ops, ExpectationValues(vals))
        ctx.step()
        ctx.check(abs(got.value - want) < 1e-12 and got.precision is None, "value of a list of operators")
        for k in n:
            v = np.array([0.25 * (i + 1) for i in range(len(EVAL[k]))])
            got = evaluate_qubit_operator(make("q", EVAL[k]), ExpectationValues(v))
            ctx.check(abs(got.value - sum((c * w).real for (_, c), w in zip(EVAL[k], v))) < 1e-12, "value of an operator")
        return
    # random operators: every answer of the random source
    loc, fixed = y
    limit = 4000 if ctx.thorough else 400
    seen = set()

    class Cut(Exception):
        pass

    def run(ch):
        ch.budget = 0
        orig = ch.choose

        def choose(k):
            ch.budget += 1
            if ch.budget > (x + 2) * (2 * loc + 1) + x:
                raise Cut
            return orig(k)

        ch.choose = choose
        try:
            with rng.closed(ch, (0.0, 0.75)):
                return generate_random_qubitop(n, x, loc, 2.0, bool(fixed))
        except Cut:
            return None

    for k, (ch, op) in enumerate(ref.explore_choices(run)):
        if k >= limit:
            break
        ctx.step()
        if op is None:
            continue
        seen.add(tuple(sorted(op.terms)))
        ctx.eq(len(op.terms), x, "number of terms")
        for t, c in op.terms.items():
            ctx.eq(len(t), loc, "locality of %s" % (t,))
            ctx.check(all(0 <= q < n for q, _ in t), "qubits of a random operator")
            ctx.check(c == 2.0 if fixed else c in (-2.0, 1.0), lambda: "coefficient %s" % c)
    if k < limit and x:
        pool = [tuple(zip(qs, ps)) for qs in itertools.combinations(range(n), loc) for ps in itertools.product("XYZ", repeat=loc)]
        ctx.eq(len(seen), len(list(itertools.combinations(pool, x))), "every set of terms can be drawn")


# ---- many terms over indices of several digits ------------------------------------------------
def gen_wide(tier):
    for kind in "qif":
        for idx in INDICES:
            for n in (1, 9, 30) if tier == "quick" else (1, 9, 30, 150):
                for seed in range(4 if tier == "quick" else 12):
                    if kind != "i" or n <= 30:
                        yield [kind, idx, n, seed]


def step_wide(ctx, case):
    kind, idx, n, seed = case
    ctx.state(tuple(case))
    cls, ix = CLS[kind], INDICES[idx]
    d = d_op(kind, seed, n, ix)
    op = make(kind, d.items())
    keep = list(op.terms.items())
    what = "%d terms over %s" % (len(d), ix)
    # texts
    text = str(op)
    ctx.check(alike(cls(text).terms, d) and alike(parse(kind, text), d), lambda: "%s: printed as %r" % (what, text))
    ctx.eq(text, str(make(kind, list(d.items())[::-1])), "text of the terms in another order")
    extra = [t for t in d_op(kind, seed + 50, n + 5, ix) if t not in d][:4]
    faint = make(kind, keep[: n // 2] + [(t, 1e-10) for t in extra] + keep[n // 2:])
    ctx.eq(str(faint), text, "text with negligible terms")
    ctx.eq(str(make(kind, [(t, -1e-9j) for t in extra])), "0", "text of negligible terms only")
    # files: plain text and binary, in a given folder and in the default one
    from zquantum.core.openfermion.utils import operator_utils
    default = os.path.join(ctx.scratch, "default")
    os.makedirs(default, exist_ok=True)
    other = os.path.join(ctx.scratch, "other")
    os.makedirs(other, exist_ok=True)
    was, operator_utils.DATA_DIRECTORY = operator_utils.DATA_DIRECTORY, default
    try:
        for where in (None, other):
            folder = default if where is None else other
            for f in os.listdir(folder):
                os.remove(os.path.join(folder, f))
            names = {"a": 1, "ab": 2, "b.data": 3, "a.b": 4}
            if kind == "i":
                ctx.raises(lambda: save_operator(op, "a", where), "Ising operators have no such files", TypeError)
                ctx.eq(os.listdir(folder), [], "files after a refused save")
            else:
                for plain in (False, True):
                    for k, (nm, f) in enumerate(names.items()):
                        save_operator(op * f, nm, where, allow_overwrite=plain, plain_text=plain)
                    ctx.eq(sorted(os.listdir(folder)), ["a.b.data", "a.data", "ab.data", "b.data"], "files")
                    for nm, f in names.items():
                        for spelled in (nm, nm if nm.endswith(".data") else nm + ".data"):
                            back = load_operator(spelled, where, plain_text=plain)
                            ctx.step()
                            ctx.check(type(back) is cls and alike(back.terms, {t: c * f for t, c in d.items()}), lambda: "%s: loaded as %r" % (what, back.terms))
                # files of something else
                with open(os.path.join(folder, "odd.data"), "w") as f:
                    f.write("BosonOperator:\n" + text)
                ctx.raises(lambda: load_operator("odd", where, plain_text=True), "file of another type", TypeError)
                import marshal
                with open(os.path.join(folder, "odd.data"), "wb") as f:
                    marshal.dump(("BosonOperator", {}), f)
                ctx.raises(lambda: load_operator("odd", where), "file of another type", TypeError)
    finally:
        operator_utils.DATA_DIRECTORY = was
    # JSON
    if kind != "f":
        path = os.path.join(ctx.scratch, "w.json")
        save, load, to, frm = (save_qubit_operator, load_qubit_operator, convert_qubitop_to_dict, convert_dict_to_qubitop) if kind == "q" else (save_ising_operator, load_ising_operator, convert_isingop_to_dict, convert_dict_to_isingop)
        save(op, path)
        for back in each_source(ctx, path, load) + [frm(json.loads(json.dumps(to(op))))]:
            ctx.check(type(back) is cls and list(back.terms.items()) == keep, lambda: "%s: came back as %r" % (what, back.terms))
        if kind == "q":
            parts = [make("q", keep[:3]), make("q", keep), make("q", keep[1:])]
            save_qubit_operator_set(parts * 4, path)
            ctx.eq([list(x.terms.items()) for x in load_qubit_operator_set(path)], [list(x.terms.items()) for x in parts * 4], "set of twelve operators")
            ctx.eq(get_pauli_strings(op), ["".join("%s%d" % (p, q) for q, p in t) for t in d], "Pauli strings")
            if max(ix) < 20:
                circs = create_circuits_from_qubit_operator(op)
                ctx.eq([[(g.gate.name, tuple(g.qubit_indices)) for g in c.operations] for c in circs], [[(p, (q,)) for q, p in t] for t in d], "circuits of the terms")
    # relabelling
    used = max((q for t in d for q, _ in t), default=0) + 1

    def moved(f):
        out = {}
        for t, c in d.items():
            w = tuple((f(q), a) for q, a in t)
            w = w if kind == "f" else tuple(sorted(w))
            out[w] = out.get(w, 0) + c
        return out

    for nm in (used, used + 1, used + 7, None):
        k = used if nm is None else nm
        half = (k + 1) // 2
        for f, back in ((up_then_down, lambda q: q // 2 + (half if q % 2 else 0)), (lambda i, m: (i * 1 + 3) % m, lambda q: (q + 3) % k), (lambda i, m: m - 1 - i, lambda q: k - 1 - q)):
            got = reorder(op, f, nm)
            ctx.step()
            ctx.eq(got.terms, moved(back), what + ": relabelled on %s modes" % nm)
            ctx.check(reorder(got, f, k, reverse=True) == op, what + ": relabelled and back")
        if kind == "q":
            got = reverse_qubit_order(op, nm)
            ctx.eq(got.terms, moved(lambda q: k - 1 - q), what + ": reversed on %s qubits" % nm)
    if kind == "q" and used > 1:
        ctx.raises(lambda: reverse_qubit_order(op, used - 1), "too few qubits", ValueError)
    ctx.eq(list(op.terms.items()), keep, "operator after everything")


def gen_dense(tier):
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        for k in range(12):
            yield ["expect", n, k]
    for n in (3,) if tier == "quick" else (3, 4):
        for k in range(4):
            yield ["matrix", n, k]
    for L in (10, 11, 12, 23):
        for k in range(8):
            yield ["label", L, k]


def step_dense(ctx, case):
    what, n, k = case
    ctx.state(tuple(case))
    ctx.step()
    if what == "expect":
        d = {t: c for t, c in d_op("q", k, 14, list(range(n))).items()}
        op = make("q", d.items())
        for v in (ref.generic_state(n, k), [1.0 if i == (k * 5) % 2 ** n else 0.0 for i in range(2 ** n)]):
            for rev in (False, True):
                items = [(tuple((n - 1 - q if rev else q, p) for q, p in s), c) for s, c in d.items()]
                mv = om.apply(om.terms(items, n, "q"), v)
                want = sum(complex(a).conjugate() * b for a, b in zip(v, mv))
                got = get_expectation_value(op, Wavefunction(list(v)), rev)
                ctx.check(abs(got - want) < 1e-9, lambda: "expectation of %r on %d qubits reversed=%s is %s instead of %s" % (d, n, rev, got, want))
        ops = [make("q", list(d.items())[i:i + 5]) for i in (0, 5, 10)]
        vals = np.array([0.5 - 0.0625 * i for i in range(14)])
        got = evaluate_qubit_operator_list(ops, ExpectationValues(vals))
        ctx.check(abs(got.value - sum((c * v).real for c, v in zip(d.values(), vals))) < 1e-12, "value of a list of operators")
        got = evaluate_qubit_operator(op, ExpectationValues(vals))
        ctx.check(abs(got.value - sum((c * v).real for c, v in zip(d.values(), vals))) < 1e-12, "value of an operator")
    elif what == "matrix":
        N = 2 ** n
        m = [[((i * 7 + j * 3 + k) % 5 - 2) + 1j * ((i + 2 * j * k) % 3) - (i * j + k) % 4 for j in range(N)] for i in range(N)]
        op = get_qubitop_from_matrix(m)
        ctx.check(om.dist(om.terms(op.terms, n, "q"), om.from_dense(m)) < 1e-9, lambda: "expansion of %r is %r" % (m, op.terms))
    else:
        labels = [[((i * (k + 1) + i * i + j) // 2) % 4 for i in range(n)] for j in range(9)]
        coefs = [0.5 * j - 1j for j in range(9)]
        op = get_qubitop_from_coeffs_and_labels(coefs, labels)
        want = {}
        for l, c in zip(labels, coefs):
            want[pauli_of(l)] = want.get(pauli_of(l), 0) + c
        ctx.check(all(abs(op.terms.get(t, 0) - want.get(t, 0)) < 1e-12 for t in set(op.terms) | set(want)), lambda: "labels %s give %r" % (labels, op.terms))


# ---- operators with a single term ---------------------------------------------------------------
def gen_single(tier):
    for kind in "qif":
        for t in range(len(TERMS[kind])):
            for a in range(len(COEFS)):
                yield [kind, t, a]


def step_single(ctx, case):
    kind, t, a = case
    ctx.state(tuple(case))
    for items in ([(TERMS[kind][t], COEFS[a])], [(TERMS[kind][t], COEFS[a]), (TERMS[kind][(t + 1) % 4], -0.5)]):
        op = make(kind, items)
        path = os.path.join(ctx.scratch, "s.json")
        if kind != "f":
            (save_qubit_operator if kind == "q" else save_ising_operator)(op, path)
            back = (load_qubit_operator if kind == "q" else load_ising_operator)(path)
            ctx.eq(list(back.terms.items()), items, "operator loaded from JSON")
        if kind != "i":
            for plain in (False, True):
                save_operator(op, "s", str(ctx.scratch), allow_overwrite=True, plain_text=plain)
                back = load_operator("s", str(ctx.scratch), plain_text=plain)
                ctx.step()
                # loading adds terms to an empty operator, which drops the negligible ones
                ctx.check(alike(back.terms, {k: c for k, c in items if abs(c) > 1e-8}), lambda: "%r loaded as %r" % (items, back.terms))


FRESH = zqfresh.Fresh(zqfreshlist.C27)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("parsing", gen_parse, step_parse, bound={"strings": "all strings of up to 4 (thorough 5) tokens from alphabets of 10-15 tokens and of up to 4 blocks (terms, coefficients, separators) for each operator type"}),
    Space("printing", gen_print, step_print, bound={"operators": "all pairs of 18 coefficients on all ordered pairs of 4 terms (thorough: with a third)"}),
    Space("files", gen_files, step_files, bound={"histories": "all pairs and triples (thorough) of 29 save/load events on one file"}),
    Space("json", gen_json, step_json, bound={"objects": "operators of up to two terms with 18 coefficients, sets of up to 3 operators, interaction operators and RDMs on 1-2 modes, grids of up to 2 evaluations; every kind of source"}),
    Space("relabelling", gen_relabel, step_relabel, bound={"terms": "all products of up to 2-3 factors on 3 (4) modes", "relabellings": "all permutations of the modes and of one more, forwards and backwards"}),
    Space("labels", gen_labels, step_labels, bound={"matrices": "unit, Pauli and pattern matrices on 1-2 (3) qubits", "labels": "all labels on up to 3 qubits", "states": "basis and two generic states of 3 qubits", "random operators": "every answer of the random source up to the cut of repeated terms"}),
    Space("wide", gen_wide, step_wide, bound={"operators": "sums of 1, 9 and 30 (150) terms over indices of up to four digits: texts (with negligible terms), files in given and default folders, JSON, relabellings"}),
    Space("dense", gen_dense, step_dense, bound={"states": "14-term operators on 4-5 (6) qubits", "matrices": "patterns on 3 (4) qubits", "labels": "9 labels of 10-23 qubits"}),
    Space("single", gen_single, step_single, bound={"operators": "one of 4 terms with one of 18 coefficients, alone or with another term, through every kind of file"}),
]
