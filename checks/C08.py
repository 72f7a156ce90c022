"""C08: every history of writes and bindings keeps a wavefunction normalizable; special states."""
import copy
import itertools
import math

import numpy as np
import sympy

from mc import ref
from mc.core import Space
from checks import zq, zqfresh, zqfreshlist
from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction

ID = "C08"
ASSUMPTIONS = [
    "writes go through the wavefunction object; changing the array returned by .amplitudes in place is outside the property",
    "keys of get_outcome_probs name the last qubit first, as the public function always did; sampling reverses them (C09)",
]
TECHNIQUE = "exhaustive exploration of all histories of writes and bindings up to a depth on the real object next to a list model"

A, B = sympy.Symbol("a"), sympy.Symbol("b")
S = 1 / math.sqrt(2)
VALS = {"0": 0.0, "1": 1.0, "-1": -1.0, "i": 1j, "s": S, "-s": -S, "is": S * 1j, "6": 0.6, "8": 0.8, "h": 0.5,
        "a": A, "b": B, "e": A * S, "2": 2.0}


def val(k):
    return VALS[k]


INITS = [["1", "0"], ["s", "-s"], ["6", "a"], ["a", "b"], ["1", "0", "0", "0"], ["h", "h", "h", "h"], ["s", "0", "0", "is"],
         ["a", "s", "s", "b"], ["s", "a", "a", "0"], ["0", "e", "s", "6"], ["a", "a", "b", "b"]]


def num(v):
    try:
        return complex(v)
    except Exception:
        return None


def norm(m):
    return sum(abs(num(v)) ** 2 for v in m if num(v) is not None)


def symbols(m):
    out = set()
    for v in m:
        if num(v) is None:
            out |= sympy.sympify(v).free_symbols
    return out


def legal(m):
    n = norm(m)
    return n <= 1 + 1e-4 if symbols(m) else abs(n - 1) <= 1e-4


def clear(m):
    """far from the tolerance of the norm check"""
    n = norm(m)
    return abs(n - 1) < 1e-9 or abs(n - 1) > 1e-3


def same(x, y):
    nx, ny = num(x), num(y)
    if nx is None or ny is None:
        return nx is None and ny is None and sympy.expand(sympy.sympify(x) - sympy.sympify(y)) == 0
    return abs(nx - ny) < 1e-9


def content(wf):
    return [wf[i] for i in range(len(wf))]


def compare(ctx, wf, m, what):
    got = content(wf)
    ctx.eq(len(got), len(m), f"{what}: length")
    ctx.check(all(same(x, y) for x, y in zip(got, m)), lambda: f"{what}: amplitudes {got} instead of {m}")
    ctx.check(legal(got), lambda: f"{what}: numeric part of {got} has squared norm {norm(got)}")
    ctx.eq(wf.n_qubits, int(math.log2(len(m))), f"{what}: number of qubits")
    fs = symbols(m)
    ctx.eq({str(s) for s in wf.free_symbols}, {str(s) for s in fs}, f"{what}: free symbols")
    amps = wf.amplitudes
    ctx.check(isinstance(amps, np.ndarray) and amps.shape == (len(m),), f"{what}: amplitudes are not a flat vector")
    if not fs:
        p = wf.get_probabilities()
        ctx.check(all(abs(p[i] - abs(num(v)) ** 2) < 1e-9 for i, v in enumerate(m)), f"{what}: probabilities {p}")
        o = wf.get_outcome_probs()
        n = wf.n_qubits
        if n == 0:
            ctx.check(len(o) == 1 and abs(list(o.values())[0] - 1) < 1e-9, f"{what}: outcome of no qubits")
            return
        ctx.eq(set(o), {"".join(map(str, ref.bits(i, n)))[::-1] for i in range(len(m))}, f"{what}: outcome keys")
        for i, v in enumerate(m):
            k = "".join(map(str, ref.bits(i, n)))[::-1]
            ctx.check(abs(o[k] - abs(num(v)) ** 2) < 1e-9, f"{what}: probability of {k} is {o[k]}")
        ctx.check((wf == Wavefunction(np.array([num(v) for v in content(wf)]))) is True, f"{what}: equal to a copy of itself")


KEYS = ["0", "1", "-1", "i", "s", "-s", "6", "h", "a", "e", "2"]
MAPS = [{"a": 0.8}, {"a": S, "b": 0.0}, {"a": B, "b": A}, {"a": 0.0}, {"b": 1.0}, {"a": 0.5, "b": 0.5}, {"c": 3.0}, {}, {"a": 1j, "b": A}]


def ops(n, tier):
    N = 1 << n
    for i in range(-1, N):
        for k in KEYS if tier == "thorough" or N == 2 else ["0", "1", "i", "s", "-s", "h", "a", "2"]:
            yield ["set", i, k]
    yield ["set", N, "0"]
    if N == 2:
        sl = [[None, None, None]]
        vs = [["0", "1"], ["s", "s"], ["6", "8"], ["a", "0"], ["a", "b"], ["1", "1"], ["s"]]
    else:
        sl = [[None, None, None], [0, 2, None], [None, None, 2], [2, None, None]]
        vs = [["s", "0"], ["0", "s"], ["a", "0"], ["1", "1"], ["h", "h"], ["0"], ["0", "0", "0", "1"], ["h", "h", "-s", "0"], ["a", "b", "0", "s"],
              ["s", "0", "0", "s"]]
    for s in sl:
        for v in vs:
            yield ["slice", s, v]
            # (sympy's column assignment ignores the step of a slice, so only contiguous ones)
            if s[2] is None and (any(VALS[x] in (A, B) for x in v) or v in (["s", "0"], ["6", "8"], ["1", "1"])):
                yield ["col", s, v]
    for v in ([["0", "1"], ["a", "b"]] if N == 2 else [["s", "s"], ["a", "b"], ["0", "0"]]):
        yield ["fancy", [0, 1] if N == 2 else [3, 0], v]
        yield ["mask", [1, 1] if N == 2 else [0, 1, 1, 0], v]
    for j in range(len(MAPS)):
        yield ["bind", j]


def apply(wf, m, op):
    """returns (new wavefunction, model after acceptance, must_accept) and performs the write"""
    kind = op[0]
    if kind == "set":
        m2 = list(m)
        if op[1] < len(m):
            m2[op[1]] = val(op[2])
        else:
            m2 = None

        def go():
            wf[op[1]] = val(op[2])
            return wf
        easy = True
    elif kind in ("slice", "col", "fancy", "mask"):
        vals = [val(k) for k in op[2]]
        if kind in ("slice", "col"):
            idx = slice(*op[1])
            pos = list(range(len(m)))[idx]
            key = idx if kind == "slice" else (idx, 0)
            data = vals if kind == "slice" else sympy.Matrix(vals)
        elif kind == "fancy":
            pos, key, data = op[1], list(op[1]), vals
        else:
            pos = [i for i, b in enumerate(op[1]) if b]
            key, data = np.array(op[1], dtype=bool), vals
        m2 = list(m)
        if len(vals) == len(pos):
            for p, v in zip(pos, vals):
                m2[p] = v
        elif len(vals) == 1:
            for p in pos:
                m2[p] = vals[0]
        else:
            m2 = None

        def go():
            wf[key] = data
            return wf
        easy = False
    else:
        mp = {sympy.Symbol(k): v for k, v in MAPS[op[1]].items()}
        m2 = [v if num(v) is not None else sympy.sympify(v).subs(mp, simultaneous=True) for v in m]

        def go():
            return wf.bind(mp)
        easy = True
    return go, m2, easy


def run_op(ctx, wf, m, op, what):
    go, m2, easy = apply(wf, m, op)
    ctx.step()
    before = content(wf)
    numeric = not symbols(m)
    try:
        new = go()
    except Exception as e:
        ctx.outcome(f"{op[0]}: rejected")
        after = content(wf)
        ctx.check(len(before) == len(after) and all(same(x, y) for x, y in zip(before, after)),
                  lambda: f"{what}: rejected by {type(e).__name__}, but amplitudes changed from {before} to {after}")
        compare(ctx, wf, m, f"{what} rejected")
        if m2 is not None and legal(m2) and clear(m2):
            hard = op[0] in ("slice", "col", "fancy", "mask") and (not numeric or symbols(m2))
            hard = hard or (op[0] == "col") or (numeric and symbols(m2))
            if op[0] in ("bind", "set"):
                hard = numeric and bool(symbols(m2))
            ctx.check(hard, lambda: f"{what}: {type(e).__name__}: {e}, although the result is a legal state {m2}")
        return wf, m
    ctx.outcome(f"{op[0]}: accepted")
    ctx.check(m2 is not None, f"{what}: accepted, although shapes or indices do not fit")
    ctx.check(legal(m2) or not clear(m2), lambda: f"{what}: accepted, although {m2} has squared norm {norm(m2)}")
    if op[0] == "bind":
        after = content(wf)
        ctx.check(len(before) == len(after) and all(same(x, y) for x, y in zip(before, after)), f"{what}: binding changed the original")
        if symbols(m):
            ctx.check(new is not wf, f"{what}: binding returned the same object")
    compare(ctx, new, m2, what)
    return new, m2


def key_of(m):
    return tuple(str(sympy.nsimplify(v, rational=False)) if num(v) is None else (round(num(v).real, 6), round(num(v).imag, 6)) for v in m)


def gen_hist(tier):
    for ii in range(len(INITS)):
        n = int(math.log2(len(INITS[ii])))
        for op in ops(n, tier):
            yield [ii, op]


def initial(ii):
    m = [val(k) for k in INITS[ii]]
    return m


def build(m, how):
    if how == 0 or symbols(m):
        return Wavefunction(m if not symbols(m) else sympy.Matrix(m))
    return Wavefunction(np.array(m, dtype=complex))


SEEN = {}


def explore(ctx, wf, m, depth, n, path):
    """every continuation of the history, cutting off model states already explored to this depth"""
    k = (key_of(m), isinstance(wf._amplitude_vector, np.ndarray) if hasattr(wf, "_amplitude_vector") else None)
    if SEEN.get(k, -1) >= depth:
        return
    SEEN[k] = depth
    ctx.state(k)
    if depth == 0:
        return
    for op in ops(n, ctx.tier):
        w = copy.deepcopy(wf)
        new, m2 = run_op(ctx, w, list(m), op, f"{path + [op]}")
        explore(ctx, new, m2, depth - 1, n, path + [op])


def step_hist(ctx, case):
    ii, op = case
    m = initial(ii)
    n = int(math.log2(len(m)))
    wf = build(m, 0)
    compare(ctx, wf, m, f"initial {INITS[ii]}")
    new, m2 = run_op(ctx, wf, m, op, f"{INITS[ii]} {op}")
    depth = 2 if ctx.thorough and len(m) == 2 else 1
    explore(ctx, new, m2, depth, n, [INITS[ii], op])


def gen_make(tier):
    ks = ["0", "1", "s", "is", "6", "8", "h", "a", "2"]
    for L in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(ks, repeat=L):
            yield list(c)
    for c in itertools.product(["0", "s", "h", "a"], repeat=4):
        yield list(c)
    for L in (5, 6, 7, 8, 9, 12, 15, 16, 17, 32, 33):
        yield ["1"] + ["0"] * (L - 1)


def step_make(ctx, case):
    m = [val(k) for k in case]
    ctx.step()
    ctx.state(tuple(case))
    L = len(m)
    pow2 = L > 0 and L & (L - 1) == 0
    forms = {"list": lambda: list(m), "matrix": lambda: sympy.Matrix(m), "tuple": lambda: tuple(m)}
    if not symbols(m):
        forms["array"] = lambda: np.array(m, dtype=complex)
        forms["imm"] = lambda: sympy.ImmutableMatrix(m)
    for f, mk in forms.items():
        if not clear(m) or (L == 0 and f in ("matrix", "imm")):
            continue
        src = mk()
        if not pow2 or not legal(m):
            ctx.raises(lambda: Wavefunction(mk()), f"{case} as {f}")
            continue
        wf = Wavefunction(src)
        compare(ctx, wf, m, f"{case} as {f}")
        # the object does not share storage with its source
        if f in ("list", "array", "matrix"):
            src[0] = 7
            compare(ctx, wf, m, f"{case} as {f} after its source changed")
        if not symbols(m):
            fl = flip_wavefunction(wf)
            n = wf.n_qubits
            for i in range(L):
                j = int("".join(map(str, ref.bits(i, n)))[::-1] or "0", 2)
                ctx.check(same(fl[j], m[i]), f"{case}: flipped state at {j}")
            ctx.check(flip_wavefunction(fl) == wf, "flipping twice")


def gen_special(tier):
    for n in range(-1, 9 if tier == "quick" else 12):
        yield ["zero", n]
        for w in range(-1, n + 2):
            yield ["dicke", n, w]


def step_special(ctx, case):
    ctx.step()
    n = case[1]
    ctx.state(tuple(case))
    if case[0] == "zero":
        if n <= 0:
            ctx.raises(lambda: Wavefunction.zero_state(n), f"{n} qubits", ValueError)
            return
        want = [1.0] + [0.0] * ((1 << n) - 1)
        wf = Wavefunction.zero_state(n)
    else:
        w = case[2]
        if n <= 0 or w < 0 or w > n:
            ctx.raises(lambda: Wavefunction.dicke_state(n, w), f"{case}", ValueError)
            return
        cnt = math.comb(n, w) if hasattr(math, "comb") else len(list(itertools.combinations(range(n), w)))
        want = [1 / math.sqrt(cnt) if bin(i).count("1") == w else 0.0 for i in range(1 << n)]
        wf = Wavefunction.dicke_state(n, w)
    ctx.eq(wf.n_qubits, n, f"{case}: qubits")
    ctx.check(np.allclose(wf.amplitudes, want, atol=1e-12), f"{case}: wrong amplitudes")
    ctx.check(abs(sum(wf.get_outcome_probs().values()) - 1) < 1e-9, f"{case}: total probability")


def gen_large(tier):
    for n in range(4, 11 if tier == "quick" else 13):
        for i in range(0, 1 << n, max(1, (1 << n) // 37)):
            for kind in ("phase", "peak", "write"):
                yield [n, i, kind]
        yield [n, (1 << n) - 1, "peak"]
        yield [n, (1 << n) - 1, "write"]


def step_large(ctx, case):
    """registers of 4-10 qubits: order of amplitudes and outcomes, writes at every place, flips"""
    n, i, kind = case
    N = 1 << n
    ctx.step()
    ctx.state(tuple(case))
    if kind == "phase":
        a = np.exp(1j * 0.37 * np.arange(N) ** 2) * (1.0 + (np.arange(N) * 7 + i) % 5)
    elif kind == "peak":
        a = np.zeros(N, dtype=complex)
        a[i] = 1j
    else:
        a = np.exp(0.11j * np.arange(N)) * (1 + np.arange(N) % 3)
    a = a / np.sqrt(np.sum(np.abs(a) ** 2))
    wf = Wavefunction(a)
    model = a.copy()

    def verify(what):
        ctx.eq((wf.n_qubits, len(wf)), (n, N), f"{case}, {what}: size")
        ctx.check(np.array_equal(wf.amplitudes, model), f"{case}, {what}: amplitudes")
        ctx.check(np.allclose(wf.get_probabilities(), np.abs(model) ** 2, atol=1e-15), f"{case}, {what}: probabilities")
        p = wf.get_outcome_probs()
        ctx.eq(len(p), N, f"{case}, {what}: outcomes")
        ctx.check(all(abs(p["".join(str(b) for b in (k >> q & 1 for q in range(n)))] - abs(model[k]) ** 2) < 1e-12 for k in range(N)), f"{case}, {what}: outcome probabilities")
        ctx.check(abs(sum(p.values()) - 1) < 1e-7, f"{case}, {what}: total probability")

    verify("new")
    fl = flip_wavefunction(wf)
    ctx.check(all(fl[int(format(k, f"0{n}b")[::-1], 2)] == model[k] for k in range(N)), f"{case}: flipped state")
    ctx.check(flip_wavefunction(fl) == wf, f"{case}: flipping twice")
    if kind == "write":
        wf[i] = model[i] * 1j
        model[i] *= 1j
        verify("after a change of phase")
        for bad in (model[i] + 1.5, 2.0, -1.0 - model[i] * 3):
            ctx.raises(lambda: wf.__setitem__(i, bad), f"{case}: amplitude {bad}", ValueError)
            verify("after a rejected write")
        j = (i * 5 + 3) % N
        wf[[i, j] if i != j else [i]] = [model[j], model[i]] if i != j else [model[i]]
        model[i], model[j] = model[j], model[i]
        verify("after an exchange")
        wf[:] = model[::-1]
        model = model[::-1].copy()
        verify("after a reversal")
        ctx.raises(lambda: wf.__setitem__(slice(0, N // 2), model[: N // 2] * 1.1 + 0.1), f"{case}: half a state", ValueError)
        verify("after a rejected slice")
        ctx.raises(lambda: wf.__setitem__(N, 0.0), f"{case}: index {N}", IndexError)
    bad = model.copy()
    bad[i] += 0.4 if abs(model[i] + 0.4) > abs(model[i]) else -0.4
    ctx.raises(lambda: Wavefunction(bad), f"{case}: too much probability", ValueError)
    ctx.raises(lambda: Wavefunction(np.append(model, 0.0)), f"{case}: length {N + 1}", ValueError)
    ctx.raises(lambda: Wavefunction(model[:-1]), f"{case}: length {N - 1}", ValueError)
    other = model.copy()
    other[i] = -other[i] if abs(other[i]) > 1e-9 else 0.0
    if abs(model[i]) > 1e-9:
        ctx.check(wf != Wavefunction(other), f"{case}: equality with another state")
    ctx.check(wf == Wavefunction(model) and not (wf == list(model)) and wf != "state" and not (wf == None), f"{case}: equality")  # noqa: E711


def gen_cast(tier):
    for n in (1.0, 2.0, 3.7, np.int64(2), np.float64(3), 0.2, -1.5, "2"):
        yield [str(n), type(n).__name__]


def step_cast(ctx, case):
    """a number of qubits that is not an integer is truncated with a warning"""
    import warnings
    n = {"float": float, "int64": np.int64, "float64": np.float64, "str": str}[case[1]](case[0])
    ctx.step()
    ctx.state(tuple(case))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if int(n) <= 0:
            ctx.raises(lambda: Wavefunction.zero_state(n), f"{n!r} qubits", ValueError)
        else:
            wf = Wavefunction.zero_state(n)
            ctx.eq((wf.n_qubits, wf[0], sum(abs(x) for x in wf.amplitudes)), (int(n), 1.0, 1.0), f"{n!r} qubits")
        ctx.check(bool(w), f"{n!r} qubits: no warning")


FRESH = zqfresh.Fresh(zqfreshlist.C08)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("histories", gen_hist, step_hist, "every sequence of 2 writes/bindings (3 on one qubit when thorough) from 11 initial states over 12 amplitude values, element, slice, column, index-list and mask writes, 9 bindings"),
    Space("constructions", gen_make, step_make, "every vector of length 0-3 (thorough 0-4) over 9 amplitudes and of length 4 over 4, as list, tuple, array, Matrix"),
    Space("special", gen_special, step_special, "zero and Dicke states of every weight up to 8 (thorough 11) qubits, invalid arguments"),
    Space("large", gen_large, step_large, "states of 4-10 (thorough 12) qubits: outcome order, writes at 37 places and the last, flips, wrong lengths"),
    Space("cast", gen_cast, step_cast, "8 numbers of qubits that are not integers"),
]
