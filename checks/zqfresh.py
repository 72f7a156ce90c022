"""Results do not depend on what was computed, or changed by its owner, before.

Every entry is (name, function, maker of arguments).  Each entry's reference
is the value a fresh process (forked before any entry ran) gets.  Then every ordered pair
of entries is run in one process: the first entry's result is overwritten by
its owner; then the second has to give its reference value, twice for the same
arguments, leave these as they were, and a later call must not change what an
earlier one returned.
"""
import itertools
import os
import pickle
import re

import numpy as np
import scipy.sparse
import sympy


def fp(x, depth=0):
    """Nested tuples, floats and strings that describe the value of x."""
    if depth > 12:
        return "deep"
    d = depth + 1
    if x is None or isinstance(x, (bool, str, bytes)):
        return repr(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return ("complex", float(x.real), float(x.imag))
    if isinstance(x, sympy.MatrixBase):
        return ("matrix", x.shape, tuple(fp(e, d) for e in x))
    if isinstance(x, sympy.Basic):
        if x.is_number:
            try:
                v = complex(x)
                return ("sympy", v.real, v.imag)
            except TypeError:
                pass
        return ("sympy", str(x))
    if scipy.sparse.issparse(x):
        return ("sparse", x.shape, fp(x.toarray(), d))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype.kind), x.shape, tuple(fp(e, d) for e in x.ravel().tolist()))
    if isinstance(x, dict):
        items = [(fp(k, d), fp(v, d)) for k, v in x.items()]
        return ("dict",) + tuple(sorted(items, key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((fp(e, d) for e in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp(e, d) for e in x)
    name = type(x).__name__
    if name in ("Graph", "DiGraph"):
        return (name, tuple((repr(n), fp(a, d)) for n, a in x.nodes(data=True)),
                tuple(sorted(((repr(tuple(sorted((u, v), key=repr))), fp(a, d)) for u, v, a in x.edges(data=True)), key=repr)))
    if name == "Wavefunction":
        return (name, fp(x.amplitudes, d))
    if hasattr(x, "terms"):
        return (name, fp(x.terms, d))
    if hasattr(x, "n_body_tensors"):
        return (name, fp(x.n_body_tensors, d))
    if name == "Circuit":
        return (name, x.n_qubits, tuple(fp(o, d) for o in x.operations))
    if name == "GateOperation":
        return (name, plain(repr(x.gate)), fp(x.params, d), tuple(x.qubit_indices))
    if hasattr(x, "__next__"):
        return ("iterator",) + tuple(fp(e, d) for e in itertools.islice(x, 500))
    if hasattr(x, "__dict__"):
        return (name, fp({k: v for k, v in vars(x).items() if not callable(v)}, d))
    return (name, plain(repr(x)))


def plain(text):
    return re.sub(r"0x[0-9a-f]+", "0x", text)


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def scramble(x, depth=0):
    """What the owner of a result may do with it."""
    if depth > 6 or x is None or isinstance(x, (bool, int, float, complex, str, sympy.Basic)):
        return
    d = depth + 1
    name = type(x).__name__
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "fciu":
                x += 1
            elif x.dtype == object:
                x[...] = 7
        elif scipy.sparse.issparse(x):
            if hasattr(x, "data") and isinstance(x.data, np.ndarray):
                x.data += 1
        elif isinstance(x, sympy.MatrixBase):
            x[0, 0] = x[0, 0] + 5
        elif isinstance(x, dict):
            for v in list(x.values()):
                scramble(v, d)
            x.clear()
        elif isinstance(x, set):
            x.clear()
        elif isinstance(x, (list, tuple)):
            for v in x:
                scramble(v, d)
            if isinstance(x, list):
                x.append(99)
                x.reverse()
        elif name in ("Graph", "DiGraph"):
            for _, _, a in x.edges(data=True):
                a["weight"] = 77
            x.add_node("spoilt")
        elif name == "Wavefunction":
            x[:] = np.roll(x.amplitudes, 1)
        elif hasattr(x, "terms") and isinstance(x.terms, dict):
            x *= 3
            x += type(x)(()) * 7
            x.terms.pop(next(iter(x.terms)), None)
        elif hasattr(x, "n_body_tensors"):
            for t in x.n_body_tensors.values():
                if isinstance(t, np.ndarray):
                    t += 1
            x *= 2
        elif hasattr(x, "__dict__") and name not in ("Circuit", "GateOperation"):
            for v in vars(x).values():
                if not callable(v):
                    scramble(v, d)
    except (TypeError, ValueError, AttributeError):
        pass


def call(entry, args):
    try:
        return entry[1](*args)
    except (Exception, SystemExit) as e:  # an error is an outcome like any other
        return ("error", type(e).__name__)


def isolated(fn):
    """fn() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise AssertionError("the process that computes the reference value died")
    return pickle.loads(data)


class Fresh:
    def __init__(self, entries):
        self.entries = entries
        self.known = {}

    def gen(self, tier):
        for i in range(len(self.entries())):
            yield i

    def reference(self, entries, j):
        if j not in self.known:
            self.known[j] = isolated(lambda: fp(call(entries[j], entries[j][2]())))
        return self.known[j]

    def step(self, ctx, i):
        entries = self.entries()
        want = [self.reference(entries, j) for j in range(len(entries))]
        bad = isolated(lambda: self.pairs(entries, i, want))
        for j in range(len(entries)):
            ctx.step(4)
            ctx.state((i, j, repr(want[j])))
        if bad:
            ctx.fail(bad)

    def pairs(self, entries, i, want):
        first = entries[i]
        for j, second in enumerate(entries):
            scramble(call(first, first[2]()))
            args = second[2]()
            before = fp(args)
            r1 = call(second, args)
            got = fp(r1)
            where = "%s after %s" % (second[0], first[0])
            if not same(got, want[j]):
                return "%s: got %s, a fresh process gets %s" % (where, got, want[j])
            if not same(fp(args), before):
                return "%s changed its arguments: %s, were %s" % (where, fp(args), before)
            r2 = call(second, args)
            if not same(fp(r2), want[j]):
                return "%s: the second call with the same arguments gives %s, expected %s" % (where, fp(r2), want[j])
            if not hasattr(r1, "__next__") and not same(fp(r1), got):
                return "%s: the second call changed the first result to %s, was %s" % (where, fp(r1), got)
            scramble(r1)
        return None
