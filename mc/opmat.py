"""Sparse reference matrices of Pauli and fermionic operators: dictionaries {(row, column): value}."""
from mc import ref

_cache = {}


def term(t, n, kind):
    """matrix of one product of factors in order of multiplication; kind "q" (Paulis) or "f" (ladder operators)"""
    key = (tuple(t), n, kind)
    m = _cache.get(key)
    if m is None:
        m = {}
        for j in range(1 << n):
            i, x = (_pauli if kind == "q" else _ladder)(t, n, j)
            if x != 0:
                m[i, j] = x
        if len(_cache) > 60000 or n > 6:
            _cache.clear()
        _cache[key] = m
    return m


def _pauli(t, n, j):
    x = 1.0
    for q, p in reversed(t):
        bit = 1 << (n - 1 - q)
        if p == "Z":
            x = -x if j & bit else x
        else:
            if p == "Y":
                x = x * (-1j if j & bit else 1j)
            j ^= bit
    return j, x


def _ladder(t, n, j):
    x = 1.0
    for q, up in reversed(t):
        bit = 1 << (n - 1 - q)
        if bool(j & bit) == bool(up):
            return j, 0
        if bin(j >> (n - q)).count("1") % 2:
            x = -x
        j ^= bit
    return j, x


def terms(items, n, kind):
    """matrix of a sum: dictionary or iterable of (term, coefficient)"""
    out = {}
    for t, c in items.items() if hasattr(items, "items") else items:
        c = complex(c)
        for k, x in term(t, n, kind).items():
            out[k] = out.get(k, 0) + c * x
    return out


def identity(n, c=1.0):
    return {(i, i): complex(c) for i in range(1 << n)}


def add(a, b, s=1.0):
    out = dict(a)
    for k, x in b.items():
        out[k] = out.get(k, 0) + s * x
    return out


def scale(a, s):
    return {k: s * x for k, x in a.items()}


def mul(a, b):
    rows = {}
    for (j, k), y in b.items():
        rows.setdefault(j, []).append((k, y))
    out = {}
    for (i, j), x in a.items():
        for k, y in rows.get(j, ()):
            out[i, k] = out.get((i, k), 0) + x * y
    return out


def dagger(a):
    return {(j, i): x.conjugate() if isinstance(x, complex) else x for (i, j), x in a.items()}


def dist(a, b):
    """largest difference of the entries"""
    d = 0.0
    for k, x in a.items():
        d = max(d, abs(x - b.get(k, 0)))
    for k, x in b.items():
        if k not in a:
            d = max(d, abs(x))
    return d


def size(a):
    return max([abs(x) for x in a.values()] or [0.0])


def from_dense(m):
    return {(i, j): complex(x) for i, row in enumerate(m) for j, x in enumerate(row) if x != 0}


def permute(a, n, where):
    """relabel modes (without signs): qubit q of the result is qubit where[q]... old qubit q becomes where[q]"""
    def move(i):
        r = 0
        for q in range(n):
            if (i >> (n - 1 - q)) & 1:
                r |= 1 << (n - 1 - where[q])
        return r

    return {(move(i), move(j)): x for (i, j), x in a.items()}


def apply(a, vec):
    out = [0j] * len(vec)
    for (i, j), x in a.items():
        out[i] += x * vec[j]
    return out
