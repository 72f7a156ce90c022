"""Boring reference models: dense linear algebra by index arithmetic, pure Python."""
import cmath
import itertools
import math

TOL = 1e-7


def dagger(m):
    return [[complex(m[r][c]).conjugate() for r in range(len(m))] for c in range(len(m[0]))]


def matmul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    out = []
    for i in range(n):
        row = [0j] * m
        ai = a[i]
        for t in range(k):
            x = ai[t]
            if x != 0:
                bt = b[t]
                for j in range(m):
                    row[j] += x * bt[j]
        out.append(row)
    return out


def eye(n):
    return [[1.0 + 0j if i == j else 0j for j in range(n)] for i in range(n)]


def zeros(n):
    return [[0j] * n for _ in range(n)]


def madd(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def mscale(a, s):
    return [[s * x for x in r] for r in a]


def kron(a, b):
    return [
        [x * y for x in ra for y in rb]
        for ra in a
        for rb in b
    ]


def matvec(a, v):
    return [sum(x * y for x, y in zip(r, v)) for r in a]


def maxdiff(a, b):
    if len(a) != len(b) or len(a[0]) != len(b[0]):
        return float("inf")
    return max(abs(x - y) for r, q in zip(a, b) for x, y in zip(r, q))


def vdiff(a, b):
    if len(a) != len(b):
        return float("inf")
    return max([abs(x - y) for x, y in zip(a, b)] or [0.0])


def phase_diff(a, b):
    """distance of two matrices up to one global phase"""
    if len(a) != len(b):
        return float("inf")
    best = None
    for r, q in zip(a, b):
        for x, y in zip(r, q):
            if best is None or abs(y) > abs(best[1]):
                best = (x, y)
    x, y = best
    if abs(y) < 1e-12:
        return maxdiff(a, b)
    ph = x / y
    return max(maxdiff(a, mscale(b, ph)), abs(abs(ph) - 1))


def controlled(m, k):
    n = len(m)
    N = n << k
    out = eye(N)
    for i in range(n):
        for j in range(n):
            out[N - n + i][N - n + j] = m[i][j]
    return out


def apply(mat, qubits, n, vec):
    """mat acts on `qubits` (first listed = most significant index bit of mat);
    qubit 0 is the most significant bit of the vector index."""
    k = len(qubits)
    out = [0j] * len(vec)
    shifts = [n - 1 - q for q in qubits]
    mask = 0
    for s in shifts:
        mask |= 1 << s
    dim = 1 << k
    place = []
    for g in range(dim):
        x = 0
        for t in range(k):
            if (g >> (k - 1 - t)) & 1:
                x |= 1 << shifts[t]
        place.append(x)
    for base in range(len(vec)):
        if base & mask:
            continue
        amps = [vec[base | p] for p in place]
        for g in range(dim):
            row = mat[g]
            out[base | place[g]] = sum(row[h] * amps[h] for h in range(dim))
    return out


def unitary(seq, n):
    """seq: list of (matrix, qubits) in time order."""
    N = 1 << n
    cols = []
    for c in range(N):
        v = [0j] * N
        v[c] = 1.0 + 0j
        for m, q in seq:
            v = apply(m, q, n, v)
        cols.append(v)
    return [[cols[c][r] for c in range(N)] for r in range(N)]


def run(seq, n, vec=None):
    if vec is None:
        vec = [0j] * (1 << n)
        vec[0] = 1.0 + 0j
    for m, q in seq:
        vec = apply(m, q, n, vec)
    return vec


def generic_state(n, k=0):
    """a fixed normalized vector without symmetries"""
    v = [
        complex(math.cos(1.3 * i + 0.7 * k + 0.2) + 0.1 * i, math.sin(2.1 * i * i + k) + 0.05 * i)
        for i in range(1 << n)
    ]
    s = math.sqrt(sum(abs(x) ** 2 for x in v))
    return [x / s for x in v]


def haar_like(dim, k=0):
    """a fixed unitary without symmetries (Gram-Schmidt on generic columns)"""
    cols = []
    for c in range(dim):
        v = [
            complex(math.sin(1.7 * (i + 1) * (c + 1) + k), math.cos(0.9 * (i + 2) * (c + 1) ** 2 - k))
            for i in range(dim)
        ]
        for u in cols:
            d = sum(a.conjugate() * b for a, b in zip(u, v))
            v = [b - d * a for a, b in zip(u, v)]
        s = math.sqrt(sum(abs(x) ** 2 for x in v))
        cols.append([x / s for x in v])
    return [[cols[c][r] for c in range(dim)] for r in range(dim)]


PX = [[0j, 1 + 0j], [1 + 0j, 0j]]
PY = [[0j, -1j], [1j, 0j]]
PZ = [[1 + 0j, 0j], [0j, -1 + 0j]]
P1 = [[1 + 0j, 0j], [0j, 1 + 0j]]
PAULI = {"I": P1, "X": PX, "Y": PY, "Z": PZ}


def _expi(th):
    return cmath.exp(1j * th)


def _exp_pauli(p, th):
    """exp(-i th/2 p) for an involutory matrix p"""
    n = len(p)
    c, s = math.cos(th / 2), math.sin(th / 2)
    return [[(c if i == j else 0) - 1j * s * p[i][j] for j in range(n)] for i in range(n)]


R2 = 1 / math.sqrt(2)
HM = [[R2 + 0j, R2 + 0j], [R2 + 0j, -R2 + 0j]]


def gate(name, *p):
    """textbook matrices of the documented gate set"""
    if name in PAULI:
        return PAULI[name]
    if name == "H":
        return HM
    if name == "S":
        return [[1 + 0j, 0j], [0j, 1j]]
    if name == "T":
        return [[1 + 0j, 0j], [0j, _expi(math.pi / 4)]]
    if name == "RX":
        return _exp_pauli(PX, p[0])
    if name == "RY":
        return _exp_pauli(PY, p[0])
    if name == "RZ":
        return _exp_pauli(PZ, p[0])
    if name == "RH":
        return mscale(_exp_pauli(HM, p[0]), _expi(p[0] / 2))
    if name == "PHASE":
        return [[1 + 0j, 0j], [0j, _expi(p[0])]]
    if name == "U3":
        t, f, l = p
        return [
            [math.cos(t / 2) + 0j, -_expi(l) * math.sin(t / 2)],
            [_expi(f) * math.sin(t / 2), _expi(f + l) * math.cos(t / 2)],
        ]
    if name == "CNOT":
        return controlled(PX, 1)
    if name == "CZ":
        return controlled(PZ, 1)
    if name == "CPHASE":
        return controlled(gate("PHASE", p[0]), 1)
    if name in ("SWAP", "ISWAP"):
        a = 1 + 0j if name == "SWAP" else 1j
        return [[1 + 0j, 0j, 0j, 0j], [0j, 0j, a, 0j], [0j, a, 0j, 0j], [0j, 0j, 0j, 1 + 0j]]
    if name in ("XX", "YY", "ZZ"):
        q = PAULI[name[0]]
        return _exp_pauli(kron(q, q), p[0])
    if name == "XY":
        c, s = math.cos(p[0] / 2), math.sin(p[0] / 2)
        return [[1 + 0j, 0j, 0j, 0j], [0j, c + 0j, 1j * s, 0j], [0j, 1j * s, c + 0j, 0j], [0j, 0j, 0j, 1 + 0j]]
    raise KeyError(name)


# name -> (number of qubits, number of parameters)
GATES = {
    "X": (1, 0), "Y": (1, 0), "Z": (1, 0), "H": (1, 0), "I": (1, 0), "S": (1, 0), "T": (1, 0),
    "RX": (1, 1), "RY": (1, 1), "RZ": (1, 1), "RH": (1, 1), "PHASE": (1, 1), "U3": (1, 3),
    "CNOT": (2, 0), "CZ": (2, 0), "SWAP": (2, 0), "ISWAP": (2, 0),
    "CPHASE": (2, 1), "XX": (2, 1), "YY": (2, 1), "ZZ": (2, 1), "XY": (2, 1),
}


def tolist(m):
    """matrix of the real code (numpy or sympy, numeric) -> list of lists of complex"""
    if hasattr(m, "todense"):
        m = m.todense()
    if hasattr(m, "applyfunc"):  # sympy
        r, c = m.shape
        return [[complex(m[i, j]) for j in range(c)] for i in range(r)]
    rows = m.tolist()
    return [[complex(x) for x in r] for r in rows]


# ---- operators ----------------------------------------------------------------

def pauli_term(term, n, coeff=1.0):
    """term: ((q, 'X'), ...) in order of multiplication; dense matrix on n qubits"""
    N = 1 << n
    # each Pauli string is a signed permutation: track image of every basis state
    out = zeros(N)
    for col in range(N):
        idx, amp = col, complex(coeff)
        for q, a in reversed(list(term)):
            bit = (idx >> (n - 1 - q)) & 1
            if a == "X":
                idx ^= 1 << (n - 1 - q)
            elif a == "Y":
                idx ^= 1 << (n - 1 - q)
                amp *= 1j if bit == 0 else -1j
            elif a == "Z":
                if bit:
                    amp = -amp
            elif a != "I":
                raise KeyError(a)
        out[idx][col] += amp
    return out


def fermion_term(term, n, coeff=1.0):
    """term: ((mode, 1|0), ...); occupation of mode j = bit n-1-j (mode 0 most significant);
    a_j = (-1)^(occupations of modes < j) lowering."""
    N = 1 << n
    out = zeros(N)
    for col in range(N):
        idx, amp, dead = col, complex(coeff), False
        for m, up in reversed(list(term)):
            bit = (idx >> (n - 1 - m)) & 1
            if bit == up:
                dead = True
                break
            if bin(idx >> (n - m)).count("1") % 2:
                amp = -amp
            idx ^= 1 << (n - 1 - m)
        if not dead:
            out[idx][col] += amp
    return out


def op_matrix(terms, n, kind):
    f = pauli_term if kind == "q" else fermion_term
    out = zeros(1 << n)
    for t, c in terms.items() if hasattr(terms, "items") else terms:
        m = f(t, n, complex(c))
        for i, row in enumerate(m):
            for j, x in enumerate(row):
                if x != 0:
                    out[i][j] += x
    return out


def expect(mat, vec):
    w = matvec(mat, vec)
    return sum(a.conjugate() * b for a, b in zip(vec, w))


def bits(i, n):
    return tuple((i >> (n - 1 - k)) & 1 for k in range(n))


def placements(n, k):
    return list(itertools.permutations(range(n), k))


# ---- choice sequences: complete enumeration of an environment's answers ---------

class Chooser:
    """Answers `choose(n)` from a prefix, then with 0; remembers the arities."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.arity = []

    def choose(self, n):
        if n <= 0:
            raise AssertionError("choice without alternatives")
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise AssertionError("diverging replay: choice out of range")
        self.trace.append(c)
        self.arity.append(n)
        return c


class TooManyChoices(Exception):
    pass


def explore_choices(body, max_runs=None):
    """Depth-first over all choice sequences of body(chooser). Yields (chooser, result).
    Returns after the space is exhausted (or max_runs executions)."""
    prefix = []
    runs = 0
    while True:
        ch = Chooser(prefix)
        res = body(ch)
        runs += 1
        yield ch, res
        if max_runs and runs >= max_runs:
            return
        t, a = ch.trace, ch.arity
        i = len(t) - 1
        while i >= 0 and t[i] + 1 >= a[i]:
            i -= 1
        if i < 0:
            return
        prefix = t[:i] + [t[i] + 1]
