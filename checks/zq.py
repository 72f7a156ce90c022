"""Building real z-quantum-core circuits next to their reference meaning.

Operation descriptions are JSON lists:
    ["g", NAME, [params], [qubits], [wrappers]]   wrappers: "d" (conjugate) or k>=1 (k controls)
    ["c", NAME, [qubits], [wrappers]]             numeric custom gate (fixed generic unitary)
    ["m", n, seed]                                multi-phase operation on all n qubits
"""
import math

import numpy as np
import sympy

from zquantum.core import circuits
from zquantum.core.circuits import (
    Circuit,
    CustomGateDefinition,
    MultiPhaseOperation,
    builtin_gate_by_name,
)

from mc import ref

_custom = {}


def custom_def(name):
    """CU1, CU2, CU3: generic unitaries on 1, 2, 3 qubits without parameters"""
    if name not in _custom:
        k = int(name[2])
        m = ref.haar_like(1 << k, k)
        _custom[name] = (
            CustomGateDefinition(name, sympy.Matrix(m), ()),
            m,
        )
    return _custom[name]


_s, _t = sympy.symbols("sigma tau")


def _flip(t):
    """a reflection: never the identity, at t = 0 the NOT gate"""
    return [[math.sin(t) + 0j, math.cos(t) + 0j], [math.cos(t) + 0j, -math.sin(t) + 0j]]


def _flop(t, s):
    """a reflection on the inner two states and a phase"""
    m = [[0j] * 4 for _ in range(4)]
    m[0][3] = m[3][0] = ref._expi(s)
    m[1][1], m[1][2], m[2][1], m[2][2] = _flip(t)[0] + _flip(t)[1]
    return m


PARAMETRIC = {
    # parameters are not in alphabetical order
    "CP1": (CustomGateDefinition("CP1", sympy.Matrix([[sympy.sin(_t), sympy.cos(_t)], [sympy.cos(_t), -sympy.sin(_t)]]), (_t,)), _flip),
    "CP2": (CustomGateDefinition("CP2", sympy.Matrix([[0, 0, 0, sympy.exp(sympy.I * _s)], [0, sympy.sin(_t), sympy.cos(_t), 0], [0, sympy.cos(_t), -sympy.sin(_t), 0],
                                                      [sympy.exp(sympy.I * _s), 0, 0, 0]]), (_t, _s)), _flop),
}


def wrap_ref(m, wrappers):
    for w in wrappers:
        m = ref.dagger(m) if w == "d" else ref.controlled(m, w)
    return m


def wrap_real(g, wrappers):
    for w in wrappers:
        g = g.dagger if w == "d" else g.controlled(w)
    return g


def real_gate(name, params=()):
    if name in PARAMETRIC:
        return PARAMETRIC[name][0](*params)
    if name.startswith("CU"):
        return custom_def(name)[0]()
    g = builtin_gate_by_name(name)
    return g(*params) if ref.GATES[name][1] else g


def ref_gate(name, params=()):
    if name in PARAMETRIC:
        return PARAMETRIC[name][1](*[float(p) for p in params])
    if name.startswith("CU"):
        return custom_def(name)[1]
    return ref.gate(name, *[float(p) for p in params])


def gate_pair(name, params=(), wrappers=()):
    return (
        wrap_real(real_gate(name, params), wrappers),
        wrap_ref(ref_gate(name, params), wrappers),
    )


def phases(n, seed):
    return [0.3 * seed + 0.71 * i * (seed + 1) - 0.05 * i * i for i in range(1 << n)]


def real_op(d):
    if d[0] == "m":
        return MultiPhaseOperation(tuple(phases(d[1], d[2])))
    if d[0] == "c":
        return wrap_real(real_gate(d[1]), d[3])(*d[2])
    return wrap_real(real_gate(d[1], d[2]), d[4])(*d[3])


def ref_op(d):
    """(matrix, qubits)"""
    if d[0] == "m":
        ph = phases(d[1], d[2])
        m = ref.zeros(1 << d[1])
        for i, t in enumerate(ph):
            m[i][i] = complex(math.cos(t), math.sin(t))
        return m, list(range(d[1]))
    if d[0] == "c":
        return wrap_ref(ref_gate(d[1]), d[3]), d[2]
    return wrap_ref(ref_gate(d[1], d[2]), d[4]), d[3]


def op_size(d):
    if d[0] == "m":
        return d[1]
    return max(d[2] if d[0] == "c" else d[3]) + 1


def seq_size(ds):
    return max([op_size(d) for d in ds] or [0])


def real_circuit(ds, n=None):
    return Circuit([real_op(d) for d in ds], n_qubits=n)


def num(m):
    return ref.tolist(m)


def gate_num(g):
    return ref.tolist(g.matrix)


def vec(v):
    if hasattr(v, "amplitudes"):
        v = v.amplitudes
    if hasattr(v, "tolist"):
        v = v.tolist()
    return [complex(x[0] if isinstance(x, list) else x) for x in v]
