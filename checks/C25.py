"""C25: arrays, estimates, results and nested data survive JSON storage."""
import io
import itertools
import json
import os
import pathlib
import warnings

import numpy as np
from scipy.optimize import OptimizeResult

from checks import zqfresh, zqfreshlist
from mc.core import Space
from zquantum.core.distribution import MeasurementOutcomeDistribution
from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts
from zquantum.core.serialization import (OrquestraDecoder, OrquestraEncoder, ensure_open, load_array, load_optimization_results, save_array, save_optimization_results)
from zquantum.core import measurement
from zquantum.core.wavefunction import Wavefunction
from zquantum.core.utils import (ValueEstimate, convert_array_to_dict, convert_dict_to_array, create_object, get_func_from_specs, load_from_specs, load_list, load_nmeas_estimate,
                                 load_noise_model, load_value_estimate, save_generic_dict, save_list, save_nmeas_estimate, save_noise_model, save_timing, save_value_estimate)

ID = "C25"
ASSUMPTIONS = ["plain dictionaries do not carry the marker keys real, call_number with value, or a schema, and are not mappings from outcomes to numbers (the decoder reserves these forms)",
               "shapes are restorable from nested lists (no dimension follows a dimension of length zero)", "arrays come back in the default precision of their kind"]
TECHNIQUE = "exhaustive enumeration of array shapes, kinds and values and of nested documents over an alphabet of leaves, each stored and loaded through every entry point and compared structurally"

INF, NAN = float("inf"), float("nan")
POOLS = {
    "float": [0.0, -1.5, 1e-300, 0.1, 12345678.9, -0.0, 1e22, 3.0],
    "special": [INF, NAN, -INF, 1.0],
    "complex": [0j, 1 + 2j, -0.5j, 3.0 + 0j, 1e-300 - 1e300j, 0.1 + 0.2j],
    "creal": [1 + 0j, 2 + 0j, 0j],
    "cspecial": [complex(1, INF), complex(NAN, 1), complex(-INF, 0), complex(0, -INF), complex(2, NAN)],
    "int": [0, -3, 2 ** 62, 7, 1],
    "bool": [True, False, False],
    "f32": [0.5, -1.1, 3.0],
    "c64": [0.5 + 1j, -1.1, 3.0j],
    "i8": [1, -3, 100],
    "str": ["ab", "", "c"],
}
DTYPES = {"float": float, "special": float, "complex": complex, "creal": complex, "cspecial": complex, "int": np.int64, "bool": bool, "f32": np.float32, "c64": np.complex64, "i8": np.int8, "str": None}
SHAPES = [(), (0,), (1,), (2,), (3,), (5,), (1, 0), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 2, 0), (2, 2, 1, 2)]
LAYOUT = ("C", "F", "strided", "readonly")
ROUTES = ("dict", "str", "path", "bytes", "file", "json", "jsonfile", "indent", "handle")


def gen_arrays(tier):
    shapes = SHAPES + ([(7,), (3, 3), (4, 4), (3, 1, 3), (2, 3, 2), (2, 2, 2, 2), (1, 1, 1, 1, 2), (16,), (8, 8)] if tier == "thorough" else [])
    for sh in shapes:
        for kind in POOLS:
            for start in range(len(POOLS[kind]) if sh else len(POOLS[kind])):
                if int(np.prod(sh)) == 0 and start:
                    continue
                for lay in LAYOUT:
                    if lay != "C" and len(sh) < (2 if lay == "F" else 1):
                        continue
                    for route in ROUTES:
                        yield [list(sh), kind, start, lay, route]


def make(sh, kind, start, lay):
    pool = POOLS[kind]
    n = int(np.prod(sh)) if sh else 1
    vals = [pool[(start + i) % len(pool)] for i in range(n)]
    a = np.array(vals, dtype=DTYPES[kind] or "U2").reshape(tuple(sh))
    if lay == "F":
        a = np.asfortranarray(a)
    if lay == "strided":
        a = np.concatenate([a, a], axis=-1)[..., : sh[-1]] if sh else a
    if lay == "readonly":
        a.flags.writeable = False
    return a, vals


def flat(nested):
    if isinstance(nested, list):
        return [y for x in nested for y in flat(x)]
    return [nested]


def same(x, y):
    if isinstance(x, complex) or isinstance(y, complex):
        x, y = complex(x), complex(y)
        return same(x.real, y.real) and same(x.imag, y.imag)
    if isinstance(x, float) and x != x:
        return isinstance(y, float) and y != y
    return x == y


def step_arrays(ctx, case):
    sh, kind, start, lay, route = case
    a, vals = make(sh, kind, start, lay)
    ctx.state(("a", tuple(sh), kind, start))
    expected = [v for v in a.reshape(-1).tolist()]
    keep = repr(a)
    if route == "dict":
        d = convert_array_to_dict(a)
        ctx.eq("imag" in d, kind in ("complex", "creal", "cspecial", "c64"), "dictionary has imaginary parts")
        b = convert_dict_to_array(json.loads(json.dumps(d)))
    elif route in ("json", "jsonfile", "indent"):
        if route == "jsonfile":
            s = io.StringIO()
            json.dump({"x": [a]}, s, cls=OrquestraEncoder)
            b = json.loads(s.getvalue(), cls=OrquestraDecoder)["x"][0]
        elif route == "indent":
            b = json.loads(json.dumps([a], cls=OrquestraEncoder, indent=1), cls=OrquestraDecoder)[0]
        else:
            b = json.loads(json.dumps(a, cls=OrquestraEncoder), cls=OrquestraDecoder)
    else:
        name = os.path.join(ctx.scratch, "arr.json")
        if route == "file":
            s = io.StringIO()
            save_array(a, s)
            s.seek(0)
            b = load_array(s)
        elif route == "handle":
            with open(name, "w") as f:
                save_array(a, f)
            with open(name) as f:
                b = load_array(f)
        else:
            conv = {"str": str, "path": pathlib.Path, "bytes": os.fsencode}[route]
            save_array(a, conv(name))
            b = load_array(conv(name))
    ctx.step()
    ctx.eq(repr(a), keep, "the stored array changed")
    b = np.asarray(b)
    ctx.eq(list(b.shape), list(sh), "shape")
    if b.size:
        ctx.eq(b.dtype.kind, {"i": "i", "f": "f", "c": "c", "b": "b", "U": "U"}[a.dtype.kind], "kind of the elements")
    ctx.eq(np.iscomplexobj(b), np.iscomplexobj(a), "complex type")
    got = b.reshape(-1).tolist()
    ctx.check(len(got) == len(expected) and all(same(x, y) for x, y in zip(got, expected)), lambda: "array %r came back as %r" % (expected, got))
    ctx.outcome("%s:%s" % (kind, route))


# ---- nested documents --------------------------------------------------------------------------
LEAVES = ["none", "int", "float", "inf", "str", "true", "arr", "carr", "arr0", "ve", "venone", "venp", "dist", "dist2", "empty", "emptyd"]


def leaf(name):
    return {
        "none": None, "int": -7, "float": 0.1, "inf": INF, "str": "schema", "true": True,
        "arr": np.array([[1.5, -2.0], [0.0, 1e-9]]), "carr": np.array([1 + 0j, 2j]), "arr0": np.array(2.5),
        "ve": ValueEstimate(0.25, 1.5), "venone": ValueEstimate(-3), "venp": ValueEstimate(np.float64(0.5), np.float64(0.125)),
        "dist": MeasurementOutcomeDistribution({"01": 0.25, "10": 0.75}), "dist2": MeasurementOutcomeDistribution({(0, 12): 0.5, (3, 0): 0.5}),
        "empty": [], "emptyd": {},
    }[name]


def build(t):
    if isinstance(t, str):
        return leaf(t)
    k, kids = t[0], [build(x) for x in t[1:]]
    if k == "list":
        return kids
    if k == "tuple":
        return tuple(kids)
    if k == "dict":
        return dict(zip(("a", "value", "x y"), kids))
    if k == "dictn":
        return dict(zip(("imag", "call_number", "12x"), kids))
    if k == "entry":
        return HistoryEntry(3, kids[0], kids[1] if len(kids) > 1 else 1.5)
    if k == "entrya":
        return HistoryEntryWithArtifacts(0, np.array([0.5]), kids[0], {"n": kids[1]} if len(kids) > 1 else {})
    if k == "opt":
        return OptimizeResult(opt_value=kids[0], opt_params=kids[-1], nit=2)
    if k == "optx":
        # results of other optimizers, without the customary fields
        return OptimizeResult(dict(zip(("x", "fun", "nit"), kids)))
    raise KeyError(k)


def equal(x, y, path=""):
    """None, or where the documents differ; x is the original, y the loaded one"""
    if isinstance(x, np.ndarray):
        if not isinstance(y, (np.ndarray, np.generic)) or np.shape(x) != np.shape(y) or np.iscomplexobj(x) != np.iscomplexobj(y) or not np.array_equal(x, y):
            return path + ": array"
        return None
    if isinstance(x, ValueEstimate):
        if type(y) is not ValueEstimate or float(x) != float(y) or x.precision != y.precision:
            return path + ": value estimate"
        return None
    if isinstance(x, MeasurementOutcomeDistribution):
        if type(y) is not MeasurementOutcomeDistribution or x.distribution_dict != y.distribution_dict:
            return path + ": distribution"
        return None
    if isinstance(x, OptimizeResult):
        if type(y) is not OptimizeResult:
            return path + ": optimization result"
    elif isinstance(x, (HistoryEntry, HistoryEntryWithArtifacts)):
        if type(y) is not type(x):
            return path + ": history entry"
        return equal(dict(x._asdict()), dict(y._asdict()), path + ".entry")
    elif isinstance(x, dict):
        if type(y) is not dict:
            return path + ": dictionary"
    if isinstance(x, dict):
        if set(x) != set(y):
            return path + ": keys %s and %s" % (sorted(x), sorted(y))
        for k in x:
            r = equal(x[k], y[k], "%s[%r]" % (path, k))
            if r:
                return r
        return None
    if isinstance(x, (list, tuple)):
        if type(y) is not list or len(x) != len(y):
            return path + ": list"
        for i, (a, b) in enumerate(zip(x, y)):
            r = equal(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if type(x) is type(y) and x == y else path + ": %r and %r" % (x, y)


def trees(depth, leaves, arity):
    if depth == 0:
        yield from leaves
        return
    yield from leaves
    sub = list(trees(depth - 1, leaves, arity))
    for k in ("list", "tuple", "dict", "dictn", "entry", "entrya", "opt"):
        for n in range(0 if k in ("list", "dict", "tuple", "dictn") else 1, arity + 1):
            for kids in itertools.product(sub, repeat=n):
                yield [k, *kids]


def gen_docs(tier):
    for t in trees(1, LEAVES, 3 if tier == "thorough" else 2):
        yield [t]
    small = ["int", "carr", "ve", "dist"] if tier == "quick" else ["int", "arr", "carr", "ve", "dist", "none"]
    for t in trees(2, small, 1 if tier == "quick" else 1):
        yield [t]
    for n in (0, 1, 2, 3):
        for kids in itertools.product(("int", "carr", "none", "dist"), repeat=n):
            for wrap in ("list", "dict", "tuple", "opt", "optx"):
                yield [["optx", *kids]]
                yield [[wrap, ["optx", *kids]]]
    for k in ("list", "dict", "entry", "entrya", "opt"):
        for a in trees(1, ["int", "ve", "carr"], 1):
            for b in trees(1, ["int", "dist", "arr"], 1):
                yield [[k, a, b]]
    for t in trees(3, ["carr", "int"], 1):
        yield [t]
    if tier == "thorough":
        for t in trees(4, ["carr"], 1):
            yield [t]
        for k in ("list", "dict", "entry", "entrya", "opt"):
            for a in trees(1, ["int", "ve"], 2):
                for b in trees(1, ["dist", "carr"], 2):
                    yield [[k, a, b]]


def step_docs(ctx, case):
    (t,) = case
    warnings.simplefilter("ignore")
    x = build(t)
    ctx.state(repr(t))
    texts = {"dumps": json.dumps(x, cls=OrquestraEncoder), "indent": json.dumps(x, cls=OrquestraEncoder, indent=2)}
    s = io.StringIO()
    json.dump(x, s, cls=OrquestraEncoder)
    texts["dump"] = s.getvalue()
    texts["encode"] = OrquestraEncoder().encode(x)
    ctx.eq(json.dumps(build(t), cls=OrquestraEncoder), texts["dumps"], "document after encoding")
    ctx.eq(json.dumps(x, cls=OrquestraEncoder), texts["dumps"], "document encoded again")
    for how, text in texts.items():
        y = json.loads(text, cls=OrquestraDecoder)
        ctx.step()
        r = equal(x, y)
        ctx.check(r is None, lambda: "%s: %r differs at %s" % (how, t, r))
        ctx.eq(json.loads(json.dumps(y, cls=OrquestraEncoder)), json.loads(text), "document stored again")
    ctx.outcome(str(t if isinstance(t, str) else t[0]))


# ---- plain JSON texts and unsupported objects -------------------------------------------------
PLAIN_LEAVES = [None, True, 1, -2.5, "real", "1", [], {}]
KEYS = ["a", "imag", "value", "call_number", "-1", "1x", "schema_", "0.5", " "]


def gen_plain(tier):
    base = list(range(len(PLAIN_LEAVES)))
    for n in (0, 1, 2, 3) if tier == "thorough" else (0, 1, 2):
        for ks in itertools.permutations(range(len(KEYS)), n):
            for vs in itertools.product(base, repeat=n):
                if n == 3 and (ks[0] > ks[1] or ks[1] > ks[2]):
                    continue
                yield ["dict", list(ks), list(vs)]
    for n in (1, 2, 3):
        for vs in itertools.product(base, repeat=n):
            yield ["list", [], list(vs)]
    for i in range(len(BAD)):
        for wrap in range(4):
            yield ["bad", [], [i, wrap]]


class Odd:
    pass


BAD = [Odd(), {1, 2}, 1j, b"abc", Odd, np.complex128(2j), range(3), len]


def step_plain(ctx, case):
    form, ks, vs = case
    ctx.state(repr(case))
    if form == "bad":
        x = BAD[vs[0]]
        x = [x, [x], {"a": x}, OptimizeResult(opt_value=x, opt_params=1)][vs[1]]
        for f in (lambda: json.dumps(x, cls=OrquestraEncoder), lambda: json.dump(x, io.StringIO(), cls=OrquestraEncoder)):
            ctx.step()
            ctx.raises(f, "encoding an object of an unsupported type", (TypeError, ValueError))
        return
    names = [KEYS[k] for k in ks]
    if form == "dict" and "call_number" in names and "value" in names:
        return
    doc = {KEYS[k]: PLAIN_LEAVES[v] for k, v in zip(ks, vs)} if form == "dict" else [PLAIN_LEAVES[v] for v in vs]
    for wrap in (lambda d: d, lambda d: [d, 1], lambda d: {"q": d, "r": "s"}):
        y = json.loads(json.dumps(wrap(doc)), cls=OrquestraDecoder)
        ctx.step()
        r = equal(wrap(doc), y)
        ctx.check(r is None, lambda: "plain document %r came back as %r" % (wrap(doc), y))
        z = json.loads(json.dumps(wrap(doc), cls=OrquestraEncoder))
        ctx.eq(repr(z), repr(wrap(doc)), "plain document through the encoder")


# ---- files ------------------------------------------------------------------------------------
VALUES = [0.0, -1.5, 3, 1e-12, np.float64(2.25), np.float32(0.5), np.int64(4)]
PRECS = [None, 0.0, 0.125, 2, np.float64(1e-3), np.int64(1), np.float32(0.25)]
LISTS = [[], [1], [0.5, -1], ["a", None], [[1, 2], []], [True, {"a": 1}], [1, 2.5, "x", [3]]]
PATHS = ("str", "path", "bytes", "handle")


def gen_files(tier):
    for p in PATHS:
        for i in range(len(VALUES)):
            for j in range(len(PRECS)):
                yield ["ve", p, i, j]
        for i in range(len(LISTS)):
            for name in ("", "number", "a b"):
                yield ["list", p, i, name]
        for i in range(5):
            for j in range(4):
                yield ["nmeas", p, i, j]
        for i in range(6):
            yield ["noise", p, i, 0]
        for i in range(len(LEAVES)):
            for j in range(3):
                yield ["opt", p, i, j]
        for i in range(5):
            yield ["dict", p, i, 0]
        yield ["timing", p, 0, 0]
    for mask in range(16):
        for kind in ("class", "func", "nofunc"):
            for json_form in (0, 1):
                yield ["create", kind, mask, json_form]


def step_files(ctx, case):
    what, p, i, j = case
    ctx.state(repr(case))
    ctx.step()
    name = os.path.join(ctx.scratch, "f.json")
    conv = {"str": str, "path": pathlib.Path, "bytes": os.fsencode, "handle": str}.get(p, str)

    def load(f):
        if p == "handle":
            with open(name) as h:
                return f(h)
        return f(conv(name))

    warnings.simplefilter("ignore")
    if what == "ve":
        v = ValueEstimate(VALUES[i], PRECS[j])
        save_value_estimate(v, conv(name))
        y = load(load_value_estimate)
        ctx.check(type(y) is ValueEstimate and float(y) == float(VALUES[i]) and y == v and v == y and not (y != v), lambda: "%r loaded as %r" % (v, y))
        ctx.eq(y.precision, None if PRECS[j] is None else float(PRECS[j]), "precision")
        z = ValueEstimate.from_dict(json.loads(json.dumps(v.to_dict())))
        ctx.check(z == v and z.precision == v.precision, "value estimate through a dictionary")
        for k, q in enumerate(PRECS):
            other = ValueEstimate(VALUES[i], q)
            ctx.eq(v == other, (q is None) == (PRECS[j] is None) and (q is None or float(q) == float(PRECS[j])), "equality with precision %r" % (q,))
        ctx.eq(str(v), str(float(VALUES[i])) + ("" if PRECS[j] is None else " ± %s" % PRECS[j]), "text")
    elif what == "list":
        save_list(LISTS[i], conv(name), j)
        ctx.eq(load(load_list), LISTS[i], "list")
        with open(name) as f:
            ctx.eq(json.load(f)["schema"], "zapata-v1-%s-list" % j, "schema")
    elif what == "nmeas":
        K, n = [1.0, 2.5, 0, 1e6, -3][i], i
        frame = [None, np.array([1.0, 2.5]), np.array([]), np.array([3, 4])][j]
        save_nmeas_estimate(K, n, conv(name), *([] if frame is None else [frame]))
        k2, n2, f2 = load_nmeas_estimate(conv(name))
        ctx.eq([k2, n2], [K, n], "estimate")
        ctx.eq(None if f2 is None else np.asarray(f2).tolist(), None if frame is None else frame.tolist(), "frames")
    elif what == "noise":
        data = [{}, {"a": 1}, [1, 2], "text", None, {"q": [0.5]}][i]
        save_noise_model(data, "checks.C25", "decode_noise", conv(name))
        ctx.eq(load(load_noise_model), ("noise", data), "noise model")
    elif what == "opt":
        x = leaf(LEAVES[i])
        res = OptimizeResult(opt_value=0.5, opt_params=np.array([1.0, 2.0]), extra=x) if j == 0 else OptimizeResult(
            opt_value=ValueEstimate(0.5, 1.0), opt_params=np.array([1j]), history=[HistoryEntry(0, np.array([1.0]), x)], nit=3) if j == 1 else dict(opt_value=1.0, stuff=[x], opt_params=[1])
        keys = sorted(res)
        save_optimization_results(res, conv(name))
        ctx.eq(sorted(res), keys, "keys of the results after saving them")
        y = load_optimization_results(conv(name))
        r = equal(OptimizeResult(res), y)
        ctx.check(r is None, lambda: "optimization results differ at %s" % r)
    elif what == "dict":
        d = [{}, {"a": 1}, {"a": {"b": [1, 2.5]}, "c": None}, {"schema": "mine"}, {"x": "y", "z": True}][i]
        keep = json.dumps(d)
        save_generic_dict(d, conv(name))
        with open(name) as f:
            y = json.load(f)
        ctx.eq(json.dumps(d), keep, "dictionary after saving")
        ctx.eq(y, {"schema": "zapata-v1-dict", **d}, "dictionary")
    elif what == "timing":
        save_timing(2.5, conv(name))
        with open(name) as f:
            ctx.eq(json.load(f), {"schema": "zapata-v1-timing", "walltime": 2.5}, "timing")
    elif what == "create":
        kind, mask, js = case[1:]
        # bits: 1 = a in specs, 2 = b in specs, 4 = a as keyword, 8 = b as keyword
        specs = {"module_name": "checks.C25", "function_name": {"class": "Made", "func": "made", "nofunc": "plain"}[kind]}
        if mask & 1:
            specs["a"] = 1
        if mask & 2:
            specs["b"] = [2]
        kw = {}
        if mask & 4:
            kw["a"] = 3
        if mask & 8:
            kw["b"] = 4
        keep = dict(specs)
        call = (lambda: load_from_specs(json.dumps(specs))) if js and not kw else (lambda: load_from_specs(dict(specs))) if js else (lambda: create_object(specs, **kw))
        if js and kw:
            return
        if mask & 5 == 5 or mask & 10 == 10:
            ctx.raises(call, "parameter given twice", ValueError)
            return
        want = {"a": 0, "b": None}
        if mask & 1:
            want["a"] = 1
        if mask & 2:
            want["b"] = [2]
        if mask & 4:
            want["a"] = 3
        if mask & 8:
            want["b"] = 4
        got = call()
        ctx.eq(specs, keep, "specification after use")
        if kind == "class":
            ctx.eq([got.a, got.b], [want["a"], want["b"]], "created object")
        elif kind == "func":
            ctx.eq(got(), ("made", want["a"], want["b"]), "created function")
            ctx.eq(got(a=9), ("made", 9, want["b"]), "created function with an argument")
        else:
            ctx.eq(got(5), ("plain", 5), "created function with ignored settings")


def decode_noise(data):
    return ("noise", data)


class Made:
    def __init__(self, a=0, b=None):
        self.a, self.b = a, b


def made(a=0, b=None):
    return ("made", a, b)


def plain(x):
    return ("plain", x)


MVALS = [[], [1.5], [0.5, -1.0], [1, 2, 3], [0.5 + 0j, -1j], [2 ** 40, -1], [1e-300, 0.1 + 0.2], "f32"]
MFRAMES = [None, [], [[[1.0]]], [[[1.0, 0.5], [0.5, 1.0]], [[2.0]]], [[[1 + 1j]]], [[[0.25]], [[0.5]], [[0.75, 0], [0, 1.5]]]]


def mvals(i):
    x = MVALS[i]
    return np.array([0.1, 0.2], dtype=np.float32) if x == "f32" else np.array(x)


def mframes(i):
    return None if MFRAMES[i] is None else [np.array(x) for x in MFRAMES[i]]


def gen_measured(tier):
    for p in PATHS + ("dict",):
        for i in range(len(MVALS)):
            for j in range(len(MFRAMES)):
                for k in range(len(MFRAMES)) if p in ("str", "dict") else (j,):
                    yield ["ev", p, i, j, k]
        for i in range(5):
            for j in range(4):
                yield ["par", p, i, j, 0]
        if p != "dict":
            for i in range(9):
                yield ["wf", p, i, 0, 0]


def sameframes(x, y):
    return len(x or []) == len(y or []) and all(np.shape(a) == np.shape(b) and np.iscomplexobj(a) == np.iscomplexobj(b) and np.array_equal(a, b) for a, b in zip(x or [], y or []))


def step_measured(ctx, case):
    what, p, i, j, k = case
    ctx.state(repr(case))
    ctx.step()
    name = os.path.join(ctx.scratch, "m.json")
    conv = {"str": str, "path": pathlib.Path, "bytes": os.fsencode}.get(p, str)

    def through(x, save, load):
        if p == "dict":
            return type(x).from_dict(json.loads(json.dumps(x.to_dict())))
        save(x, conv(name))
        if p == "handle":
            with open(name) as h:
                return load(h)
        return load(conv(name))

    if what == "ev":
        v, co, cv = mvals(i), mframes(j), mframes(k)
        x = measurement.ExpectationValues(v.copy(), mframes(j), mframes(k))
        y = through(x, measurement.save_expectation_values, measurement.load_expectation_values)
        for o, who in ((x, "saved"), (y, "loaded")):
            ctx.check(np.shape(o.values) == np.shape(v) and np.array_equal(o.values, v) and (np.iscomplexobj(o.values) == np.iscomplexobj(v)), lambda: "%s values %r, expected %r" % (who, o.values, v))
            ctx.check(sameframes(o.correlations, co), lambda: "%s correlations %r, expected %r" % (who, o.correlations, co))
            ctx.check(sameframes(o.estimator_covariances, cv), lambda: "%s covariances %r, expected %r" % (who, o.estimator_covariances, cv))
        ctx.check(x == y and y == x and not (x != y), "loaded expectation values are equal to the saved ones")
        # equality notices every part
        z = measurement.ExpectationValues(v.copy(), mframes(j), mframes(k))
        ctx.check(x == z, "equal expectation values")
        for other in ([measurement.ExpectationValues(np.concatenate([v.reshape(-1), [7.0]]), co, cv), measurement.ExpectationValues(v, (co or []) + [np.array([[9.0]])], cv),
                       measurement.ExpectationValues(v, co, (cv or []) + [np.array([[9.0]])])] + ([measurement.ExpectationValues(v + 1, co, cv)] if v.size else [])
                      + ([measurement.ExpectationValues(v, [c + 1 for c in co], cv)] if co else []) + ([measurement.ExpectationValues(v, co, cv[:-1] + [cv[-1] * 2])] if cv else [])):
            ctx.check(not (x == other) and x != other, lambda: "%r equals %r" % (x.__dict__, other.__dict__))
        ctx.check(not (x == 3) and not (x == None), "expectation values equal something else")  # noqa: E711
    elif what == "par":
        v = [np.array([[3, 1]]), np.array([[0, 4], [2, 2]]), np.array([[7, 0]]), np.array([[2 ** 40, 1], [5, 0], [0, 7]]), np.array([[0.5, 1.5]])][i]
        n = len(v)
        co = [None, [np.arange(n * n * 2).reshape(n, n, 2)], [np.arange(n * n * 2).reshape(n, n, 2) + 0.5, np.ones((1, 1, 2))], []][j]
        x = measurement.Parities(v.copy(), None if co is None else [c.copy() for c in co])
        y = through(x, measurement.save_parities, measurement.load_parities)
        for o, who in ((x, "saved"), (y, "loaded")):
            ctx.check(np.shape(o.values) == np.shape(v) and np.array_equal(o.values, v), lambda: "%s parities %r, expected %r" % (who, o.values, v))
            ctx.check(sameframes(o.correlations, co), lambda: "%s pair parities %r, expected %r" % (who, o.correlations, co))
    else:
        r = 0.5 ** 0.5
        v = [[1.0], [0, 1], [1j, 0], [r, -r * 1j], [0, 0, 1, 0], [0.5, 0.5j, -0.5, -0.5j], [0.1 ** 0.5, 0.9 ** 0.5], [0, 0, 0, 0, 0, -1, 0, 0], [0.125 ** 0.5 * (1j) ** q for q in range(8)]][i]
        x = Wavefunction(np.array(v))
        y = through(x, measurement.save_wavefunction, measurement.load_wavefunction)
        ctx.check(len(y) == len(v) and [complex(t) for t in y.amplitudes] == [complex(t) for t in v], lambda: "wavefunction %r loaded as %r" % (v, y.amplitudes))
        ctx.check(y == x and [complex(t) for t in x.amplitudes] == [complex(t) for t in v], "loaded wavefunction is equal to the saved one")


# ---- members of value estimates, open files, functions from specifications ------------------------
NUMS = [0, 1, -3, 0.5, True, np.float64(0.25), np.float32(0.5), np.int64(7), 10 ** 30, 1e-300, "2.5"]


def gen_members(tier):
    for i in range(len(NUMS)):
        for j in range(len(NUMS)):
            yield ["pair", i, j]
    for i in range(3):
        for mode in ("r", "w", "rb", "wb", "a", "x", "r+"):
            yield ["open", i, mode]
    yield ["func", 0, 0]


def step_members(ctx, case):
    what, i, j = case
    ctx.state(repr(case))
    ctx.step()
    warnings.simplefilter("ignore")
    if what == "pair":
        v, w = ValueEstimate(NUMS[i]), ValueEstimate(NUMS[j], 0.5)
        a, b = float(NUMS[i]), float(NUMS[j])
        ctx.check(float(v) == a and v.value == a and v.precision is None and isinstance(v, float), "value of an estimate")
        ctx.eq([v + w, v * 2, v - w, -v, v < w, v <= w, v > w, abs(v)], [a + b, a * 2, a - b, -a, a < b, a <= b, a > b, abs(a)], "arithmetic of estimates")
        ctx.eq([v == w, v != w, v == a, v == b, w == b, v != b], [False, True, True, a == b, False, a != b], "estimates %r and %r with and without a precision, and numbers" % (v, w))
        ctx.eq([w == ValueEstimate(NUMS[i], 0.5), w != ValueEstimate(NUMS[i], 0.5), w == ValueEstimate(NUMS[j], 0.25)], [a == b, a != b, False], "estimates with precisions")
        ctx.eq([v == "x", v != "x", v == None, v != None, v == [a]], [False, True, False, True, False], "estimates and other objects")  # noqa: E711
        ctx.eq([str(v), str(w)], [str(a), "%s ± 0.5" % b], "texts")
        for e in (v, w, ValueEstimate(NUMS[i], np.float64(0.5)), ValueEstimate(NUMS[i], np.float32(0.25))):
            d = e.to_dict()
            ctx.check(d["value"] == float(e) and d["precision"] == e.precision and json.loads(json.dumps(d)) == d, lambda: "dictionary %r" % d)
            y = ValueEstimate.from_dict(d)
            ctx.check(y == e and e == y and type(y) is ValueEstimate, "estimate of its dictionary")
            del d["precision"]
            ctx.check(ValueEstimate.from_dict(d) == ValueEstimate(float(e)), "estimate of a dictionary without a precision")
    elif what == "open":
        mode = j
        path = os.path.join(ctx.scratch, "o.bin")
        if os.path.exists(path):
            os.unlink(path)
        if mode[0] != "x":
            with open(path, "wb") as f:
                f.write("aü\n".encode())
        name = [path, pathlib.Path(path), os.fsencode(path)][i]
        data = "bö"
        with ensure_open(name, mode) as f:
            ctx.check(not f.closed and ("b" in mode) == isinstance(f, io.BufferedIOBase), "kind of the file")
            if mode[0] in "rR" and mode != "r+":
                ctx.eq(f.read(), "aü\n".encode() if "b" in mode else "aü\n", "contents")
            else:
                f.write(data.encode() if "b" in mode else data)
        ctx.check(f.closed, "a file opened by name stays open")
        with open(path, "rb") as f:
            ctx.eq(f.read(), {"r": "aü\n", "rb": "aü\n", "w": data, "wb": data, "a": "aü\n" + data, "x": data, "r+": data + "\n"}[mode].encode(), "file after mode %s" % mode)
        # open objects are passed through and stay open
        for writable in (False, True):
            with open(path, "r+" if writable else "r") as h:
                if not writable and set(mode) & set("wax+"):
                    ctx.raises(lambda: ensure_open(h, mode).__enter__(), "writing to a file open for reading", ValueError)
                else:
                    with ensure_open(h, mode) as g:
                        ctx.check(g is h, "another object than the one given")
                    ctx.check(not h.closed, "a file given open was closed")
    else:
        h = get_func_from_specs({"module_name": "os.path", "function_name": "join"})
        ctx.check(h is os.path.join, "function from its specification")
        ctx.raises(lambda: get_func_from_specs({"module_name": "os.path", "function_name": "no_such"}), "an unknown function", AttributeError)
        ctx.raises(lambda: get_func_from_specs({"module_name": "no_such_module_at_all", "function_name": "x"}), "an unknown module", ImportError)


FRESH = zqfresh.Fresh(zqfreshlist.C25)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("arrays", gen_arrays, step_arrays, "19 (thorough 28) shapes x 11 kinds of elements x rotations of the value pool x 4 memory layouts x 9 storage routes"),
    Space("documents", gen_docs, step_docs, "all documents of depth 1 with at most 2 (thorough 3) children over 16 leaves, depth 2 and 3 over smaller alphabets, 7 containers, 4 encoders"),
    Space("plain", gen_plain, step_plain, "all plain dictionaries of at most 2 (thorough 3) of 9 keys and lists of at most 3 values over 8 leaves; 8 unsupported objects in 4 positions"),
    Space("files", gen_files, step_files, "value estimates, lists, estimates of numbers of measurements, noise models, optimization results and specifications through every kind of path"),
    Space("measured", gen_measured, step_measured, "expectation values (8 vectors x 6 x 6 lists of frames), parity tallies and wavefunctions through dictionaries and every kind of path; equality of expectation values"),
    Space("members", gen_members, step_members, "all pairs of 11 kinds of numbers as estimates with and without precision; 3 forms of names x 7 modes of opening files; functions from specifications"),
]
