"""C40: functions made compatible with an old type behave as if called with translated arguments."""
import collections
import itertools
import warnings

from mc.core import Space
from zquantum.core.wip.compatibility_tools import TranslationFailed, compatible_with_old_type
from zquantum.core.circuits import Circuit, RX, X, new_circuit_from_old_circuit

ID = "C40"
TECHNIQUE = "exhaustive enumeration of calls (argument structures, settings, failing translations and functions) of the decorated function, run next to a model of the translation"
ASSUMPTIONS = ["argument structures of up to three arguments and three levels of nesting stand for all"]


class Old:
    def __init__(self, v):
        self.v = v


class Older(Old):
    pass


class New:
    def __init__(self, v):
        self.v = v


class Special(list):
    pass


Pair = collections.namedtuple("Pair", "a b")
SHAPES = {
    "old": lambda: Old(1),
    "older": lambda: Older(2),
    "new": lambda: New(3),
    "number": lambda: 4,
    "none": lambda: None,
    "text": lambda: "old",
    "list": lambda: [Old(5), 6, Old(7)],
    "tuple": lambda: (Old(8), New(9)),
    "empty list": lambda: [],
    "empty tuple": lambda: (),
    "nested": lambda: [[Old(10)], (Old(11), [Old(12), 13])],
    "tuple of lists": lambda: ([Old(14)], [15]),
    "dictionary": lambda: {"a": Old(16)},
    "special": lambda: Special([Old(17)]),
    "pair": lambda: Pair(Old(18), 19),
    "set": lambda: frozenset([20, 21]),
    "class": lambda: Old,
}
NAMES = list(SHAPES)
ITERABLES = {"none": None, "empty": [], "list": [list], "tuple": [tuple], "both": [list, tuple], "as tuple": (list, tuple), "set": [frozenset, list]}


def model(x, iterables, bad, count):
    """What the wrapped function receives instead of x."""
    if isinstance(x, Old):
        count.append(x.v)
        if bad and x.v in bad:
            raise LookupError(x.v)
        return ("translated", x.v)
    if type(x) in (iterables or []):
        return (type(x).__name__, [model(y, iterables, bad, count) for y in x])
    return show(x)


def show(x):
    if isinstance(x, New):
        return ("translated", x.v) if x.v < 0 or getattr(x, "made", False) else ("new", x.v)
    if isinstance(x, Old):
        return ("old", x.v)
    if isinstance(x, dict):
        return ("dict", [(k, show(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, frozenset)):
        return (type(x).__name__, [show(y) for y in x])
    return repr(x)


def translate(bad=()):
    def to_new(old):
        if old.v in bad:
            raise [ValueError, KeyError, TranslationFailed, ZeroDivisionError][old.v % 4]("cannot translate")
        n = New(old.v)
        n.made = True
        return n
    return to_new


def run(case, wrapped=None, bad=(), fallback=None):
    args, kwargs, its, msg = case
    a = [SHAPES[x]() for x in args]
    k = {n: SHAPES[x]() for n, x in kwargs}
    before = [show(x) for x in a], {n: show(x) for n, x in k.items()}
    seen = []

    def plain(*args, **kwargs):
        seen.append(([show(x) for x in args], {n: show(x) for n, x in kwargs.items()}))
        return ("result", len(seen))

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f = compatible_with_old_type(Old, translate(bad), msg, fallback, ITERABLES[its])(wrapped or plain)
        try:
            r = ("returned", f(*a, **k))
        except Exception as e:
            r = ("raised", type(e).__name__, str(e))
    after = [show(x) for x in a], {n: show(x) for n, x in k.items()}
    return r, seen, [(x.category.__name__, str(x.message)) for x in w], before, after, (a, k)


def gen_args(tier):
    for its in ITERABLES:
        for msg in (None, "use something new"):
            for n in NAMES:
                yield [[n], [], its, msg]
                yield [[], [["key", n]], its, msg]
            yield [[], [], its, msg]
            for a, b in itertools.product(NAMES, repeat=2):
                yield [[a, b], [], its, msg]
                yield [[a], [["key", b]], its, msg]
    if tier == "thorough":
        for its in ITERABLES:
            for a, b, c in itertools.product(NAMES, repeat=3):
                yield [[a, b], [["other", c]], its, "use something new"]
                yield [[a], [["key", b], ["other", c]], its, None]


def step_args(ctx, case):
    args, kwargs, its, msg = case
    ctx.state(repr(case))
    count = []
    want = [model(SHAPES[x](), ITERABLES[its], None, count) for x in args], {n: model(SHAPES[x](), ITERABLES[its], None, count) for n, x in kwargs}
    for rounds in (1, 2):
        ctx.step()
        r, seen, w, before, after, _ = run(case)
        ctx.eq(r, ("returned", ("result", 1)), "value of the function")
        ctx.eq(seen, [want], "arguments the function is called with")
        ctx.eq(after, before, "arguments of the caller afterwards")
        ctx.eq(w, [("DeprecationWarning", msg)] * len(count) if msg else [], "warnings")


def gen_fail(tier):
    cases = [[["old"], []], [["older", "old"], []], [["list"], []], [["nested"], [["key", "tuple"]]], [["number"], [["key", "old"]]], [["new", "list"], [["key", "nested"], ["other", "older"]]], [["number"], []], [["list", "list"], []]]
    values = [1, 2, 5, 7, 8, 10, 11, 12]
    for (args, kwargs), its, msg, fb in itertools.product(cases, ITERABLES, (None, "old!"), (None, "value", "error")):
        for b in [[]] + [[v] for v in values] + ([[x, y] for x, y in itertools.combinations(values, 2)] if tier == "thorough" else [[1, 5], [8, 12]]):
            for own in (None, "ValueError", "KeyError"):
                yield [args, kwargs, its, msg, fb, b, own]


def step_fail(ctx, case):
    args, kwargs, its, msg, fb, bad, own = case
    ctx.state(repr(case))
    try:
        count = []
        for x in args + [x for _, x in kwargs]:
            model(SHAPES[x](), ITERABLES[its], bad, count)
        fails = False
    except LookupError:
        fails = True
    wrapped = fallback = None
    calls = []
    if own:
        def wrapped(*a, **k):
            calls.append("function")
            raise {"ValueError": ValueError, "KeyError": KeyError}[own]("own error")
    if fb:
        def fallback(*a, **k):
            calls.append(("fallback", a, k))
            if fb == "error":
                raise OSError("fallback failed")
            return "from fallback"
    ctx.step()
    r, seen, w, before, after, objects = run([args, kwargs, its, msg], wrapped, bad, fallback)
    ctx.eq(after, before, "arguments of the caller afterwards")
    notes = [x for x in w if x[0] == "DeprecationWarning"]
    others = [x for x in w if x[0] != "DeprecationWarning"]
    if not fails:
        ctx.eq(notes, [("DeprecationWarning", msg)] * len(count) if msg else [], "warnings about old objects")
        ctx.eq(others, [], "other warnings")
        ctx.eq([c if isinstance(c, str) else c[0] for c in calls], ["function"] if own else [], "what was called")
        ctx.eq(r[:2], ("raised", own) if own else ("returned", ("result", 1)), "outcome")
        return
    ctx.check(set(notes) <= {("DeprecationWarning", msg)} and (msg or not notes), lambda: "warnings about old objects: %s" % (notes,))
    ctx.eq(seen, [], "calls of the function although translation failed")
    if not fb:
        ctx.eq(calls, [], "what was called")
        ctx.eq(r[:2], ("raised", "TranslationFailed"), "outcome")
        return
    ctx.eq(len(others), 1, "warnings about the fallback")
    ctx.check(len(calls) == 1 and calls[0][0] == "fallback", lambda: "exactly the fallback is called, not %s" % (calls,))
    a, k = calls[0][1:]
    ctx.check(len(a) == len(objects[0]) and all(x is y for x, y in zip(a, objects[0])), "the fallback gets the original positional arguments")
    ctx.check(set(k) == set(objects[1]) and all(k[n] is objects[1][n] for n in k), "the fallback gets the original keyword arguments")
    ctx.eq(r[:2], ("returned", "from fallback") if fb == "value" else ("raised", "OSError"), "outcome")


def gen_same(tier):
    for k in range(4):
        yield k


def step_same(ctx, k):
    c = [Circuit(), Circuit([X(0)]), Circuit([X(0), RX(0.5)(1)], n_qubits=4), Circuit(n_qubits=2)][k]
    ctx.state(repr(c))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        ctx.step()
        r = new_circuit_from_old_circuit(c)
    ctx.check(r == c, "a circuit is its own translation")
    ctx.eq([x.category for x in w], [DeprecationWarning], "warnings")


SPACES = [
    Space("arguments", gen_args, step_args, "17 kinds of objects as single, pairs (thorough: triples) of positional and keyword arguments, 7 settings of the considered containers, with and without message, called twice"),
    Space("failures", gen_fail, step_fail, "8 calls, translation failing for none, one or two of 8 objects, no, working or failing fallback, functions with errors of their own, 7 settings of containers, with and without message"),
    Space("circuits", gen_same, step_same, "4 circuits"),
]
