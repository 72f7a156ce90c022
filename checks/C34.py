"""C34: graphs: files, comparison, generators."""
import io
import itertools
import json
import os
import random

import networkx as nx

from checks import zqfresh, zqfreshlist
from mc import ref, rng
from mc.core import Space
from zquantum.core import graph as zg

ID = "C34"
ASSUMPTIONS = ["node names and attributes are plain JSON data (tuples allowed as node names)", "attributes such as weights take no part in comparisons"]
TECHNIQUE = "exhaustive enumeration of small graphs and generator arguments, and of every answer of the random source for small sizes"


def edge_sets(n, directed=False, loops=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if (i < j or (directed and i != j) or (loops and i == j))]
    for mask in range(1 << len(pairs)):
        yield [p for k, p in enumerate(pairs) if mask >> k & 1]


NAMES = [lambda n: list(range(n)), lambda n: ["a", "b", "", "d"][:n], lambda n: [3, "3", 0, "x y"][:n], lambda n: [(0, 0), (0, 1), (1, 0), (1, 1)][:n], lambda n: [2, 0, 3, 1][:n], lambda n: [0.5, -1.0, 2.0, 7][:n]]
WEIGHTS = [None, 1.0, -0.25, 3, 0, 1e-17, 1e300]


def norm(g):
    """the set of nodes, edges and attributes"""
    d = g.is_directed()
    multi = g.is_multigraph()
    es = []
    for e in (g.edges(keys=True, data=True) if multi else g.edges(data=True)):
        ends = (repr(e[0]), repr(e[1])) if d else tuple(sorted((repr(e[0]), repr(e[1]))))
        es.append((ends, repr(e[2]) if multi else "", sorted((k, repr(v)) for k, v in e[-1].items())))
    return (d, multi, sorted((repr(k), sorted((a, repr(b)) for a, b in v.items())) for k, v in g.nodes(data=True)), sorted(es), sorted((k, repr(v)) for k, v in g.graph.items()))


def gen_io(tier):
    for cls in ("Graph", "DiGraph", "MultiGraph"):
        for n in range(0, 5 if cls == "Graph" else 4):
            for v in range(len(NAMES)):
                yield [cls, n, v]


def step_io(ctx, case):
    cls, n, v = case
    names = NAMES[v](n)
    for i, es in enumerate(edge_sets(n, cls == "DiGraph", n <= 2 or (cls == "Graph" and n == 3) or ctx.thorough and cls == "Graph")):
        g = getattr(nx, cls)()
        order = list(range(n)) if i % 2 else list(reversed(range(n)))
        g.add_nodes_from(names[k] for k in order)
        for k, (a, b) in enumerate(es):
            w = WEIGHTS[(i + k) % len(WEIGHTS)]
            kw = {} if w is None else {"weight": w}
            if (i + k) % 5 == 0:
                kw["label"] = ["q", {"z": 1}]
            for _ in range(2 if cls == "MultiGraph" and k % 2 else 1):
                g.add_edge(*((names[a], names[b]) if (i + k) % 2 or cls == "DiGraph" else (names[b], names[a])), **kw)
        if n and i % 3 == 0:
            g.nodes[names[0]]["colour"] = "red"
            g.graph["name"] = "test"
        snap = norm(g)
        ctx.state((case, i))
        path = os.path.join(ctx.scratch, f"g{v}.json")
        zg.save_graph(g, path)
        ctx.step()
        ctx.check(norm(g) == snap, "saving changed the graph")
        back = zg.load_graph(path)
        ctx.check(norm(back) == snap and type(back) is type(g), lambda: f"{snap} read back as {norm(back)}")
        ctx.check(list(back.nodes) == list(g.nodes), lambda: f"nodes {list(g.nodes)} read back as {list(back.nodes)}")
        ctx.check(zg.compare_graphs(g, back) is True and zg.compare_graphs(back, g) is True, lambda: f"{snap} is not equal to the graph read back")
        if i % 4 == 0:
            buf = io.StringIO()
            zg.save_graph(g, buf)
            ctx.check(buf.getvalue() == open(path).read(), "file object and file name give different files")
            buf.seek(0)
            ctx.check(norm(zg.load_graph(buf)) == snap, "read from a file object")
            ctx.check(json.loads(buf.getvalue())["schema"] == zg.GRAPH_SCHEMA, "schema")
            zg.save_graph(nx.path_graph(7), path)
            zg.save_graph(g, path)
            with open(path) as f:
                ctx.check(norm(zg.load_graph(f)) == snap, "file overwritten")
    ctx.raises(lambda: zg.load_graph(os.path.join(ctx.scratch, "nowhere.json")), "missing file", OSError)


def gen_compare(tier):
    for n in range(0, 4):
        yield ["Graph", n, 3]
        yield ["DiGraph", min(n, 2), n]
    if tier != "quick":
        for m in range(0, 5):
            yield ["Graph", 4, m]
    else:
        yield ["Graph", 4, 4]


def build(cls, n, es):
    g = getattr(nx, cls)()
    g.add_nodes_from(range(n))
    g.add_edges_from(es)
    return g


def is_prefix(a, b):
    return all(x == y for x, y in zip(a, b))


def step_compare(ctx, case):
    cls, n, m = case
    left = [build(cls, n, es) for es in edge_sets(n, cls == "DiGraph", n <= 3)]
    right = left if m == n else [build(cls, m, es) for es in edge_sets(m, cls == "DiGraph", m <= 3)]
    known = False
    for a in left:
        ctx.state((cls, n, tuple(a.edges)))
        for b in right:
            same = list(a.nodes) == list(b.nodes) and set(a.edges) == set(b.edges)
            got = zg.compare_graphs(a, b)
            ctx.step()
            ctx.check(zg.compare_graphs(b, a) is got, "comparison is not symmetric")
            if same:
                ctx.check(got is True, lambda: f"equal graphs {a.nodes} {a.edges} compare different")
            elif got:
                if is_prefix(list(a.nodes), list(b.nodes)) and is_prefix(list(a.edges), list(b.edges)):
                    known = f"nodes {list(a.nodes)} and edges {list(a.edges)} compare equal to nodes {list(b.nodes)} and edges {list(b.edges)}"
                else:
                    ctx.fail(f"nodes {list(a.nodes)} and edges {list(a.edges)} compare equal to nodes {list(b.nodes)} and edges {list(b.edges)}")
    # other names, isolated nodes
    g = nx.Graph()
    g.add_nodes_from(["a", "b", "c"])
    h = nx.Graph()
    h.add_nodes_from(["a", "c", "b"])
    ctx.check(not zg.compare_graphs(g, nx.path_graph(3)), "other names of nodes")
    ctx.check(zg.compare_graphs(g, g.copy()), "copy")
    g.add_edge("a", "b")
    h.add_edge("a", "c")
    ctx.check(not zg.compare_graphs(g, h), "other edges")
    if known:
        ctx.fail(known, key="compares-common-part")


def gen_nodes(tier):
    for v in range(len(NAMES)):
        for n in range(5):
            yield [v, n]


def step_nodes(ctx, case):
    v, n = case
    for perm in itertools.permutations(NAMES[v](n)):
        ctx.state((v, perm))
        g = nx.Graph()
        g.add_nodes_from(perm)
        for a, b in itertools.combinations(perm, 2):
            g.add_edge(b, a)
        ctx.step()
        got = zg.generate_graph_node_dict(g)
        ctx.check(got == {x: i for i, x in enumerate(perm)} and list(got) == list(perm), f"{perm}: {got}")


# ---- generators -----------------------------------------------------------------------------------------
def caveman(l, k):
    nodes = set(range(l * k))
    return nodes, {frozenset((c * k + i, c * k + j)) for c in range(l) for i in range(k) for j in range(i)}


def ladder(n):
    es = {frozenset((i, i + 1)) for i in range(n - 1)} | {frozenset((n + i, n + i + 1)) for i in range(n - 1)}
    return set(range(2 * n)), es | {frozenset((i, n + i)) for i in range(n)}


def barbell(m):
    es = {frozenset((i, j)) for i in range(m) for j in range(i)} | {frozenset((m + i, m + j)) for i in range(m) for j in range(i)}
    return set(range(2 * m)), es | {frozenset((m - 1, m))}


def complete(n):
    return set(range(n)), {frozenset((i, j)) for i in range(n) for j in range(i)}


def check_shape(ctx, g, want, what):
    ctx.check(type(g) is nx.Graph, what + " is not a graph")
    ctx.check(set(g.nodes) == want[0], lambda: f"{what}: nodes {list(g.nodes)}")
    ctx.check({frozenset(e) for e in g.edges} == want[1] and g.number_of_edges() == len(want[1]), lambda: f"{what}: edges {list(g.edges)}")


def weights(g):
    return [g.edges[e].get("weight") for e in g.edges]


def families(tier):
    top = 5 if tier == "quick" else 8
    for n in range(0, top):
        yield ["complete", n, 0]
        yield ["empty", n, 0]
        yield ["ladder", n, 0]
        if n >= 2:
            yield ["barbell", n, 0]
    for l in range(1, top):
        for k in range(2, top):
            yield ["caveman", l, k]


def spec(kind, a, b):
    if kind in ("complete", "empty"):
        return {"type_graph": "complete", "num_nodes": a} if kind == "complete" else {"type_graph": "erdos_renyi", "num_nodes": a, "probability": 0.0}
    if kind == "ladder":
        return {"type_graph": "ladder", "length_of_ladder": a, "num_nodes": 2 * a}
    if kind == "barbell":
        return {"type_graph": "barbell", "number_of_vertices_complete_graph": a, "num_nodes": 2 * a}
    return {"type_graph": "caveman", "number_of_cliques": a, "size_of_cliques": b, "num_nodes": a * b}


def direct(kind, a, b, *args, **kw):
    if kind in ("complete", "empty"):
        return zg.generate_random_graph_erdos_renyi(a, 1.0 if kind == "complete" else 0.0, *args, **kw)
    if kind == "caveman":
        return zg.generate_caveman_graph(a, b, *args, **kw)
    return (zg.generate_ladder_graph if kind == "ladder" else zg.generate_barbell_graph)(a, *args, **kw)


def gen_families(tier):
    yield from families(tier)


def step_families(ctx, case):
    kind, a, b = case
    ctx.state(tuple(case))
    want = {"complete": lambda: complete(a), "empty": lambda: (set(range(a)), set()), "ladder": lambda: ladder(a), "barbell": lambda: barbell(a), "caveman": lambda: caveman(a, b)}[kind]()
    n_edges = len(want[1])
    for _ in range(2):  # twice: the default sampler is shared between calls
        g = direct(kind, a, b)
        ctx.step()
        check_shape(ctx, g, want, f"{case}")
        ctx.check(weights(g) == [1.0] * n_edges, lambda: f"{case}: default weights {weights(g)}")
        ctx.check(weights(zg.generate_graph_from_specs(spec(kind, a, b))) == [1.0] * n_edges, lambda: f"{case}: default weights from the description")
    for sampler, vals in ((zg.constant_sampler(-2.5), [-2.5] * n_edges), (iter(range(n_edges)), list(range(n_edges))), (zg.constant_sampler(0), [0] * n_edges)):
        g = direct(kind, a, b, sampler)
        check_shape(ctx, g, want, f"{case}")
        ctx.eq(weights(g), vals, f"{case}: weights of the sampler")
    for seed in (None, 0, 1, 12345):
        random.seed(99)
        runs = []
        for k in range(2):
            if seed is not None:
                random.seed(k)
            runs.append(weights(direct(kind, a, b, weight_sampler=zg.uniform_sampler(2.0, 3.0), seed=seed)))
            ctx.check(all(2.0 <= w <= 3.0 for w in runs[-1]), f"{case}: uniform weights {runs[-1]}")
            runs.append(weights(direct(kind, a, b, zg.normal_sampler(5, 2), seed)))
            runs.append(weights(direct(kind, a, b, zg.choice_sampler([1, 4, 9]), seed)))
            ctx.check(all(w in (1, 4, 9) for w in runs[-1]), f"{case}: chosen weights {runs[-1]}")
            s = dict(spec(kind, a, b), random_weights=True, **({} if seed is None else {"seed": seed}))
            snap = dict(s)
            g = zg.generate_graph_from_specs(s)
            ctx.step(4)
            check_shape(ctx, g, want, f"{case} from {s}")
            ctx.check(s == snap, "the description was changed")
            runs.append(weights(g))
            ctx.check(all(0 <= w <= 1 for w in runs[-1]), f"{case}: random weights {runs[-1]}")
        if seed is not None:
            ctx.check(runs[:4] == runs[4:], f"{case}: seed {seed} gives different weights")
    s = dict(spec(kind, a, b), random_weights=False)
    ctx.eq(weights(zg.generate_graph_from_specs(s)), [1.0] * n_edges, f"{s}")
    ctx.raises(lambda: zg.generate_graph_from_specs(dict(s, type_graph="star")), "unknown type", NotImplementedError)
    for k in s:
        if k not in ("random_weights",):
            ctx.raises(lambda: zg.generate_graph_from_specs({q: v for q, v in s.items() if q != k}), f"description without {k}", KeyError)


POINTS = (0.0, 0.25, 0.5, 1 - 2 ** -40)


def gen_random(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for p in (0.0, 0.2, 0.25, 0.3, 0.75, 1.0, 1):
            if n < 4 or p in (0.25, 0.3, 1.0):
                for route in ("function", "spec"):
                    for w in ("none", "constant", "uniform", "choice", "normal"):
                        if route == "function" or w in ("none", "uniform"):
                            yield [n, p, route, w]


def step_random(ctx, case):
    n, p, route, w = case
    pairs = list(itertools.combinations(range(n), 2))
    many = len(pairs) > 3
    points = (0.0, 0.25, 1 - 2 ** -40) if many else POINTS
    seen = {"none": 0}

    def run(ch):
        with rng.closed(ch, points=points) as (g, py):
            log = []
            one = py._one

            def record(options):
                x = one(options)
                log.append(x)
                return x

            py._one = record
            if route == "spec":
                s = {"type_graph": "erdos_renyi", "num_nodes": n, "probability": p}
                if w == "uniform":
                    s["random_weights"] = True
                return zg.generate_graph_from_specs(s), log
            sampler = {"none": None, "constant": zg.constant_sampler(7.5), "uniform": zg.uniform_sampler(-1.0, 3.0), "choice": zg.choice_sampler([2, 3]), "normal": zg.normal_sampler(10.0, 2.0)}[w]
            return zg.generate_random_graph_erdos_renyi(n, p, *([] if sampler is None else [sampler])), log

    if many and w in ("uniform", "normal", "choice"):
        return
    for ch, (g, log) in ref.explore_choices(run, 60000):
        ctx.step()
        k = 0 if p >= 1 or p <= 0 else len(pairs)
        draws, rest = log[:k], log[k:]
        want = [e for e, x in zip(pairs, draws) if x < p] if k else (pairs if p >= 1 else [])
        ctx.state((n, p, w, tuple(draws)))
        ctx.check(sorted(g.nodes) == list(range(n)), f"nodes {list(g.nodes)} instead of {n}")
        ctx.check(sorted(tuple(sorted(e)) for e in g.edges) == want, lambda: f"{n} nodes, probability {p}, draws {draws}: {list(g.edges)}")
        got = weights(g)
        if w == "uniform":
            lo, hi = (0.0, 1.0) if route == "spec" else (-1.0, 3.0)
            ctx.check(got == [lo + x * (hi - lo) for x in rest], lambda: f"weights {got} for draws {rest}")
        elif w == "normal":
            ctx.check(got == [10.0 + 2.0 * x for x in rest], lambda: f"weights {got} for draws {rest}")
        elif w == "choice":
            ctx.check(all(x in (2, 3) for x in got), lambda: f"weights {got}")
            ctx.outcome(tuple(sorted(set(got))))
        else:
            ctx.check(got == [7.5 if w == "constant" else 1.0] * len(want) and not rest, lambda: f"weights {got}")


def gen_regular(tier):
    for n in range(0, 9 if tier == "quick" else 12):
        for d in range(0, 6):
            yield [n, d]


def step_regular(ctx, case):
    n, d = case
    ctx.state((n, d))
    s = {"type_graph": "regular", "num_nodes": n, "degree": d}
    if n * d % 2 or d >= n:
        ctx.raises(lambda: zg.generate_random_regular_graph(n, d), f"{d}-regular graph on {n} nodes")
        ctx.raises(lambda: zg.generate_graph_from_specs(s), f"{d}-regular graph on {n} nodes")
        return
    for seed in range(12 if not ctx.thorough else 100):
        runs = []
        for k in range(2):
            random.seed(k)
            runs.append(zg.generate_random_regular_graph(n, d, zg.uniform_sampler(), seed))
        runs += [zg.generate_random_regular_graph(num_nodes=n, degree=d, seed=seed), zg.generate_graph_from_specs(dict(s, seed=seed)), zg.generate_graph_from_specs(dict(s, seed=seed, random_weights=True))]
        for g in runs:
            ctx.step()
            ctx.check(g.number_of_nodes() == n and all(g.degree(i) == d for i in range(n)) and not list(nx.selfloop_edges(g)), lambda: f"{d}-regular graph on {n} nodes: {list(g.edges)}")
            ctx.check({frozenset(e) for e in g.edges} == {frozenset(e) for e in runs[0].edges}, f"seed {seed} gives different graphs")
        ctx.check(weights(runs[0]) == weights(runs[1]) == weights(runs[4]), f"seed {seed} gives different weights")
        ctx.check(weights(runs[2]) == weights(runs[3]) == [1.0] * (n * d // 2), "default weights")
        ctx.outcome(tuple(sorted(tuple(sorted(e)) for e in runs[0].edges)))
    for seed in range(4):
        a = zg.generate_random_graph_erdos_renyi(n, 0.5, zg.uniform_sampler(), seed)
        random.seed(1000)
        b = zg.generate_random_graph_erdos_renyi(n, 0.5, zg.uniform_sampler(), seed)
        c = zg.generate_graph_from_specs({"type_graph": "erdos_renyi", "num_nodes": n, "probability": 0.5, "random_weights": True, "seed": seed})
        ctx.check(norm(a) == norm(b) == norm(c), f"seed {seed} gives different graphs on {n} nodes")


# ---- larger graphs, generated, stored and read back ----------------------------------------
def gen_large(tier):
    sizes = (11, 24) if tier == "quick" else (11, 24, 60, 101)
    for n in sizes:
        for kind in ("complete", "empty", "ladder", "barbell"):
            if n <= 24 or kind in ("empty", "ladder"):
                yield [kind, n, 0]
        for k in (2, 3, 5):
            yield ["caveman", n, k]
        yield ["caveman", 2, n]
    for n in sizes:
        for d in (2, 3, 4, 7):
            if n * d % 2 == 0:
                yield ["regular", n, d]
        for p in (1, 5, 9):
            yield ["random", n, p]


def step_large(ctx, case):
    kind, a, b = case
    ctx.state(tuple(case))
    if kind == "regular":
        make = lambda *args: zg.generate_random_regular_graph(a, b, *args)  # noqa: E731
    elif kind == "random":
        make = lambda *args: zg.generate_random_graph_erdos_renyi(a, b / 10, *args)  # noqa: E731
    else:
        make = lambda *args: direct(kind, a, b, *args)  # noqa: E731
        want = {"complete": lambda: complete(a), "empty": lambda: (set(range(a)), set()), "ladder": lambda: ladder(a), "barbell": lambda: barbell(a), "caveman": lambda: caveman(a, b)}[kind]()
    for seed in (0, 3):
        random.seed(5)
        g = make(zg.uniform_sampler(-2.0, 1.0), seed)
        random.seed(6)
        h = make(zg.uniform_sampler(-2.0, 1.0), seed)
        ctx.step(2)
        if kind == "regular":
            ctx.check(sorted(g.nodes) == list(range(a)) and all(g.degree(i) == b for i in range(a)) and not list(nx.selfloop_edges(g)), lambda: f"{case}: {list(g.edges)}")
        elif kind == "random":
            ctx.check(sorted(g.nodes) == list(range(a)) and not list(nx.selfloop_edges(g)), lambda: f"{case}: {list(g.edges)}")
        else:
            check_shape(ctx, g, want, f"{case}")
        ctx.check(norm(g) == norm(h), f"{case}: seed {seed} gives different graphs")
        ctx.check(all(-2.0 <= w <= 1.0 for w in weights(g)), f"{case}: uniform weights")
        if g.number_of_edges() > 3:
            ctx.check(len(set(weights(g))) == g.number_of_edges(), f"{case}: weights repeat")
        path = os.path.join(ctx.scratch, "large.json")
        zg.save_graph(g, path)
        back = zg.load_graph(path)
        ctx.check(norm(back) == norm(g) and zg.compare_graphs(g, back) and zg.compare_graphs(back, g), lambda: f"{case}: graph read back")
        ctx.eq(zg.generate_graph_node_dict(back), {x: i for i, x in enumerate(g.nodes)}, f"{case}: numbers of nodes")
        # one edge more, less or moved
        es = list(g.edges)
        other = nx.Graph()
        other.add_nodes_from(g.nodes)
        if len(es) > 2:
            for drop in (0, len(es) // 2):
                other = g.copy()
                other.remove_edge(*es[drop])
                ctx.check(not zg.compare_graphs(g, other), lambda: f"{case}: the graph without edge {es[drop]} compares equal")
        names = {x: f"v{x}" for x in g.nodes}
        ctx.check(a == 0 or not zg.compare_graphs(g, nx.relabel_nodes(g, names)), f"{case}: renamed nodes compare equal")
    ws = iter(range(10 ** 6))
    g = make(ws)
    ctx.eq(sorted(weights(g)), list(range(g.number_of_edges())), f"{case}: weights of the sampler")
    ctx.check(next(ws) == g.number_of_edges(), f"{case}: samples drawn")


FRESH = zqfresh.Fresh(zqfreshlist.C34)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("files", gen_io, step_io, "all graphs on up to 4 nodes (directed and multigraphs up to 3) with 6 kinds of names, weights, attributes, by file name and file object"),
    Space("compare", gen_compare, step_compare, "all pairs of graphs on up to 3 nodes with loops and on 4 nodes, directed ones on 2 nodes"),
    Space("nodes", gen_nodes, step_nodes, "all orders of up to 4 nodes with 6 kinds of names"),
    Space("families", gen_families, step_families, "all families up to size 4 (7), samplers, seeds, descriptions with and without each entry"),
    Space("random", gen_random, step_random, "all answers of the random source (4 points per draw) for up to 3 (4) nodes, 7 probabilities, 5 samplers"),
    Space("regular", gen_regular, step_regular, "all sizes up to 8 (11) and degrees up to 5, seeds 0-11 (0-99)"),
    Space("large", gen_large, step_large, "all families, regular and random graphs of sizes 11 and 24 (thorough up to 101), two seeds, stored and read back, compared with graphs that differ in one edge"),
]
