"""Shared parts of the run-time contract checker: case generation, independent
oracles (plain Python, none of the code under test), and the Violation type.

Runs under /opt/venv/bin/python with /repo first on sys.path."""
import hashlib
import itertools
import json
import random as _random

import numpy as np
from scipy.sparse import csr_matrix


class Violation(Exception):
    """A property was seen to fail on the real code."""


class Skip(Exception):
    """The case says nothing (outside the precondition, or not runnable)."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


# ---------------------------------------------------------------- oracles
def nbrs(n, edges):
    out = {i: set() for i in range(n)}
    for a, b in edges:
        out[a].add(b)
        out[b].add(a)
    return out


def connected(nb, nodes):
    nodes = set(nodes)
    if not nodes:
        return False
    start = next(iter(nodes))
    seen, todo = {start}, [start]
    while todo:
        x = todo.pop()
        for y in nb[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                todo.append(y)
    return seen == nodes


def components(nb):
    left, out = set(nb), []
    while left:
        start = min(left)
        seen, todo = {start}, [start]
        while todo:
            x = todo.pop()
            for y in nb[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out.append(seen)
        left -= seen
    return out


def regions_of(labels):
    out = {}
    for i, lab in enumerate(labels):
        out.setdefault(float(lab), set()).add(i)
    return out


def feasible(labels, nb, p=None):
    """None if feasible, else the reason."""
    if len(labels) != len(nb):
        return "labels has length {} for {} areas".format(len(labels), len(nb))
    regs = regions_of(labels)
    if p is not None and len(regs) != p:
        return "{} distinct labels instead of {}".format(len(regs), p)
    for lab, reg in regs.items():
        if lab != lab or lab < 0:
            return "area(s) {} carry the label {}".format(sorted(reg), lab)
        if not connected(nb, reg):
            return "region {} = {} is not connected".format(lab, sorted(reg))
    return None


def dist(metric, a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if metric in ("manhattan", "cityblock", "l1"):
        return float(np.abs(a - b).sum())
    if metric in ("euclidean", "l2"):
        return float(np.sqrt(((a - b) ** 2).sum()))
    if metric == "custom":          # max-norm: a metric sklearn does not have
        return float(np.abs(a - b).max())
    raise KeyError(metric)


def custom_metric(X, Y=None):
    X = np.asarray(X, float)
    Y = X if Y is None else np.asarray(Y, float)
    return np.abs(X[:, None, :] - Y[None, :, :]).max(axis=2)


def metric_arg(name):
    return custom_metric if name == "custom" else name


def pair_obj(labels, attr, metric):
    return sum(dist(metric, attr[i], attr[j])
               for i, j in itertools.combinations(range(len(labels)), 2)
               if labels[i] == labels[j])


REDUCTIONS = {"sum": np.sum, "max": np.max, "mean": np.mean,
              "median": np.median}
CENTERS = {"mean": np.mean, "median": np.median, "min": np.min}


def center_obj(labels, attr, metric, center, reduction):
    red = {"sum": sum, "max": max, "mean": lambda v: sum(v) / len(v),
           "median": lambda v: float(np.median(list(v)))}[reduction]
    cen = {"mean": lambda c: sum(c) / len(c),
           "median": lambda c: float(np.median(list(c))),
           "min": min}[center]
    parts = []
    for reg in regions_of(labels).values():
        rows = [np.asarray(attr[i], float).ravel() for i in sorted(reg)]
        mid = [cen([r[c] for r in rows]) for c in range(len(rows[0]))]
        parts.append(red([dist(metric, r, mid) for r in rows]))
    return red(parts)


def scalar(x):
    arr = np.asarray(x, float).ravel()
    need(arr.size == 1, "expected one number, got {!r}", x)
    return float(arr[0])


def close(a, b, tol=1e-6):
    a, b = float(a), float(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------ generation
def grid_edges(r, c):
    out = []
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                out.append((i * c + j, i * c + j + 1))
            if i + 1 < r:
                out.append((i * c + j, (i + 1) * c + j))
    return out


def rand_connected(rng, n, extra=None):
    """A random connected graph: a random tree plus some extra edges."""
    edges = set()
    style = rng.choice(["uniform", "path", "star", "near"])
    for v in range(1, n):
        if style == "path":
            u = v - 1
        elif style == "star":
            u = 0
        elif style == "near":
            u = max(0, v - 1 - rng.randrange(3))
        else:
            u = rng.randrange(v)
        edges.add((u, v))
    if extra is None:
        extra = rng.choice([0, 0, 1, 2, n // 2, n])
    for _ in range(extra):
        if n > 1:
            a, b = rng.sample(range(n), 2)
            edges.add((min(a, b), max(a, b)))
    return sorted(edges)


def permute(rng, n, edges):
    perm = list(range(n))
    rng.shuffle(perm)
    return sorted(tuple(sorted((perm[a], perm[b]))) for a, b in edges)


def rand_graph(rng, nmax=9, connected_only=False, nmin=1):
    """(n, edges): connected or a disjoint union, nodes interleaved."""
    kind = rng.random()
    if kind < 0.15 and nmax >= 6:
        r = rng.choice([2, 3])
        c = max(2, min(nmax // r, rng.choice([2, 3, 4])))
        n, edges = r * c, grid_edges(r, c)
    else:
        n = rng.randint(nmin, nmax)
        edges = rand_connected(rng, n)
    if not connected_only and n < nmax and rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            if n >= nmax:
                break
            m = rng.randint(1, min(4, nmax - n))
            sub = rand_connected(rng, m)
            edges = edges + [(a + n, b + n) for a, b in sub]
            n += m
    if rng.random() < 0.7:
        edges = permute(rng, n, edges)
    return n, [tuple(e) for e in edges]


def rand_attr(rng, n, cols=None, style=None):
    cols = cols or rng.choice([1, 1, 1, 2, 3])
    style = style or rng.choice(["small", "const", "float", "big", "wide", "distinct"])
    if style == "distinct":
        vals = list(range(n * cols))
        rng.shuffle(vals)
        return [vals[i * cols:(i + 1) * cols] for i in range(n)]
    draw = {
        "small": lambda: rng.randint(0, 3),
        "const": lambda: 5,
        "float": lambda: round(rng.uniform(-10, 10), 3),
        "big": lambda: rng.randint(-1000, 1000),
        "wide": lambda: rng.choice([0, 1, 1000]),
    }[style]
    return [[draw() for _ in range(cols)] for _ in range(n)]


def rand_partition(rng, n, edges, p):
    """A random feasible labelling with p regions (p >= number of comps), grown
    from random seeds; label values are a random injection into 0..2n."""
    nb = nbrs(n, edges)
    comps = components(nb)
    if not len(comps) <= p <= n:
        raise Skip("p")
    counts = [1] * len(comps)
    left = p - len(comps)
    while left:
        k = rng.randrange(len(comps))
        if counts[k] < len(comps[k]):
            counts[k] += 1
            left -= 1
    labels = [None] * n
    nxt = 0
    for comp, cnt in zip(comps, counts):
        seeds = rng.sample(sorted(comp), cnt)
        for s in seeds:
            labels[s] = nxt
            nxt += 1
        todo = set(comp) - set(seeds)
        while todo:
            front = [(a, b) for a in sorted(todo) for b in sorted(nb[a])
                     if labels[b] is not None]
            a, b = rng.choice(front)
            labels[a] = labels[b]
            todo.discard(a)
    names = list(range(p)) if rng.random() < 0.6 else rng.sample(range(2 * n + 2), p)
    if rng.random() < 0.3:
        rng.shuffle(names)
    return [names[x] for x in labels]


def rand_p(rng, n, edges):
    k = len(components(nbrs(n, edges)))
    lo = k
    r = rng.random()
    if r < 0.1:
        return lo
    if r < 0.2:
        return n
    return rng.randint(lo, max(lo, min(n, lo + 3)))


_ATLAS = None


def atlas():
    """All graphs with 1..5 nodes up to isomorphism (52 graphs)."""
    global _ATLAS
    if _ATLAS is None:
        import networkx as nx
        _ATLAS = []
        for g in nx.graph_atlas_g():
            n = g.number_of_nodes()
            if 1 <= n <= 5:
                _ATLAS.append((n, sorted(tuple(sorted(e)) for e in g.edges())))
    return _ATLAS


def pick_graph(rng, i, nmax=9, connected_only=False, nmin=1):
    """Case i: walk through all graphs of at most 5 nodes first, then random."""
    at = [g for g in atlas() if g[0] >= nmin and g[0] <= nmax and
          (not connected_only or len(components(nbrs(*g))) == 1)]
    if i % 2 == 0 and (i // 2) < 3 * len(at):
        n, edges = at[(i // 2) % len(at)]
        if (i // 2) >= len(at):
            edges = permute(rng, n, edges)
        return n, edges
    return rand_graph(rng, nmax, connected_only, nmin)


def adj_of(n, edges, dtype=float):
    rows = [a for a, b in edges] + [b for a, b in edges]
    cols = [b for a, b in edges] + [a for a, b in edges]
    return csr_matrix((np.ones(len(rows), dtype=dtype), (rows, cols)),
                      shape=(n, n))


def attr_arr(attr, one_d=False, dtype=float):
    a = np.array(attr, dtype=dtype)
    if one_d and a.shape[1] == 1:
        return a[:, 0].copy()
    return a


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()
                        ).hexdigest()[:16]


def all_partitions(n):
    """All set partitions of range(n) as label lists (restricted growth)."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield list(prefix)
            return
        for v in range(m + 1):
            prefix.append(v)
            yield from rec(prefix, max(m, v + 1))
            prefix.pop()
    yield from rec([], 0)


def seed_all(s):
    _random.seed(s)
    np.random.seed(s % (2 ** 32))
