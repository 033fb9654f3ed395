"""Shared vocabulary of the contracts."""
import z3
from pyded import logic as L
from pyded.core import *           # noqa
from pyded.contract import Contract, Args

I, R, B = L.I, L.R, L.B
And, Or, Not, Implies, If, ForAll, Exists = \
    z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists

CONTRACTS = []


def register(cls):
    CONTRACTS.append(cls)
    return cls


def qv(*names):
    return z3.Ints(' '.join(n + '?' for n in names)) if len(names) > 1 else \
        z3.Int(names[0] + '?')


def forall(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    ps = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    return z3.ForAll(list(vs), body, patterns=ps) if ps else \
        z3.ForAll(list(vs), body)


def fresh_int(cx, name, lo=None):
    v = cx.fresh(name, I)
    if lo is not None:
        cx.assume(v >= lo)
    return v


def fresh_graph(cx, name='adj', n=None, symmetric=True):
    if n is None:
        n = fresh_int(cx, name + '.n', 0)
    g = cx.fresh(name, L.GS)
    i, j = qv('i', 'j')
    cx.assume(forall([i, j], Implies(g[i][j], And(
        0 <= i, i < n, 0 <= j, j < n)), g[i][j]))
    if symmetric:
        cx.assume(forall([i, j], g[i][j] == g[j][i], g[i][j]))
    return GraphV(cx, n, g)


def fresh_labels(cx, n, name='labels'):
    return Arr(cx, n, cx.fresh(name, L.IA))


def feas(G, lab, n):
    """every region of the labelling is a connected subgraph"""
    r = qv('r')
    return forall(r, Implies(L.LabelSet(lab, n)[r],
                             L.Conn(G, L.Region(lab, n, r))),
                  L.LabelSet(lab, n)[r], L.Region(lab, n, r))


def is_labels(v):
    return isinstance(v, Arr) and v.elem == I


def is_graph(v):
    return isinstance(v, GraphV)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or \
        z3.is_expr(v) and v.sort() == I


def elems_set(ip, arr):
    return ip.lib.elems(arr)
