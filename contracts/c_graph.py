"""csgraph_utils and the feasibility checks of util."""
from .base import *           # noqa

U = 'region.util:'
C = 'region.csgraph_utils:'


@register
class IsConnected(Contract):
    """True exactly when the whole graph is connected (and not empty)"""
    target = C + 'is_connected'
    props = ('C07', 'C01', 'C02', 'C08')

    def types_ok(self, ip, a):
        return is_graph(a.adj)

    def setup(self, ip):
        return dict(adj=fresh_graph(ip.cx))

    def result(self, ip, a, o):
        return ip.cx.fresh('connected', B)

    def post(self, ip, a, o, res):
        yield 'result iff connected', \
            to_bool(res) == L.Conn(a.adj.g, L.AllSet(a.adj.n))


@register
class Neighbors(Contract):
    """exactly the neighbors of the area, each once"""
    target = C + 'neighbors'
    props = ('C07', 'C01', 'C02')

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_int(a.area)

    def setup(self, ip):
        cx = ip.cx
        return dict(adj=fresh_graph(cx, symmetric=False),
                    area=cx.fresh('area', I))

    def pre(self, ip, a):
        yield 'area is a row', And(0 <= to_int(a.area),
                                   to_int(a.area) < a.adj.n)

    def result(self, ip, a, o):
        return ip.lib.idx_array(a.adj.g[to_int(a.area)])

    def post(self, ip, a, o, res):
        if self is not ip.active:
            return
        k, x, k2 = qv('k', 'x', 'k2')
        row = a.adj.g[to_int(a.area)]
        yield 'only neighbors', forall(k, Implies(
            And(0 <= k, k < res.n), row[res.a[k]]), res.a[k])
        yield 'every neighbor', forall(x, Implies(
            row[x], Exists([k], And(0 <= k, k < res.n, res.a[k] == x))))
        yield 'each once', forall([k, k2], Implies(
            And(0 <= k, k < k2, k2 < res.n), res.a[k] != res.a[k2]))


@register
class SubAdj(Contract):
    """the subgraph induced by nodes without wo_nodes"""
    target = C + 'sub_adj_matrix'
    props = ('C07', 'C01', 'C02', 'C08')
    cases = ('none', 'int', 'array')

    def types_ok(self, ip, a):
        return is_graph(a.adj) and isinstance(a.nodes, Arr) and \
            'idx' in a.nodes.meta and (
                a.wo_nodes is None or is_int(a.wo_nodes) or
                is_labels(a.wo_nodes))

    def setup(self, ip):
        cx = ip.cx
        G = fresh_graph(cx, symmetric=False)
        S = cx.fresh('nodeset', L.SetI)
        nodes = ip.lib.idx_array(S, 'nodes')
        wo = {'none': lambda: None, 'int': lambda: cx.fresh('wo', I),
              'array': lambda: fresh_labels(cx, fresh_int(cx, 'm', 0), 'wo')
              }[self.case]()
        return dict(adj=G, nodes=nodes, wo_nodes=wo)

    def pre(self, ip, a):
        S = a.nodes.meta['idx'][0]
        x = qv('x')
        yield 'nodes are rows', forall(x, Implies(
            S[x], And(0 <= x, x < a.adj.n)), S[x])

    def kept(self, ip, a):
        S = a.nodes.meta['idx'][0]
        if a.wo_nodes is None:
            return S
        if is_int(a.wo_nodes):
            return L.Del(S, to_int(a.wo_nodes))
        W = elems_set(ip, a.wo_nodes)
        return ip.cx.define_set('kept', I, lambda x: And(S[x], Not(W[x])))

    def result(self, ip, a, o):
        cx = ip.cx
        if getattr(ip.active, 'whole_subgraph', False):
            # the caller needs the edges, too
            return ip.lib.subgraph(a.adj, ip.lib.idx_array(self.kept(ip, a)))
        n = fresh_int(cx, 'sub.n', 0)
        return GraphV(cx, n, cx.fresh('sub', L.GS))

    def post(self, ip, a, o, res):
        S = self.kept(ip, a)
        x = qv('x')
        if self is ip.active:
            idx = res.meta['sub'][1] if 'sub' in res.meta else None
            yield 'keeps exactly nodes without wo_nodes', \
                forall(x, idx.meta['idx'][0][x] == S[x]) \
                if idx is not None else False
            i, j = qv('i', 'j')
            yield 'edges of the induced subgraph', forall(
                [i, j], Implies(And(0 <= i, i < res.n, 0 <= j, j < res.n),
                                res.g[i][j] == a.adj.g[idx.a[i]][idx.a[j]])) \
                if idx is not None else False
        yield 'connected iff the kept nodes are', \
            L.Conn(res.g, L.AllSet(res.n)) == L.Conn(a.adj.g, S)
        yield 'size', res.n == L.Card(S)


@register
class Count(Contract):
    """number of occurrences"""
    target = U + 'count'
    props = ('C17', 'C09', 'C01', 'C02')
    cases = ('array', 'snap')

    def types_ok(self, ip, a):
        return (is_labels(a.arr) or isinstance(a.arr, SnapV)) and is_int(a.el)

    def setup(self, ip):
        cx = ip.cx
        n = fresh_int(cx, 'n', 0)
        arr = fresh_labels(cx, n, 'arr')
        if self.case == 'snap':
            arr = SnapV(n, arr.a)
        return dict(arr=arr, el=cx.fresh('el', I))

    def result(self, ip, a, o):
        return ip.cx.fresh('count', I)

    def post(self, ip, a, o, res):
        yield 'number of occurrences', to_int(res) == L.Card(
            L.Region(a.arr.a, a.arr.n, to_int(a.el)))


@register
class MakeMove(Contract):
    """labels changes at the moved area only"""
    target = U + 'make_move'
    props = ('C01', 'C02', 'C05')

    def types_ok(self, ip, a):
        return is_labels(a.labels) and is_int(a.moving_area) and \
            is_int(a.new_label)

    def setup(self, ip):
        cx = ip.cx
        n = fresh_int(cx, 'n', 0)
        return dict(moving_area=cx.fresh('area', I),
                    new_label=cx.fresh('new', I), labels=fresh_labels(cx, n))

    def pre(self, ip, a):
        yield 'area exists', And(0 <= to_int(a.moving_area),
                                 to_int(a.moving_area) < a.labels.n)

    def old(self, ip, a):
        return dict(lab=a.labels.a)

    def frame(self, ip, a):
        return [a.labels]

    def modify(self, ip, a, o):
        ip.cx.wr(a.labels, 'a', z3.Store(o['lab'], to_int(a.moving_area),
                                         to_int(a.new_label)))
        ip.cx.wr(a.labels, 'meta', {})

    def result(self, ip, a, o):
        return None

    def post(self, ip, a, o, res):
        yield 'only that label changed', a.labels.a == z3.Store(
            o['lab'], to_int(a.moving_area), to_int(a.new_label))


class FeasibleBase(Contract):
    cases = ('n_regions given', 'n_regions None')

    def types_ok(self, ip, a):
        return is_labels(a.solution) and is_graph(a.adj)

    def setup(self, ip):
        cx = ip.cx
        G = fresh_graph(cx)
        d = dict(solution=fresh_labels(cx, G.n, 'solution'), adj=G)
        d['n_regions'] = cx.fresh('n_regions', I) \
            if self.case == 'n_regions given' else None
        return d

    def pre(self, ip, a):
        yield 'one label per area', a.solution.n == a.adj.n

    def count_bad(self, a):
        if a.n_regions is None:
            return z3.BoolVal(False)
        return L.Card(L.LabelSet(a.solution.a, a.solution.n)) != \
            to_int(a.n_regions)


@register
class AssertFeasible(FeasibleBase):
    """raises ValueError exactly for infeasible solutions"""
    target = U + 'assert_feasible'
    props = ('C07', 'C01', 'C02', 'C03')

    def raises(self, ip, a):
        return {'ValueError': Or(self.count_bad(a), Not(
            feas(a.adj.g, a.solution.a, a.solution.n)))}

    def result(self, ip, a, o):
        return None


@register
class BooleanAssertFeasible(FeasibleBase):
    """True exactly for contiguous solutions"""
    target = U + 'boolean_assert_feasible'
    props = ('C07', 'C02')

    def raises(self, ip, a):
        return {'ValueError': self.count_bad(a)}

    def result(self, ip, a, o):
        return ip.cx.fresh('feasible', B)

    def post(self, ip, a, o, res):
        yield 'result iff every region is connected', to_bool(res) == \
            feas(a.adj.g, a.solution.a, a.solution.n)
