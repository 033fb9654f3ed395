"""The random feasible start."""
from .c_fit import *         # noqa


def counts(lab, n, c):
    return L.Card(L.Region(lab, n, c))


@register
class Distribute(Contract):
    """every component gets between one and all of its areas as regions"""
    target = U + 'distribute_regions_among_components'
    props = ('C06', 'C01', 'C02')
    ins_visited = True

    def types_ok(self, ip, a):
        return is_labels(a.component_labels) and is_int(a.n_regions)

    def setup(self, ip):
        n = fresh_int(ip.cx, 'n', 0)
        return dict(component_labels=fresh_labels(ip.cx, n, 'comp_labels'),
                    n_regions=ip.cx.fresh('n_regions', I))

    def pre(self, ip, a):
        lab = a.component_labels
        K = L.Card(L.LabelSet(lab.a, lab.n))
        yield 'at least one area', lab.n > 0
        yield 'components are numbered', L.LabelSet(lab.a, lab.n) == \
            L.AllSet(K)
        yield 'not more regions than areas', to_int(a.n_regions) <= lab.n
        yield 'a region for each component', K <= to_int(a.n_regions)

    def result(self, ip, a, o):
        cx = ip.cx
        return DictV(cx, keys=cx.fresh('comps', L.SetI),
                     vals=cx.fresh('n_regions_of', L.IA), kc=IntC(),
                     vc=IntC())

    def old(self, ip, a):
        if ip.active is self:
            # lemma region_all: one label only
            lab, n = a.component_labels.a, a.component_labels.n
            r, i = qv('r', 'i')
            ip.cx.assume(forall(r, Implies(
                forall(i, Implies(And(0 <= i, i < n), lab[i] == r), lab[i]),
                L.Region(lab, n, r) == L.AllSet(n)), L.Region(lab, n, r)))
        return {}

    def table(self, ip, d):
        if not isinstance(d, DictV):
            return None
        if d.pyd is not None:
            keys, vals = ip.lib.empty(I), z3.K(I, z3.IntVal(0))
            for k, v in d.pyd.items():
                keys = L.Ins(keys, to_int(k))
                vals = z3.Store(vals, to_int(k), to_int(v))
            return keys, vals
        return d.keys, d.vals

    def post(self, ip, a, o, res):
        lab, n = a.component_labels.a, a.component_labels.n
        t = self.table(ip, res)
        if t is None:
            yield 'returns a dict', False
            return
        keys, vals = t
        c = qv('c')
        yield 'one entry per component', keys == L.LabelSet(lab, n)
        yield 'between one region and one per area', forall(c, Implies(
            keys[c], And(1 <= vals[c], vals[c] <= counts(lab, n, c))),
            keys[c], vals[c])
        yield 'n_regions in total', L.SumI(keys, vals) == to_int(a.n_regions)

    def invariants(self, ip, gh):
        a = self.a
        lab, n = a.component_labels.a, a.component_labels.n
        p = to_int(a.n_regions)
        LS = L.LabelSet(lab, n)
        c = qv('c')
        ev = [(nm, v) for nm, g, v in env_vars(ip) if z3.is_true(g)]
        dicts = [(nm, self.table(ip, v)) for nm, v in ev
                 if isinstance(v, DictV) and (v.pyd is not None or (
                     v.kc == IntC() and v.vc == IntC()))]
        lists = [(nm, v) for nm, v in ev if isinstance(v, Lst) and
                 v.items is None and v.codec == IntC()]
        ints = [(nm, v) for nm, v in ev if is_int(v)]
        for nm, (keys, vals) in dicts:
            if gh.visited is not None and gh.visited.sort() == L.SetI:
                yield (nm, 'keys visited'), keys == gh.visited
            yield (nm, 'keys are components'), forall(
                c, Implies(keys[c], LS[c]), keys[c])
            yield (nm, 'all components'), keys == LS
            yield (nm, 'finite'), L.Fin(keys)
            yield (nm, 'at least one'), forall(
                c, Implies(keys[c], vals[c] >= 1), keys[c])
            for ln, l in lists:
                bag = ip.lib.bag_of(l)[0]
                yield (nm, ln, 'areas left'), forall(c, And(
                    Implies(keys[c], vals[c] + bag[c] ==
                            counts(lab, n, c)),
                    Implies(Not(keys[c]), bag[c] == counts(lab, n, c))),
                    bag[c], keys[c])
            for xn, x in ints:
                yield (nm, xn, 'total'), L.SumI(keys, vals) + x == p
        for xn, x in ints:
            for ln, l in lists:
                yield (ln, xn, 'enough areas'), l.n + p == n + x
            if gh.visited is not None and gh.visited.sort() == L.SetI:
                yield (xn, 'counts'), x == p - L.Card(gh.visited)
            yield (xn, 'not negative'), x >= 0
        if gh.visited is not None and gh.visited.sort() == L.SetI:
            yield 'visited is finite', L.Fin(gh.visited)


@register
class Divide(Contract):
    """a random division of a connected graph into connected regions"""
    target = U + '_randomly_divide_connected_graph'
    props = ('C06', 'C01', 'C02')

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_int(a.n_regions)

    def setup(self, ip):
        return dict(adj=fresh_graph(ip.cx),
                    n_regions=ip.cx.fresh('n_regions', I))

    def pre(self, ip, a):
        for x in graph_pre(a.adj):
            yield x
        yield 'connected graph', L.Conn(a.adj.g, L.AllSet(a.adj.n))

    def raises(self, ip, a):
        p = to_int(a.n_regions)
        return {'ValueError': Or(p <= 0, p > a.adj.n)}

    def result(self, ip, a, o):
        return Arr(ip.cx, a.adj.n, ip.cx.fresh('division', L.IA))

    def post(self, ip, a, o, res):
        n = a.adj.n
        if not is_labels(res):
            yield 'returns labels', False
            return
        yield 'one label per area', res.n == n
        yield 'labels 0 to n_regions - 1', L.LabelSet(res.a, n) == \
            L.AllSet(to_int(a.n_regions))
        yield 'every region connected', feas(a.adj.g, res.a, n)

    def invariants(self, ip, gh):
        G, n = self.a.adj.g, self.a.adj.n
        S = z3.Const('S?', L.SetI)
        graphs = []
        for f in ip.cx.frames[1:]:
            for nm, v in f.env.items():
                if isinstance(v, GraphV) and v is not self.a.adj:
                    graphs.append((nm, v))
        for nm, v in graphs:
            g = v.g
            yield (nm, 'size'), v.n == n
            yield (nm, 'forest'), L.Forest(g, n)
            yield (nm, 'part of the graph'), forall(S, Implies(
                L.Conn(g, S), L.Conn(G, S)), L.Conn(g, S))
            if gh.k is not None:
                yield (nm, 'links left'), L.NLinks(g, n) == n - 1 - gh.k
        if gh.k is None:
            return
        for f in ip.cx.frames[1:]:
            for nm, v in f.env.items():
                if isinstance(v, OptV):
                    for c, x in v.guarded():
                        if isinstance(x, tuple) and len(x) == 2 and \
                                all(is_int(y) for y in x):
                            i, j = [to_int(y) for y in x]
                            for gn, g in graphs:
                                yield (nm, gn, 'link'), Implies(c, And(
                                    0 <= i, i < n, 0 <= j, j < n,
                                    g.g[i][j]))
                            yield (nm, 'chosen'), Implies(gh.k > 0, c)
                elif is_num(v):
                    yield (nm, 'starts at infinity'), Implies(
                        gh.k == 0, to_real(v) == L.INF)


@register
class GenerateInitialSol(Partial):
    """a feasible start with labels 0 .. n_regions - 1"""
    target = U + 'generate_initial_sol'
    props = ('C06', 'C01', 'C02')
    ins_visited = True
    whole_subgraph = True

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_int(a.n_regions)

    def setup(self, ip):
        G = fresh_graph(ip.cx)
        self.ghost_state(ip)
        return dict(adj=G, n_regions=ip.cx.fresh('n_regions', I))

    def bad(self, a):
        n, p = a.adj.n, to_int(a.n_regions)
        return Or(n == 0, n < p, n_comps(a.adj) > p)

    def pre(self, ip, a):
        return graph_pre(a.adj)

    def raises(self, ip, a):
        # the body of a generator runs at the first iteration
        return {'ValueError': self.bad(a)} if ip.active is self else {}

    def at_yield(self, ip, y, C, S, n, G, used):
        r = qv('r')
        yield 'new labels', forall(r, Implies(
            And(S[r], r != -1), Not(used[r])), S[r])
        yield 'connected regions', forall(r, Implies(
            And(S[r], r != -1), L.Conn(G, L.Region(y, n, r))), S[r])

    def post(self, ip, a, o, res):
        if ip.active is not self:
            return
        for x in Partial.post(self, ip, a, o, res):
            yield x
        r = qv('r')
        used = self.used.s
        yield 'labels 0 to n_regions - 1', forall(r, used[r] == And(
            0 <= r, r < to_int(a.n_regions)), used[r])

    def invariants(self, ip, gh):
        for x in Partial.invariants(self, ip, gh):
            yield x
        used = self.used.s
        r = qv('r')
        if gh.visited is None or gh.visited.sort() != L.SetI:
            return
        yield 'visited is finite', L.Fin(gh.visited)
        ev = [(nm, v) for nm, g, v in env_vars(ip) if z3.is_true(g)]
        for xn, x in ev:
            if not is_int(x):
                continue
            yield (xn, 'labels used'), forall(r, used[r] == And(
                0 <= r, r < to_int(x)), used[r])
            yield (xn, '>= 0'), to_int(x) >= 0
            for dn, d in ev:
                if isinstance(d, DictV) and d.pyd is None and \
                        d.kc == IntC() and d.vc == IntC():
                    yield (xn, dn, 'total'), to_int(x) == L.SumI(
                        gh.visited, d.vals)

    def result(self, ip, a, o):
        if ip.active is self:
            return None
        cx = ip.cx
        X = cx.fresh('start', L.IA)
        n, p = a.adj.n, to_int(a.n_regions)
        i = qv('i')
        facts = [L.LabelSet(X, n) == L.AllSet(p), feas(a.adj.g, X, n),
                 forall(i, Implies(And(0 <= i, i < n),
                                   And(0 <= X[i], X[i] < p)), X[i])]
        return per_component(ip, a.adj, X, [(a.adj, 'g', a.adj.g)],
                             [('ValueError', self.bad(a), facts)])
