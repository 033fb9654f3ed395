"""The fit of AZP and its tabu variants: components, start, result."""
from .c_azp import *         # noqa
from pyded.lib import GenV
import ast

U = 'region.util:'


def per_component(ip, adj, X, guard, raises=(), facts=()):
    """labels X of one component after the other, -1 outside it

    pos numbers the components in the order of the generator."""
    cx = ip.cx
    K = cx.fresh('n_comps', I)
    pos = cx.fresh('pos', L.IA)
    n, G = adj.n, adj.g
    i, j, k = qv('i', 'j', 'k')
    fs = list(facts) + [
        K >= 0,
        forall(i, Implies(And(0 <= i, i < n), And(0 <= pos[i], pos[i] < K)),
               pos[i]),
        forall([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, G[i][j]),
                               pos[i] == pos[j]), G[i][j]),
        forall(k, Implies(And(0 <= k, k < K), L.LabelSet(pos, n)[k]),
               L.LabelSet(pos, n)[k])]
    # a connected region lies in one component
    ok = feas(G, X, n)
    fs.append(Implies(ok, forall(i, Implies(
        And(0 <= i, i < n), pos[L.lab_w(X, n, X[i])] == pos[i]), X[i])))

    def get(k):
        y = cx.define_array('comp', I, I, lambda i: If(
            And(0 <= i, i < n, pos[i] == k), X[i], z3.IntVal(-1)))
        arr = Arr(cx, n, y)
        # the component is not empty, and contains regions of X as a whole
        r = qv('r')
        w = cx.fresh('area', I)
        cx.assume(0 <= w, w < n, pos[w] == k)
        cx.assume(Implies(ok, forall(r, Implies(
            And(r != -1, L.LabelSet(X, n)[r], pos[L.lab_w(X, n, r)] == k),
            L.Region(y, n, r) == L.Region(X, n, r)), L.Region(y, n, r))))
        return arr
    if raises:
        raises = [(e, c, fs + list(f)) for e, c, f in raises]
    else:
        cx.assume(*fs)
    g = GenV(K, get, guard, raises)
    g.pos, g.X = pos, X
    return g


def graph_pre(G):
    """a contiguity matrix"""
    i, j = qv('i', 'j')
    yield 'symmetric', forall([i, j], G.g[i][j] == G.g[j][i], G.g[i][j])
    yield 'links between areas', forall([i, j], Implies(
        G.g[i][j], And(0 <= i, i < G.n, 0 <= j, j < G.n)), G.g[i][j])


class Partial(Contract):
    """a generator of labellings, each of one connected component

    Ghost state: the areas covered and the labels used so far.  Every yield is
    checked: it labels some areas that are not yet covered and contains every
    neighbor of each of them, the others are -1.  As the generator does not
    write to what it has yielded, the k-th yield stays the restriction of one
    labelling X to the areas numbered k, which is what `per_component` gives
    to the callers."""
    generator = True

    def ghost_state(self, ip):
        cx = ip.cx
        none = z3.K(I, z3.BoolVal(False))
        self.cov = SetV(cx, none, IntC())
        self.used = SetV(cx, none, IntC())
        cx.ghost['roots'] = [self.cov, self.used]

    def on_yield(self, ip, v):
        cx = ip.cx
        n, G = self.a.adj.n, self.a.adj.g
        if not is_labels(v):
            cx.oblige(False, 'yields an array of labels', kind='post')
            return
        if cx.loopstack and v.uid <= cx.loopstack[-1].head_uid:
            raise Unsupported('yields an object of an earlier iteration')
        i, j = qv('i', 'j')
        y, cov, used = v.a, self.cov.s, self.used.s
        C = cx.define_array('yielded', I, B, lambda i: And(
            0 <= i, i < n, y[i] != -1))
        S = L.LabelSet(y, n)

        def ob(name, f):
            cx.oblige(f, 'yield: ' + name, kind='post')
        ob('one label per area', v.n == n)
        ob('labels some area', Exists(i, C[i]))
        ob('no area twice', forall(i, Implies(C[i], Not(cov[i])), C[i]))
        ob('all neighbors', forall([i, j], Implies(And(C[i], G[i][j]), C[j]),
                                   (C[i], G[i][j])))
        for nm, f in self.at_yield(ip, y, C, S, n, G, used):
            ob(nm, f)
        cx.wr(self.cov, '_s', cx.define_array('covered', I, B, lambda i: Or(
            cov[i], C[i])))
        cx.wr(self.used, '_s', cx.define_array('used', I, B, lambda r: Or(
            used[r], And(r != -1, S[r]))))
        # the caller may write to the array, the generator may not
        cx.wr(v, 'a', cx.fresh('yielded', L.IA))
        v.frozen = True

    def at_yield(self, ip, y, C, S, n, G, used):
        return ()

    def frame(self, ip, a):
        return [self.cov, self.used] if ip.active is self else []

    def post(self, ip, a, o, res):
        if ip.active is not self:
            return
        i = qv('i')
        cov = self.cov.s
        yield 'every area is covered', forall(i, Implies(
            And(0 <= i, i < a.adj.n), cov[i]), cov[i])

    def invariants(self, ip, gh):
        cov, n = self.cov.s, self.a.adj.n
        i = qv('i')
        yield 'covered areas', forall(i, Implies(
            cov[i], And(0 <= i, i < n)), cov[i])
        if gh.visited is not None and gh.visited.sort() == L.SetI:
            for nm, c, v in env_vars(ip):
                if is_labels(v) and '.' not in nm:
                    yield (nm, 'visited'), And(v.n == n, forall(i, Implies(
                        And(0 <= i, i < n), cov[i] == gh.visited[v.a[i]]),
                        cov[i], v.a[i]))
                    yield (nm, 'visited labels'), forall(i, Implies(
                        gh.visited[i], L.LabelSet(v.a, n)[i]),
                        gh.visited[i])


def n_comps(adj):
    return L.NComp(adj.g, adj.n)


@register
class SeparateComponents(Partial):
    """the given labels of one component after the other"""
    target = U + 'separate_components'
    props = ('C07', 'C01', 'C02')
    generator = True

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_labels(a.labels)

    def setup(self, ip):
        G = fresh_graph(ip.cx)
        self.ghost_state(ip)
        return dict(adj=G, labels=fresh_labels(ip.cx, G.n))

    def pre(self, ip, a):
        for x in graph_pre(a.adj):
            yield x
        i = qv('i')
        yield 'one label per area', a.labels.n == a.adj.n
        yield 'labels are not -1', forall(i, Implies(
            And(0 <= i, i < a.labels.n), a.labels.a[i] != -1), a.labels.a[i])

    def at_yield(self, ip, y, C, S, n, G, used):
        i = qv('i')
        yield 'the given labels', forall(i, Implies(
            C[i], y[i] == self.a.labels.a[i]), C[i])

    def result(self, ip, a, o):
        if ip.active is self:
            return None
        return per_component(ip, a.adj, a.labels.a, [
            (a.labels, 'a', a.labels.a), (a.adj, 'g', a.adj.g)])


class AnyStrategy(AbsStrategy):
    def py_method(self, ip, name, args, kw):
        if name != 'start_new_component':
            raise Unsupported('strategy.%s' % name)
        return None

    def py_setattr(self, ip, name, v):
        return name == 'attr_all'


@register
class Fit(Contract):
    """every area labelled, n_regions labels, every region connected"""
    target = P + 'AZP.fit_from_scipy_sparse_matrix'
    props = ('C01', 'C07', 'C08')
    whole_subgraph = True
    eager = True
    skip_lemmas = ('region_in', 'region_store', 'labelset_store',
                   'labelset_store_keep')
    cases = tuple('AZP, %s start, %s strategy' % (i, s)
                  for i in ('given', 'random') for s in ('any', 'default'))

    def types_ok(self, ip, a):
        return is_graph(a.adj) and isinstance(a.attr, Arr) and \
            a.attr.elem == L.Row and is_int(a.n_regions) and \
            isinstance(a.objective_func, AbsObjective) and \
            (a.initial_labels is None or is_labels(a.initial_labels) or
             isinstance(a.initial_labels, OptV) and
             is_labels(a.initial_labels.val))

    def apply(self, ip, fv, env):
        x = env['initial_labels']
        if isinstance(x, OptV):
            env = dict(env, initial_labels=ip.resolve_opt(x))
        return Contract.apply(self, ip, fv, env)

    def modify(self, ip, a, o):
        from .c_sa import run_strategy
        cx = ip.cx
        if a.self.cls.name != 'AZP':
            raise Unsupported('fit of ' + a.self.cls.name)
        run_strategy(ip, a.self.f['allow_move_strategy'])
        cx.wr_field(a.self, 'labels_', fresh_labels(cx, a.adj.n, 'labels_'))
        cx.wr_field(a.self, 'n_regions', a.n_regions)
        cx.wr_field(a.self, 'objective_func', a.objective_func)

    def result(self, ip, a, o):
        return None

    def setup(self, ip):
        cx = ip.cx
        cls, start, st = self.case.split(', ')
        G = fresh_graph(cx)
        c = ip.prog.get(P + cls)
        ip.static_value(c)
        s = ObjV(cx, c, dict(labels_=None, n_regions=None,
                             objective_func=None))
        s.f['labels_'] = OptV(cx.fresh('never fitted', B), fresh_labels(
            cx, fresh_int(cx, 'n_old', 0), 'old_labels'))
        if st.startswith('any'):
            s.f['allow_move_strategy'] = AnyStrategy()
        else:
            s.f['allow_move_strategy'] = strat(
                ip, 'AllowMoveAZP', attr=None, objective_func=None,
                objective_val=cx.fresh('objective_val', R))
        tabu_state(ip, s, cls)
        return dict(self=s, adj=G, attr=fresh_attr(cx, G.n),
                    n_regions=cx.fresh('n_regions', I),
                    initial_labels=fresh_labels(cx, G.n, 'initial_labels')
                    if start.startswith('given') else None,
                    objective_func=AbsObjective())

    def pre(self, ip, a):
        i, j = qv('i', 'j')
        yield 'one attribute row per area', a.attr.n == a.adj.n
        yield 'symmetric', forall([i, j], a.adj.g[i][j] == a.adj.g[j][i],
                                  a.adj.g[i][j])
        yield 'edges between areas', forall([i, j], Implies(
            a.adj.g[i][j], And(0 <= i, i < a.adj.n, 0 <= j, j < a.adj.n)),
            a.adj.g[i][j])
        x = a.initial_labels
        if x is not None:
            yield 'one initial label per area', x.n == a.adj.n
            yield 'initial labels are not -1', forall(i, Implies(
                And(0 <= i, i < x.n), x.a[i] != -1), x.a[i])
        st = a.self.f['allow_move_strategy']
        if isinstance(st, ObjV) and '_decorated_strategy' in st.f:
            st = st.f['_decorated_strategy']
        if isinstance(st, ObjV) and 't' in st.f:
            yield 'temperature is positive', to_real(st.f['t']) > 0

    def old(self, ip, a):
        x = a.initial_labels
        return dict(labels_=a.self.f.get('labels_'),
                    n_regions=a.self.f.get('n_regions'),
                    init=None if x is None else x.a)

    def raises(self, ip, a):
        n, p = a.adj.n, to_int(a.n_regions)
        x = a.initial_labels
        if x is not None:
            bad = Or(L.Card(L.LabelSet(x.a, n)) != p,
                     Not(feas(a.adj.g, x.a, n)))
        else:
            bad = Or(n == 0, n < p, n_comps(a.adj) > p)
        return {'ValueError': bad}

    def post_raise(self, ip, a, o, cls):
        yield 'labels_ of an earlier fit untouched', \
            a.self.f.get('labels_') is o['labels_']
        yield 'n_regions of an earlier fit untouched', \
            a.self.f.get('n_regions') is o['n_regions']

    def frame(self, ip, a):
        s = a.self
        out = [(s, k) for k in ('labels_', 'n_regions', 'objective_func',
                                'tabu', 'visited', 'avg_it_until_rep',
                                'rep_counter')]
        if isinstance(s.f['allow_move_strategy'], ObjV):
            out.append(s.f['allow_move_strategy'])
        if 'tabu' in s.f:
            out.append(s.f['tabu'])
        return out

    def post(self, ip, a, o, res):
        lab = a.self.f.get('labels_')
        n = a.adj.n
        if not is_labels(lab):
            yield 'labels_ is an array of labels', False
            return
        p = to_int(a.n_regions)
        i = qv('i')
        yield 'labels_ has one label per area', lab.n == n
        yield 'every area is in a region', forall(i, Implies(
            And(0 <= i, i < n), lab.a[i] != -1))
        yield 'every region is connected', feas(a.adj.g, lab.a, n)
        yield 'exactly n_regions regions', L.Card(
            L.LabelSet(lab.a, n)) == p
        yield 'n_regions is recorded', a.self.f.get('n_regions') is \
            a.n_regions
        if o['init'] is not None:
            yield 'the labels are those of the start', \
                L.LabelSet(lab.a, n) == L.LabelSet(o['init'], n)
        if self.tracks():
            yield 'the objective is not worse than at the start', \
                L.Obj(lab.a, n, a.attr.a) <= L.Obj(o['init'], n, a.attr.a)

    def invariants(self, ip, gh):
        g = getattr(gh.it, 'src', None) if gh.it is not None else None
        if not isinstance(g, GenV):
            return
        cx = ip.cx
        n, G = self.a.adj.n, self.a.adj.g
        pos, X = g.pos, g.X
        k = gh.k
        self.cur = g, k
        i = qv('i')
        seen = set()
        for nm, c, v in env_vars(ip):
            if not is_labels(v) or v.uid in seen or '.' in nm or \
                    any(v is x for x in self.a.values()):
                continue
            seen.add(v.uid)
            A = v.a
            r = qv('r')
            own = pos[L.lab_w(X, n, A[i])]
            LS, LX = L.LabelSet(A, n), L.LabelSet(X, n)
            yield (nm, 'size'), v.n == n
            yield (nm, 'not yet'), forall(i, Implies(And(
                0 <= i, i < n, pos[i] >= k), A[i] == -1), A[i])
            yield (nm, 'labelled'), forall(i, Implies(And(
                0 <= i, i < n, pos[i] < k), And(A[i] != -1, LX[A[i]])),
                A[i])
            yield (nm, 'labels of the component'), forall(i, Implies(And(
                0 <= i, i < n, pos[i] < k), own == pos[i]), A[i])
            yield (nm, 'label set'), forall(r, Implies(And(
                LX[r], pos[L.lab_w(X, n, r)] < k), LS[r]), LS[r], LX[r])
            yield (nm, 'all labels'), Implies(k >= g.n, LS == LX)
            if self.tracks():
                M, at = self.mix(ip, A, k), self.a.attr.a
                self.same_obj(ip, M, X)
                self.same_obj(ip, M, A)
                yield (nm, 'objective so far'), \
                    L.Obj(M, n, at) <= L.Obj(X, n, at)
                yield (nm, 'objective'), Implies(k >= g.n, L.Obj(
                    A, n, at) <= L.Obj(X, n, at))
            yield (nm, 'connected'), forall(r, Implies(And(
                r != -1, LS[r]), L.Conn(G, L.Region(A, n, r))), LS[r])


    def after_put(self, ip, o, a, S, inv, v):
        """ghost assertions on labels[component] = v"""
        if getattr(self, 'cur', None) is None or self.cur[0] is None:
            return
        (g, k), n = self.cur, self.a.adj.n
        pos, X = g.pos, g.X
        i, r = qv('i', 'r')
        LX, LV, A = L.LabelSet(X, n), L.LabelSet(v.a, v.n), o.a
        yield 'the component', forall(i, S[i] == And(
            0 <= i, i < n, pos[i] == k), S[i], pos[i])
        if self.tracks() and 'search' in v.meta:
            # lemma obj_glue (of additive objectives): labels that differ on
            # a part with labels of its own only
            at = self.a.attr.a
            old, atc = v.meta['search']
            P, Q = self.mix(ip, a, k + 1), self.mix(ip, A, k)
            j = qv('j')
            rng = And(0 <= i, i < n)
            cx = ip.cx
            cx.assume(Implies(And(
                forall(i, Implies(rng, And(
                    Implies(Not(S[i]), P[i] == Q[i]),
                    Implies(S[i], And(P[i] == v.a[inv[i]],
                                      Q[i] == old[inv[i]],
                                      at[i] == atc[inv[i]]))))),
                forall([i, j], Implies(And(rng, 0 <= j, j < n, S[i],
                                           Not(S[j])),
                                       And(P[i] != P[j], Q[i] != Q[j])))),
                L.Obj(P, n, at) - L.Obj(Q, n, at) ==
                L.Obj(v.a, v.n, atc) - L.Obj(old, v.n, atc)))
        yield 'labels of the component only', forall(r, Implies(
            LV[r], And(r != -1, LX[r], pos[L.lab_w(X, n, r)] == k)), LV[r])
        yield 'all labels of the component', forall(r, Implies(
            And(LX[r], pos[L.lab_w(X, n, r)] == k), LV[r]), LX[r])
        yield 'other areas have other labels', forall(i, Implies(
            And(0 <= i, i < n, LV[A[i]]), False), A[i])
        if self.tracks() and 'search' in v.meta:
            yield 'the objective is not worse than before', \
                L.Obj(P, n, at) <= L.Obj(Q, n, at)

    def tracks(self):
        """the fit whose objective is compared with the given start"""
        return 'C04' in self.props

    def mix(self, ip, A, k):
        """the labels so far, those of the start elsewhere"""
        g = self.cur[0]
        return ip.cx.define_array('mix', I, I, lambda i: If(
            g.pos[i] < k, A[i], g.X[i]))

    def same_obj(self, ip, P, Q):
        """lemma obj_range: the objective is one of the areas' labels"""
        n, at, i = self.a.adj.n, self.a.attr.a, qv('i')
        ip.cx.assume(Implies(
            forall(i, Implies(And(0 <= i, i < n), P[i] == Q[i])),
            L.Obj(P, n, at) == L.Obj(Q, n, at)))


@register
class FitTabu(Fit):
    """every area labelled, n_regions labels, every region connected"""
    props = ('C02', 'C08')
    at_calls = False

    def __init__(self):
        Fit.__init__(self, self.target + ' (tabu)')
    cases = tuple('%s, %s start, %s strategy' % (c, i, s)
                  for c in ('AZPBasicTabu', 'AZPReactiveTabu')
                  for i in ('given', 'random') for s in ('any', 'default'))


@register
class FitObjective(Fit):
    """the objective of the result is at most that of the given labels"""
    props = ('C04',)
    at_calls = False

    def __init__(self):
        Fit.__init__(self, self.target + ' (objective)')

    def post(self, ip, a, o, res):
        for nm, f in Fit.post(self, ip, a, o, res):
            if 'objective' in nm:
                yield nm, f

    def invariants(self, ip, gh):
        for k, f in Fit.invariants(self, ip, gh):
            if k[1] not in ('connected', 'label set', 'all labels'):
                yield k, f
    cases = tuple('%s, given start, default strategy' % c
                  for c in ('AZP', 'AZPBasicTabu', 'AZPReactiveTabu'))


def tabu_state(ip, s, cls):
    """whatever an earlier fit left behind"""
    cx = ip.cx
    if cls == 'AZPBasicTabu':
        s.f['tabu'] = move_list(ip, None, None)
        s.f['visited'] = snap_list(cx)
        s.f['reps_before_termination'] = fresh_int(cx, 'reps')
    elif cls == 'AZPReactiveTabu':
        s.f['tabu'] = move_list(ip, None, None)
        s.f['visited'] = snap_list(cx)
        s.f['maxit'] = fresh_int(cx, 'maxit', 1)
        s.f['k1'] = cx.fresh('k1', R)
        s.f['k2'] = cx.fresh('k2', R)
        s.f['avg_it_until_rep'] = cx.fresh('avg', R)
        s.f['rep_counter'] = fresh_int(cx, 'rep')
