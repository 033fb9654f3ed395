"""AZP local search on one connected component (C01, C04)."""
from .values import *        # noqa
from .c_strategy import strat, AllowAZP

P = 'region.p_regions.azp:'


GoodP = L.GoodP


class AbsStrategy(object):
    """any move strategy: any answer, labels untouched.

    GoodP stands for whatever the strategy guarantees (e.g. max-p threshold):
    an allowed move between two regions that survive it keeps GoodP."""
    def __init__(self, at=None):
        self.at = at

    def py_call(self, ip, args, kw):
        a = dict(zip(('moving_area', 'new_region', 'labels'), args))
        a.update(kw)
        cx = ip.cx
        if cx.summary is not None:
            raise NotSummarizable('asks the move strategy')
        lab = a['labels']
        if not is_labels(lab):
            raise Unsupported('move strategy arguments')
        m, r = to_int(a['moving_area']), to_int(a['new_region'])
        for nm, f in update_pre(m, r, lab):
            cx.oblige(f, 'pre of the move strategy: ' + nm, kind='pre')
            cx.assume(f)
        ok = cx.fresh('allowed', B)
        cx.assume(Implies(And(ok, GoodP(lab.a, lab.n), *[
            f for _, f in strict_pre(m, r, lab)]),
            GoodP(z3.Store(lab.a, m, r), lab.n)))
        return ok

    def py_attr(self, ip, name):
        if name == 'objective_val':
            return (ip.cx.fresh('objective_val', R),)
        return None

    def py_isinst(self, ip, t):
        return True if isinstance(t, ClassV) and \
            t.name == 'AllowMoveStrategy' else None


def env_vars(ip):
    """named values visible in the verified function and inlined helpers"""
    seen, out = set(), []

    def put(n, g, v, depth=0):
        if isinstance(v, OptV):
            for i, (c, x) in enumerate(v.guarded()):
                if x is not None:
                    put(n if not isinstance(v, UnionV) else '%s|%d' % (n, i),
                        And(g, c), x, depth)
            return
        if isinstance(v, tuple):
            fs = v.typ.fields if isinstance(v, NTup) else range(len(v))
            for f, x in zip(fs, v):
                put('%s.%s' % (n, f), g, x, depth)
            return
        if isinstance(v, ObjV):
            if depth < 1:
                for f, x in v.f.items():
                    put('%s.%s' % (n, f), g, x, depth + 1)
            return
        key = (n, id(v))
        if key not in seen:
            seen.add(key)
            out.append((n, z3.simplify(g), v))
    for f in ip.cx.frames[1:]:
        for n, v in f.env.items():
            if not n.startswith('%'):
                put(n, z3.BoolVal(True), v)
    return out


class Search(Contract):
    """candidate invariants about labels, borders, lists and moves"""

    def invariants(self, ip, gh):
        for k, g, f in self.candidates(ip, gh):
            yield k, f if z3.is_true(g) else Implies(g, f)

    def candidates(self, ip, gh):
        a, o = self.a, self.o
        T = z3.BoolVal(True)
        G, n, L0 = a.adj.g, a.adj.n, o['lab']
        lab = self.labels_arg(a)
        LS0 = L.LabelSet(L0, n)
        x, r, m = qv('x', 'r', 'm')
        vs = env_vars(ip)
        arrs = {}
        for nm, g, v in vs:
            if isinstance(v, Arr) and v.elem == I and (
                    v is lab or v.n.eq(n)):
                arrs.setdefault(v.uid, (nm, v))
        arrs.setdefault(lab.uid, ('labels', lab))
        for nm, v in arrs.values():
            t = 'labels' if v is lab else 'array ' + nm
            yield (t, 'size'), T, v.n == n
            yield (t, 'labelset'), T, L.LabelSet(v.a, n) == LS0
            yield (t, 'feasible'), T, feas(G, v.a, n)
            for k, f in self.state_facts(v.a, n):
                yield (t, k), T, f
        LA = lab.a
        for k, f in self.extra_invariants(ip, gh):
            yield k, T, f
        ints = [(nm, g, v) for nm, g, v in vs
                if z3.is_expr(v) and v.sort() == I]
        for nm, g, v in ints:
            end = nm.split('.')[-1]
            if '.' not in nm or self.int_wanted(nm) and end != 'area':
                yield (nm, 'is a label'), g, LS0[v]
            if '.' not in nm or end == 'area':
                yield (nm, 'is an area'), g, And(0 <= v, v < n)
        for nm, g, v in vs:
            if isinstance(v, DictV) and v.pyd is None and \
                    isinstance(v.vc, SetC) and isinstance(v.kc, IntC):
                yield (nm, 'keys'), g, forall(
                    r, v.keys[r] == LS0[r], v.keys[r])
                yield (nm, 'border'), g, forall(
                    [r, x], Implies(And(LS0[r], v.vals[r][x]), And(
                        0 <= x, x < n, LA[x] != r,
                        L.Bord(G, L.Region(LA, n, r), x))), v.vals[r][x])
            elif isinstance(v, Lst) and v.items is None and \
                    isinstance(v.codec, IntC):
                yield (nm, 'labels'), g, forall(
                    x, Implies(v.bag[x] > 0, LS0[x]), v.bag[x])
                yield (nm, 'removable'), g, forall(
                    x, Implies(v.bag[x] > 0, And(
                        0 <= x, x < n, L.Conn(G, L.Del(
                            L.Region(LA, n, LA[x]), x)))), v.bag[x])
                for k, g2, w in ints:
                    if '.' in k:
                        continue
                    yield (nm, 'borders', k), And(g, g2), forall(
                        x, Implies(v.bag[x] > 0, And(
                            LA[x] != w, L.Bord(G, L.Region(LA, n, w), x))),
                        v.bag[x])
            elif isinstance(v, Lst) and v.items is None and \
                    isinstance(v.codec, TupC) and \
                    len(v.codec.items) == 3 and all(
                        isinstance(c, IntC) for c in v.codec.items):
                srt = v.codec.sort
                q = z3.Const('q?', srt)
                f0, f1, f2 = [srt.accessor(0, i)(q) for i in range(3)]
                yield (nm, 'moves'), g, forall(q, Implies(v.bag[q] > 0, And(
                    0 <= f0, f0 < n, LS0[f1], LS0[f2])), v.bag[q])
            elif isinstance(v, Lst) and v.items is None and \
                    isinstance(v.codec, SnapC):
                q = z3.Const('q?', v.codec.sort)
                s = v.codec.dec(ip.cx, q)
                for k, f in self.snap_facts(s, G, n, LS0):
                    yield (nm, k), g, forall(q, Implies(v.bag[q] > 0, f),
                                             v.bag[q])
            elif isinstance(v, SnapV):
                for k, f in self.snap_facts(v, G, n, LS0):
                    yield (nm, k), g, f
            for y in self.value_invariants(ip, nm, v, G, n, LA, LS0):
                yield y[0], g, y[1]

    def snap_facts(self, s, G, n, LS0):
        yield 'size', s.n == n
        yield 'labelset', L.LabelSet(s.a, n) == LS0
        yield 'feasible', feas(G, s.a, n)
        for x in self.state_facts(s.a, n):
            yield x

    def state_facts(self, lab, n):
        """further facts every reached labelling has"""
        st = self.a.self.f['allow_move_strategy']
        if isinstance(st, ObjV):
            yield 'objective not worse', \
                L.Obj(lab, n, self.a.attr.a) <= L.Obj(
                    self.o['lab'], n, self.a.attr.a)
        else:
            yield 'strategy guarantee', Implies(
                GoodP(self.o['lab'], n), GoodP(lab, n))

    def int_wanted(self, nm):
        return nm.split('.')[-1] in (
            'area', 'new_region', 'old_region')

    def value_invariants(self, ip, nm, v, G, n, LA, LS0):
        return ()

    def extra_invariants(self, ip, gh):
        return ()

    def labels_arg(self, a):
        return a[self.labels_name]

    labels_name = 'initial_clustering'

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_labels(self.labels_arg(a)) and \
            isinstance(a.attr, Arr) and a.attr.elem == L.Row

    def pre(self, ip, a):
        lab = self.labels_arg(a)
        yield 'one label per area', lab.n == a.adj.n
        yield 'one attribute row per area', a.attr.n == a.adj.n
        yield 'start is feasible', feas(a.adj.g, lab.a, lab.n)
        i, j = qv('i', 'j')
        yield 'symmetric', forall([i, j], a.adj.g[i][j] == a.adj.g[j][i],
                                  a.adj.g[i][j])
        yield 'edges between areas', forall([i, j], Implies(
            a.adj.g[i][j], And(0 <= i, i < a.adj.n, 0 <= j, j < a.adj.n)),
            a.adj.g[i][j])
        yield 'at least one area', a.adj.n > 0
        st = a.self.f['allow_move_strategy']
        if isinstance(st, ObjV):
            yield 'strategy has the attributes', \
                isinstance(st.f['attr'], Arr) and z3.simplify(
                    st.f['attr'].a == a.attr.a)
            yield 'strategy has the objective function', isinstance(
                st.f['objective_func'], AbsObjective)
            yield 'strategy has the objective of the start', to_real(
                st.f['objective_val']) == L.Obj(lab.a, lab.n, a.attr.a)

    def old(self, ip, a):
        return dict(lab=self.labels_arg(a).a)

    def result(self, ip, a, o):
        cx = ip.cx
        return Arr(cx, a.adj.n, cx.fresh('result', L.IA),
                   meta={'search': (o['lab'], a.attr.a)})

    def post(self, ip, a, o, res):
        if not is_labels(res):
            yield 'returns labels', False
            return
        n = a.adj.n
        yield 'one label per area', res.n == n
        yield 'same set of labels', L.LabelSet(res.a, n) == \
            L.LabelSet(o['lab'], n)
        yield 'every region connected', feas(a.adj.g, res.a, n)
        for k, f in self.post_facts(a, o, res, n):
            yield k, f

    def post_facts(self, a, o, res, n):
        st = a.self.f['allow_move_strategy']
        if isinstance(st, ObjV):
            yield 'objective not worse than at the start', \
                L.Obj(res.a, n, a.attr.a) <= L.Obj(o['lab'], n, a.attr.a)
        else:
            yield 'what the strategy guarantees is kept', Implies(
                GoodP(o['lab'], n), GoodP(res.a, n))

    def strategy_setup(self, ip, d):
        s = d['self']
        if self.case.startswith('any strategy'):
            s.f['allow_move_strategy'] = AbsStrategy()
        else:
            s.f['allow_move_strategy'] = strat(
                ip, 'AllowMoveAZP', attr=d['attr'],
                objective_func=s.f['objective_func'],
                objective_val=L.Obj(d[self.labels_name].a, d['adj'].n,
                                    d['attr'].a))

    def strategy_frame(self, a):
        st = a.self.f['allow_move_strategy']
        return [(st, 'objective_val')] if isinstance(st, ObjV) else []

    def base_setup(self, ip, cls, **f):
        cx = ip.cx
        G = fresh_graph(cx)
        lab = fresh_labels(cx, G.n, self.labels_name)
        at = fresh_attr(cx, G.n)
        c = ip.prog.get(P + cls)
        ip.static_value(c)
        f.setdefault('objective_func', AbsObjective())
        return dict(self=ObjV(cx, c, f), adj=G, attr=at,
                    **{self.labels_name: lab})


@register
class AzpComponent(Search):
    """keeps every region connected and the set of labels"""
    target = P + 'AZP._azp_connected_component'
    props = ('C01', 'C04', 'C08')
    cases = ('any strategy', 'default strategy')

    def setup(self, ip):
        d = self.base_setup(ip, 'AZP')
        self.strategy_setup(ip, d)
        return d

    def frame(self, ip, a):
        return [a.initial_clustering] + self.strategy_frame(a)

    def extra_invariants(self, ip, gh):
        st = self.a.self.f['allow_move_strategy']
        if not isinstance(st, ObjV):
            return
        lab, at, n = self.labels_arg(self.a), self.a.attr, self.a.adj.n
        ov = to_real(st.f['objective_val'])
        yield ('objective', 'tracks labels'), ov == L.Obj(lab.a, n, at.a)

    def post_facts(self, a, o, res, n):
        for x in Search.post_facts(self, a, o, res, n):
            yield x
        st = a.self.f['allow_move_strategy']
        if isinstance(st, ObjV):
            yield 'running objective is that of the result', \
                to_real(st.f['objective_val']) == L.Obj(res.a, n, a.attr.a)


def move_list(ip, n, LS, bounded=True, name='tabu'):
    """a deque of Moves between existing regions, bounded or not"""
    cx = ip.cx
    t = move_type(ip)
    l = Lst(cx, items=[])
    if bounded:
        l.maxlen = cx.fresh(name + '.maxlen', I)
        cx.assume(l.maxlen >= 0)
    c = TupC([IntC(), IntC(), IntC()], t)
    l.havoc(cx, name, c)
    if LS is not None:
        cx.assume(moves_ok(l, n, LS))
    return l


def snap_list(cx, name='visited'):
    l = Lst(cx, items=[])
    l.havoc(cx, name, SnapC())
    return l


def moves_ok(l, n, LS):
    srt = l.codec.sort
    q = z3.Const('q?', srt)
    f0, f1, f2 = [srt.accessor(0, i)(q) for i in range(3)]
    return forall(q, Implies(l.bag[q] > 0, And(0 <= f0, f0 < n, LS[f1],
                                               LS[f2])), l.bag[q])


@register
class TabuMakeMove(Contract):
    """the move, or no change when it would break a region"""
    target = P + 'AZPTabu._make_move'
    props = ('C02',)

    def types_ok(self, ip, a):
        return is_graph(a.adj) and is_labels(a.labels) and \
            isinstance(a.self, ObjV) and is_int(a.area) and \
            is_int(a.new_region)

    def setup(self, ip):
        cx = ip.cx
        G = fresh_graph(cx)
        lab = fresh_labels(cx, G.n)
        c = ip.prog.get(P + 'AZPBasicTabu')
        ip.static_value(c)
        tabu = move_list(ip, G.n, L.LabelSet(lab.a, G.n))
        return dict(self=ObjV(cx, c, dict(tabu=tabu)), adj=G, labels=lab,
                    area=cx.fresh('area', I), new_region=cx.fresh('new', I))

    def pre(self, ip, a):
        yield 'one label per area', a.labels.n == a.adj.n
        yield 'the area exists', And(0 <= to_int(a.area),
                                     to_int(a.area) < a.labels.n)
        yield 'the region exists', L.LabelSet(
            a.labels.a, a.labels.n)[to_int(a.new_region)]

    def old(self, ip, a):
        t = a.self.f['tabu']
        return dict(lab=a.labels.a, bag=None if t.items is not None
                    else t.bag)

    def frame(self, ip, a):
        return [a.labels, a.self.f['tabu']]

    def modify(self, ip, a, o):
        cx = ip.cx
        m, r = to_int(a.area), to_int(a.new_region)
        self.moved = cx.fresh('moved', B)
        new = cx.fresh('labels', L.IA)
        cx.assume(new == If(self.moved, z3.Store(o['lab'], m, r), o['lab']))
        cx.wr(a.labels, 'a', new)
        cx.wr(a.labels, 'meta', {})
        t = a.self.f['tabu']
        ip.lib.m_Lst_append(t, NTup(move_type(ip), [
            m, r, o['lab'][m]]))

    def result(self, ip, a, o):
        return self.moved

    def post(self, ip, a, o, res):
        res = to_bool(res)
        m, r, n = to_int(a.area), to_int(a.new_region), a.labels.n
        yield 'labels of a rejected move are unchanged', Implies(
            Not(res), a.labels.a == o['lab'])
        yield 'labels of a move made change at the area only', Implies(
            res, a.labels.a == z3.Store(o['lab'], m, r))
        yield 'no region disappears', L.LabelSet(a.labels.a, n) == \
            L.LabelSet(o['lab'], n)
        yield 'a move made leaves every region connected', Implies(
            res, feas(a.adj.g, a.labels.a, n))
        t = a.self.f['tabu']
        if t.items is None:
            q = z3.Const('q?', t.codec.sort)
            old = o['bag'][q] if o['bag'] is not None else z3.IntVal(0)
            rev = t.codec.enc(ip.cx, NTup(move_type(ip), [
                m, r, o['lab'][m]]))
            yield 'tabu list gains at most the reverse move', forall(
                q, Implies(t.bag[q] > 0, Or(old > 0, q == rev)), t.bag[q])
        else:
            yield 'tabu list keeps the reverse move', len(t.items) <= 1


def move_type(ip):
    m = ip.prog.get(P + 'AZP').module
    return ip.module_name('Move', m)


class TabuComponent(Search):
    props = ('C02', 'C04', 'C08')
    cases = ('any strategy', 'default strategy')

    def setup(self, ip):
        d = self.base_setup(ip, self.cls_name)
        self.strategy_setup(ip, d)
        self.fields(ip, d)
        return d

    def frame(self, ip, a):
        s = a.self
        return [self.labels_arg(a), s.f['tabu'], (s, 'tabu')] + \
            self.strategy_frame(a)


@register
class BasicTabuComponent(TabuComponent):
    """keeps every region connected and the set of labels"""
    target = P + 'AZPBasicTabu._azp_connected_component'
    cls_name = 'AZPBasicTabu'
    cases = ('any strategy', 'default strategy',
             'any strategy, unbounded tabu list')

    def fields(self, ip, d):
        s, cx = d['self'], ip.cx
        # whatever the previous component left behind
        s.f['tabu'] = move_list(ip, None, None, 'unbounded' not in self.case)
        s.f['visited'] = snap_list(cx)
        s.f['reps_before_termination'] = fresh_int(cx, 'reps')


@register
class ReactiveTabuComponent(TabuComponent):
    """keeps every region connected and the set of labels"""
    target = P + 'AZPReactiveTabu._azp_connected_component'
    cls_name = 'AZPReactiveTabu'
    labels_name = 'initial_labels'

    def fields(self, ip, d):
        s, cx = d['self'], ip.cx
        # whatever the previous component left behind
        s.f['tabu'] = move_list(ip, None, None)
        s.f['visited'] = snap_list(cx)
        s.f['maxit'] = fresh_int(cx, 'maxit')
        s.f['k1'] = cx.fresh('k1', R)
        s.f['k2'] = cx.fresh('k2', R)
        s.f['avg_it_until_rep'] = cx.fresh('avg', R)
        s.f['rep_counter'] = fresh_int(cx, 'rep')

    def pre(self, ip, a):
        for x in TabuComponent.pre(self, ip, a):
            yield x
        yield 'maxit is positive (class invariant)', \
            to_real(a.self.f['maxit']) > 0

    def frame(self, ip, a):
        s = a.self
        return TabuComponent.frame(self, ip, a) + [
            (s, 'visited'), (s, 'avg_it_until_rep'), (s, 'rep_counter')]

    def extra_invariants(self, ip, gh):
        v = self.a.self.f['visited']
        ln = to_int(ip.lib.seq_len(v))
        for nm, g, x in env_vars(ip):
            if nm.startswith('last_step') and '.' not in nm and is_num(x):
                yield (nm, 'a solution was saved'), Implies(g, ln >= 1)
