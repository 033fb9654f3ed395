"""Move strategies: acceptance, annealing alerts, max-p guard (C04 C09 C16)."""
from .values import *        # noqa

A = 'region.p_regions.azp_util:'


def strat(ip, cls, **f):
    c = ip.prog.get(A + cls)
    ip.static_value(c)
    return ObjV(ip.cx, c, f)


def call_setup(ip):
    cx = ip.cx
    n = fresh_int(cx, 'n', 0)
    lab, at = fresh_labels(cx, n), fresh_attr(cx, n)
    return dict(moving_area=cx.fresh('area', I),
                new_region=cx.fresh('new', I), labels=lab), at


def strategy_pre(a):
    return update_pre(to_int(a.moving_area), to_int(a.new_region), a.labels)


class CallBase(Contract):
    cls_name = None

    def fields(self, ip, at):
        return dict(attr=at, objective_func=AbsObjective(),
                    objective_val=ip.cx.fresh('objective_val', R))

    def setup(self, ip):
        d, at = call_setup(ip)
        d['self'] = strat(ip, self.cls_name, **self.fields(ip, at))
        return d

    def types_ok(self, ip, a):
        f = a.self.f if isinstance(a.self, ObjV) else {}
        return is_labels(a.labels) and is_int(a.moving_area) and \
            is_int(a.new_region) and 'objective_func' in f and \
            isinstance(f.get('objective_func'), AbsObjective)

    def pre(self, ip, a):
        for x in strategy_pre(a):
            yield x
        yield 'attributes of the component', \
            a.self.f['attr'].n == a.labels.n

    def old(self, ip, a):
        f = a.self.f
        return dict(lab=a.labels.a, val=to_real(f['objective_val']),
                    sa=f.get('sa'), t=f.get('t'))

    def diff(self, a, o):
        m, r = to_int(a.moving_area), to_int(a.new_region)
        n, at = a.labels.n, a.self.f['attr'].a
        return L.Obj(z3.Store(o['lab'], m, r), n, at) - \
            L.Obj(o['lab'], n, at)

    def result(self, ip, a, o):
        return ip.cx.fresh('allowed', B)

    def modify(self, ip, a, o):
        ip.cx.wr_field(a.self, 'objective_val',
                       ip.cx.fresh('objective_val', R))

    def post(self, ip, a, o, res):
        res = to_bool(res)
        d = self.diff(a, o)
        yield 'running objective follows accepted moves', \
            to_real(a.self.f['objective_val']) == \
            o['val'] + If(res, d, z3.RealVal(0))
        yield 'labels unchanged', a.labels.a == o['lab']


@register
class AllowAZP(CallBase):
    """accepts exactly the moves that do not raise the objective"""
    target = A + 'AllowMoveAZP.__call__'
    props = ('C04', 'C01', 'C02')
    cls_name = 'AllowMoveAZP'

    def frame(self, ip, a):
        return [(a.self, 'objective_val')]

    def post(self, ip, a, o, res):
        for x in CallBase.post(self, ip, a, o, res):
            yield x
        yield 'accepts iff the change is not positive', \
            to_bool(res) == (self.diff(a, o) <= 0)


@register
class AllowSA(CallBase):
    """annealing acceptance, running objective, notifications"""
    target = A + 'AllowMoveAZPSimulatedAnnealing.__call__'
    props = ('C16', 'C03')
    cls_name = 'AllowMoveAZPSimulatedAnnealing'

    def fields(self, ip, at):
        cx = ip.cx
        f = CallBase.fields(self, ip, at)
        f.update(t=cx.fresh('t', R), sa=fresh_int(cx, 'sa', 0),
                 sa_moves_term=fresh_int(cx, 'term', 1),
                 observers_min_sa_moves=observers(cx, 'term_obs'),
                 observers_move_made=observers(cx, 'move_obs'))
        return f

    def pre(self, ip, a):
        for x in CallBase.pre(self, ip, a):
            yield x
        yield 'temperature is positive', to_real(a.self.f['t']) > 0

    def frame(self, ip, a):
        return [(a.self, 'objective_val'), (a.self, 'sa')]

    def post(self, ip, a, o, res):
        cx = ip.cx
        for x in CallBase.post(self, ip, a, o, res):
            yield x
        res = to_bool(res)
        d = self.diff(a, o)
        ev = cx.ghost.get('events', ())
        draws = cx.ghost.get('draws', ())
        yield 'a move that does not raise the objective is accepted', \
            Implies(d <= 0, res)
        if draws:
            yield 'one draw, only for raising moves', \
                And(z3.BoolVal(len(draws) == 1))
            yield 'raising move accepted iff draw < exp(-change/t)', \
                Implies(d > 0, res == (draws[0] < L.Exp(-d / o['t'])))
        else:
            yield 'raising moves are decided by a draw', d <= 0
        nm = sum(1 for e in ev if e == 'move')
        nt = sum(1 for e in ev if e == 'term')
        sa = If(And(res, d > 0), to_int(o['sa']) + 1, to_int(o['sa']))
        yield 'move observers notified once per accepted move', \
            If(res, z3.BoolVal(nm == 1), z3.BoolVal(nm == 0))
        yield 'annealing moves counted', to_int(a.self.f['sa']) == sa
        yield 'termination observers notified exactly at the threshold', \
            If(And(res, d > 0, sa >= to_int(a.self.f['sa_moves_term'])),
               z3.BoolVal(nt == 1), z3.BoolVal(nt == 0))


def observers(cx, name):
    l = Lst(cx, codec=ObjC())
    n = fresh_int(cx, name + '.n', 0)
    l.items, l.n = None, n
    l.seq = cx.fresh(name, z3.ArraySort(I, ObjC.sort))
    return l


class Notify(Contract):
    event = None
    field = None
    at_calls = True

    def types_ok(self, ip, a):
        return isinstance(a.self, ObjV) and self.field in a.self.f

    def setup(self, ip):
        cx = ip.cx
        g = ObjV(cx, 'ghost', dict(calls=z3.IntVal(0)))
        cx.ghost['roots'] = [g]
        self.g = g
        other = {'observers_min_sa_moves': 'observers_move_made',
                 'observers_move_made': 'observers_min_sa_moves'}[self.field]
        return dict(self=strat(ip, 'AllowMoveAZPSimulatedAnnealing',
                               **{self.field: observers(cx, 'obs'),
                                  other: observers(cx, 'other'),
                                  'sa': fresh_int(cx, 'sa', 0)}))

    def modify(self, ip, a, o):
        ip.cx.ghost['events'] = ip.cx.ghost.get('events', ()) + (self.event,)

    def result(self, ip, a, o):
        return None

    def call_value_hook(self, ip, f, args, kw):
        if not isinstance(f, ZObj):
            return None
        cx = ip.cx
        if cx.summary is not None:
            raise NotSummarizable('calls an observer')
        obs = self.a.self.f[self.field]
        k = self.g.f['calls']
        cx.oblige(And(k < obs.n, f.z == obs.seq[k]),
                  'the next observer is called, without arguments'
                  if not args and not kw else 'no arguments')
        cx.wr_field(self.g, 'calls', k + 1)
        return (None,)

    def frame(self, ip, a):
        return [self.g] if ip.active is self else []

    def invariants(self, ip, gh):
        if gh.k is not None:
            yield 'one call per observer', self.g.f['calls'] == gh.k

    def check_frame_fields(self):
        return ['calls']

    def post(self, ip, a, o, res):
        if ip.active is self:
            yield 'every observer called once', \
                self.g.f['calls'] == a.self.f[self.field].n


@register
class NotifyTerm(Notify):
    """each registered observer is called exactly once"""
    target = A + 'AllowMoveAZPSimulatedAnnealing.notify_min_sa_moves'
    props = ('C16',)
    event, field = 'term', 'observers_min_sa_moves'


@register
class NotifyMove(Notify):
    """each registered observer is called exactly once"""
    target = A + 'AllowMoveAZPSimulatedAnnealing.notify_move_made'
    props = ('C16',)
    event, field = 'move', 'observers_move_made'


class Register(Contract):
    field = None
    at_calls = False
    cases = ('callable', 'not callable')
    props = ('C16',)

    def setup(self, ip):
        cx = ip.cx
        obs = observers(cx, 'obs')
        other = {'observers_min_sa_moves': 'observers_move_made',
                 'observers_move_made': 'observers_min_sa_moves'}[self.field]
        return dict(self=strat(ip, 'AllowMoveAZPSimulatedAnnealing',
                               **{self.field: obs,
                                  other: observers(cx, 'other')}),
                    observer_func=ZObj(cx.fresh('func', ObjC.sort)))

    def callable_hook(self, ip, v):
        return self.case == 'callable'

    def raises(self, ip, a):
        return {} if self.case == 'callable' else \
            {'ValueError': z3.BoolVal(True)}

    def frame(self, ip, a):
        return [a.self.f[self.field]]

    def old(self, ip, a):
        l = a.self.f[self.field]
        return dict(n=l.n, seq=l.seq)

    def post(self, ip, a, o, res):
        l = a.self.f[self.field]
        yield 'one observer more', l.n == o['n'] + 1
        if l.seq is None:
            yield 'appended', False
            return
        yield 'appended', l.seq[o['n']] == a.observer_func.z
        k = qv('k')
        yield 'others kept', forall(k, Implies(
            And(0 <= k, k < o['n']), l.seq[k] == o['seq'][k]))


@register
class RegisterTerm(Register):
    target = A + 'AllowMoveAZPSimulatedAnnealing.register_sa_moves_term'
    field = 'observers_min_sa_moves'


@register
class RegisterMove(Register):
    target = A + 'AllowMoveAZPSimulatedAnnealing.register_move_made'
    field = 'observers_move_made'


@register
class InitSA(Contract):
    """sa_moves_term must be a positive integer"""
    target = A + 'AllowMoveAZPSimulatedAnnealing.__init__'
    props = ('C16', 'C03')
    cases = ('int', 'real')

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        cx = ip.cx
        return dict(self=strat(ip, 'AllowMoveAZPSimulatedAnnealing'),
                    init_temperature=cx.fresh('t0', R),
                    sa_moves_term=cx.fresh('term', I if self.case == 'int'
                                           else R))

    def raises(self, ip, a):
        return {'ValueError': a.sa_moves_term < 1 if self.case == 'int'
                else z3.BoolVal(True)}

    def frame(self, ip, a):
        return [a.self]

    def post(self, ip, a, o, res):
        f = a.self.f
        yield 'no annealing move yet', to_int(f['sa']) == 0
        yield 'temperature', to_real(f['t']) == a.init_temperature
        yield 'threshold', to_int(f['sa_moves_term']) == a.sa_moves_term
        for k in ('observers_min_sa_moves', 'observers_move_made'):
            yield k + ' empty', f[k].items == []
        yield 'separate observer lists', f['observers_min_sa_moves'] is not \
            f['observers_move_made']


@register
class ResetSA(Contract):
    target = A + 'AllowMoveAZPSimulatedAnnealing.reset'
    props = ('C16',)

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        return dict(self=strat(ip, 'AllowMoveAZPSimulatedAnnealing',
                               sa=fresh_int(ip.cx, 'sa', 0)))

    def frame(self, ip, a):
        return [(a.self, 'sa')]

    def post(self, ip, a, o, res):
        yield 'count restarts', to_int(a.self.f['sa']) == 0


@register
class UpdateTemperature(Contract):
    target = A + 'AllowMoveAZPSimulatedAnnealing.update_temperature'
    props = ('C16',)

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        return dict(self=strat(ip, 'AllowMoveAZPSimulatedAnnealing',
                               t=ip.cx.fresh('t', R)),
                    temp=ip.cx.fresh('temp', R))

    def frame(self, ip, a):
        return [(a.self, 't')]

    def post(self, ip, a, o, res):
        yield 'temperature replaced', to_real(a.self.f['t']) == a.temp


@register
class StartComponent(Contract):
    """the running objective starts at the objective of the start labels"""
    target = A + 'AllowMoveStrategy.start_new_component'
    props = ('C04', 'C16')

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        cx = ip.cx
        n = fresh_int(cx, 'n', 0)
        comp = ip.lib.idx_array(cx.fresh('comp', L.SetI))
        return dict(self=strat(ip, 'AllowMoveAZP'),
                    initial_labels=fresh_labels(cx, n),
                    attr=fresh_attr(cx, n), objective_func=AbsObjective(),
                    comp_idx=comp)

    def frame(self, ip, a):
        return [(a.self, 'attr'), (a.self, 'objective_func'),
                (a.self, 'objective_val')]

    def post(self, ip, a, o, res):
        f = a.self.f
        yield 'objective of the start labels', to_real(f['objective_val']) \
            == L.Obj(a.initial_labels.a, a.initial_labels.n, a.attr.a)
        yield 'attributes of the component', f['attr'] is a.attr
        yield 'objective function', f['objective_func'] is a.objective_func


class Decorated(object):
    """the decorated move strategy: any answer"""
    def __init__(self):
        self.calls = []

    def py_call(self, ip, args, kw):
        a = dict(zip(('moving_area', 'new_region', 'labels'), args))
        a.update(kw)
        r = ip.cx.fresh('decorated', B)
        ip.cx.ghost['deco'] = ip.cx.ghost.get('deco', ()) + ((
            a.get('moving_area'), a.get('new_region'), a.get('labels'), r),)
        return r

    def py_attr(self, ip, name):
        return (Opaque('deco-attr', name=name),)


def sums_ok(lab, n, ext, width, thr, regions):
    """every region reaches the threshold in every attribute"""
    c = qv('c')
    return And(*[forall(c, Implies(And(0 <= c, c < width), L.SumR(
        L.Region(lab, n, r), L.Col(ext, c)) >= thr(c))) for r in regions])


@register
class AllowMaxP(Contract):
    """donor and recipient stay at or above the threshold"""
    target = A + 'AllowMoveAZPMaxPRegions.__call__'
    props = ('C09', 'C08')
    cases = ('scalar threshold', 'vector threshold')

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        cx = ip.cx
        d, at = call_setup(ip)
        w = cx.vec_width = fresh_int(cx, 'm', 1)
        n = d['labels'].n
        ext = Arr(cx, n, cx.fresh('ext', L.VA), m=w)
        t = cx.fresh('threshold', R) if self.case[0] == 's' else \
            VecV(cx, w, cx.fresh('threshold', L.RA))
        d['self'] = strat(ip, 'AllowMoveAZPMaxPRegions', threshold=t,
                          spatially_extensive_attr=ext,
                          _decorated_strategy=Decorated(), attr=at,
                          objective_func=AbsObjective(),
                          objective_val=cx.fresh('objective_val', R))
        return d

    def thr(self, a):
        t = a.self.f['threshold']
        return (lambda c: t) if z3.is_expr(t) else (lambda c: t.v[c])

    def pre(self, ip, a):
        for x in strict_pre(to_int(a.moving_area), to_int(a.new_region), a.labels):
            yield x
        ext = a.self.f['spatially_extensive_attr']
        c, r = qv('c', 'r')
        yield 'every region reaches the threshold', forall(
            [r, c], Implies(And(L.LabelSet(a.labels.a, a.labels.n)[r],
                                0 <= c, c < ext.m),
                            L.SumR(L.Region(a.labels.a, a.labels.n, r),
                                   L.Col(ext.a, c)) >= self.thr(a)(c)),
            L.SumR(L.Region(a.labels.a, a.labels.n, r), L.Col(ext.a, c)))

    def post(self, ip, a, o, res):
        res = to_bool(res)
        m, r = to_int(a.moving_area), to_int(a.new_region)
        lab, n = a.labels.a, a.labels.n
        ext = a.self.f['spatially_extensive_attr']
        lab2 = z3.Store(lab, m, r)
        ok = [sums_ok(lab2, n, ext.a, ext.m, self.thr(a), [x])
              for x in (lab[m], r)]
        yield 'an allowed move keeps the donor at the threshold', \
            Implies(res, ok[0])
        yield 'an allowed move keeps the recipient at the threshold', \
            Implies(res, ok[1])
        calls = ip.cx.ghost.get('deco', ())
        yield 'asks the decorated strategy at most once', len(calls) <= 1
        if calls:
            c = calls[0]
            yield 'passes the move on', z3.And(
                to_int(c[0]) == m, to_int(c[1]) == r) \
                if c[2] is a.labels else False
            yield 'answer of the decorated strategy unchanged', res == c[3]
        else:
            yield 'decorated strategy decides admissible moves', \
                Not(And(*ok))
            yield 'rejects without asking', Not(res)


@register
class MaxPInit(Contract):
    target = A + 'AllowMoveAZPMaxPRegions.__init__'
    props = ('C09',)

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        return dict(self=strat(ip, 'AllowMoveAZPMaxPRegions'),
                    spatially_extensive_attr=Opaque('ext'),
                    threshold=Opaque('threshold'),
                    decorated_strategy=Opaque('decorated'))

    def frame(self, ip, a):
        return [a.self]

    def post(self, ip, a, o, res):
        f = a.self.f
        yield 'decorated strategy kept', \
            f.get('_decorated_strategy') is a.decorated_strategy
        yield 'threshold kept', f.get('threshold') is a.threshold
        yield 'attributes kept', f.get('spatially_extensive_attr_all') is \
            a.spatially_extensive_attr


@register
class MaxPGetattr(Contract):
    """other methods come from the decorated strategy"""
    target = A + 'AllowMoveAZPMaxPRegions.__getattr__'
    props = ('C09',)

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        return dict(self=strat(ip, 'AllowMoveAZPMaxPRegions',
                               _decorated_strategy=Decorated()),
                    name='some_method')

    def post(self, ip, a, o, res):
        yield 'attribute of the decorated strategy', \
            isinstance(res, Opaque) and res.tag == 'deco-attr' and \
            res.name == 'some_method'


@register
class MaxPStart(Contract):
    """rows of the component, and the decorated strategy is started too"""
    target = A + 'AllowMoveAZPMaxPRegions.start_new_component'
    props = ('C09', 'C08')

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        cx = ip.cx
        n, k = fresh_int(cx, 'n', 0), fresh_int(cx, 'k', 0)
        w = cx.vec_width = fresh_int(cx, 'm', 1)
        S = cx.fresh('comp', L.SetI)
        x = qv('x')
        cx.assume(forall(x, Implies(S[x], And(0 <= x, x < n)), S[x]))
        comp = ip.lib.idx_array(S)
        log = self.log = []

        class Deco(Decorated):
            def py_method(s, ip, name, args, kw):
                log.append((name, args, kw))
                return None

            def py_attr(s, ip, name):
                return None
        return dict(self=strat(
            ip, 'AllowMoveAZPMaxPRegions', _decorated_strategy=Deco(),
            spatially_extensive_attr_all=Arr(cx, n, cx.fresh('ext', L.VA),
                                             m=w),
            spatially_extensive_attr=None, threshold=cx.fresh('thr', R)),
            initial_labels=fresh_labels(cx, comp.n),
            attr=fresh_attr(cx, comp.n), objective_func=AbsObjective(),
            comp_idx=comp)

    def frame(self, ip, a):
        return [(a.self, k) for k in ('attr', 'objective_func',
                                      'objective_val',
                                      'spatially_extensive_attr')]

    def post(self, ip, a, o, res):
        f = a.self.f
        e, al = f['spatially_extensive_attr'], \
            f['spatially_extensive_attr_all']
        if not isinstance(e, Arr):
            yield 'rows of the component', False
            return
        k = qv('k')
        yield 'one row per area', e.n == a.comp_idx.n
        yield 'rows of the component', forall(k, Implies(
            And(0 <= k, k < e.n), e.a[k] == al.a[a.comp_idx.a[k]]))
        ok = len(self.log) == 1 and \
            self.log[0][0] == 'start_new_component'
        if ok:
            n, args, kw = self.log[0]
            names = ('initial_labels', 'attr', 'objective_func', 'comp_idx')
            g = dict(zip(names, args))
            g.update(kw)
            ok = all(g.get(x) is a[x] for x in names)
        yield 'decorated strategy started with the same component', ok
