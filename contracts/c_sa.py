"""The fit of simulated-annealing AZP (C03)."""
from .c_fit import *         # noqa
from .c_strategy import A, Decorated

SA_FIELDS = ('objective_val', 'attr', 'objective_func', 'attr_all', 'sa')


class Alert(Contract):
    """sets the flag, nothing else"""
    props = ('C03', 'C16')
    at_calls = False
    field = None

    def setup(self, ip):
        c = ip.prog.get(P + 'AZPSimulatedAnnealing')
        ip.static_value(c)
        return dict(self=ObjV(ip.cx, c, {
            'sa_moves_term_reached': ip.cx.fresh('reached', B),
            'move_made': ip.cx.fresh('made', B)}))

    def frame(self, ip, a):
        return [(a.self, self.field)]

    def post(self, ip, a, o, res):
        v = a.self.f[self.field]
        yield 'the flag is set', v is True or \
            z3.is_expr(v) and to_bool(v)


@register
class SaMovesAlert(Alert):
    target = P + 'AZPSimulatedAnnealing.sa_moves_alert'
    field = 'sa_moves_term_reached'


@register
class MoveMadeAlert(Alert):
    target = P + 'AZPSimulatedAnnealing.move_made_alert'
    field = 'move_made'


ALERTS = {'sa_moves_alert': 'sa_moves_term_reached',
          'move_made_alert': 'move_made'}


def run_strategy(ip, st):
    """the effect of any number of calls of a move strategy and its start"""
    cx = ip.cx
    if not isinstance(st, ObjV):
        return
    nm = st.cls.name
    if nm == 'AllowMoveAZPMaxPRegions':
        keys = ('attr', 'objective_func', 'objective_val', 'attr_all',
                'spatially_extensive_attr')
        run_strategy(ip, st.f['_decorated_strategy'])
    elif nm == 'AllowMoveAZPSimulatedAnnealing':
        keys = SA_FIELDS
        for f in ('observers_min_sa_moves', 'observers_move_made'):
            l = st.f[f]
            if not isinstance(l, Lst) or l.items is None:
                raise Unsupported('unknown observers')
            for x in l.items:
                if not isinstance(x, BoundV) or \
                        x.func.name not in ALERTS or \
                        not isinstance(x.obj, ObjV):
                    raise Unsupported('unknown observer %r' % x)
                # contracts SaMovesAlert, MoveMadeAlert
                k = ALERTS[x.func.name]
                cx.wr_field(x.obj, k, Or(to_bool(x.obj.f[k]),
                                          cx.fresh(k, B)))
    else:
        raise Unsupported('strategy ' + nm)
    for k in keys:
        cx.wr_field(st, k, Opaque('after a fit') if k not in (
            'sa', 'objective_val') else cx.fresh(k, I if k == 'sa' else R))


def good(a, lab, p):
    n, i = a.adj.n, qv('i')
    return And(lab.n == n, forall(i, Implies(And(0 <= i, i < n),
                                             lab.a[i] != -1), lab.a[i]),
               feas(a.adj.g, lab.a, n), L.Card(L.LabelSet(lab.a, n)) == p)


@register
class FitSA(Contract):
    """every area labelled, n_regions labels, every region connected"""
    target = P + 'AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix'
    props = ('C03',)
    cases = tuple('%s start, %s strategy' % (i, s)
                  for i in ('given', 'random')
                  for s in ('annealing', 'max-p'))

    def types_ok(self, ip, a):
        return False

    def setup(self, ip):
        cx = ip.cx
        start, st = self.case.split(', ')
        G = fresh_graph(cx)
        c = ip.prog.get(P + 'AZPSimulatedAnnealing')
        ip.static_value(c)
        s = ObjV(cx, c, dict(
            allow_move_strategy=None, azp=None,
            init_temperature=cx.fresh('t0', R),
            maxit=cx.fresh('maxit', R),
            sa_moves_term=cx.fresh('sa_moves_term', I),
            sa_moves_term_reached=cx.fresh('reached', B),
            move_made=cx.fresh('made', B),
            nonmoving_steps_before_stop=cx.fresh('steps', I),
            visited=snap_list(cx),
            reps_before_termination=fresh_int(cx, 'reps'),
            random_state=None, n_regions=None))
        s.f['labels_'] = OptV(cx.fresh('never fitted', B), fresh_labels(
            cx, fresh_int(cx, 'n_old', 0), 'old_labels'))
        if st.startswith('max-p'):
            m = ip.prog.get(A + 'AllowMoveAZPMaxPRegions')
            ip.static_value(m)
            s.f['allow_move_strategy'] = ObjV(cx, m, dict(
                _decorated_strategy=Decorated(),
                spatially_extensive_attr_all=Opaque('ext'),
                spatially_extensive_attr=None,
                threshold=Opaque('threshold')))
        return dict(self=s, adj=G, attr=fresh_attr(cx, G.n),
                    n_regions=cx.fresh('n_regions', I),
                    initial_labels=fresh_labels(cx, G.n, 'initial_labels')
                    if start.startswith('given') else None,
                    cooling_factor=cx.fresh('cooling', R),
                    objective_func=AbsObjective())

    def pre(self, ip, a):
        for x in graph_pre(a.adj):
            yield x
        yield 'one attribute row per area', a.attr.n == a.adj.n
        s = a.self.f
        yield 'temperature is positive', to_real(s['init_temperature']) > 0
        yield 'at least one iteration', to_real(s['maxit']) >= 1
        yield 'at least one step', \
            to_int(s['nonmoving_steps_before_stop']) >= 1
        yield 'sa_moves_term is positive', to_int(s['sa_moves_term']) >= 1
        x, i = a.initial_labels, qv('i')
        if x is not None:
            yield 'one initial label per area', x.n == a.adj.n
            yield 'initial labels are not -1', forall(i, Implies(
                And(0 <= i, i < x.n), x.a[i] != -1), x.a[i])

    def old(self, ip, a):
        x = a.initial_labels
        return dict(labels_=a.self.f.get('labels_'),
                    init=None if x is None else x.a)

    def bad(self, a, init):
        n, p = a.adj.n, to_int(a.n_regions)
        if init is not None:
            return Or(L.Card(L.LabelSet(init, n)) != p,
                      Not(feas(a.adj.g, init, n)))
        return Or(n == 0, n < p, n_comps(a.adj) > p)

    def raises(self, ip, a):
        x = a.initial_labels
        c = to_real(a.cooling_factor)
        return {'ValueError': Or(
            c <= 0, c >= 1, self.bad(a, None if x is None else x.a))}

    def post_raise(self, ip, a, o, cls):
        yield 'labels_ of an earlier fit untouched', \
            a.self.f.get('labels_') is o['labels_']

    def frame(self, ip, a):
        s = a.self
        out = [(s, k) for k in (
            'labels_', 'n_regions', 'visited', 'move_made', 'azp',
            'sa_moves_term_reached', 'allow_move_strategy')]
        if isinstance(s.f['allow_move_strategy'], ObjV):
            out.append(s.f['allow_move_strategy'])
        return out

    def post(self, ip, a, o, res):
        lab = a.self.f.get('labels_')
        n, i = a.adj.n, qv('i')
        if isinstance(lab, OptV):
            yield 'labels_ is set', Not(lab.isnone)
            lab = lab.val
        if not is_labels(lab):
            yield 'labels_ is an array of labels', False
            return
        yield 'labels_ has one label per area', lab.n == n
        yield 'every area is in a region', forall(i, Implies(
            And(0 <= i, i < n), lab.a[i] != -1))
        yield 'every region is connected', feas(a.adj.g, lab.a, n)
        yield 'exactly n_regions regions', L.Card(
            L.LabelSet(lab.a, n)) == to_int(a.n_regions)

    def invariants(self, ip, gh):
        a, init = self.a, self.o['init']
        p = to_int(a.n_regions)
        ok = Not(self.bad(a, init))
        T = z3.BoolVal(True)
        prem = [('always', T)]
        labs, objs = [], {}
        for nm, g, v in env_vars(ip):
            if is_labels(v) and ('.' not in nm or nm.endswith('.labels_')):
                labs.append((nm, g, v))
            elif is_int(v) and '.' not in nm and v is not a.n_regions:
                prem.append((nm, to_int(v) > 0))
                yield (nm, 'not negative'), to_int(v) >= 0
            elif isinstance(v, bool) or z3.is_expr(v) and v.sort() == B:
                if nm.startswith('self.'):
                    prem.append((nm, to_bool(v)))
            elif is_num(v) and (nm.endswith('.t') or '.' not in nm):
                yield (nm, 'positive'), Implies(g, to_real(v) > 0)
        for nm, g, v in labs:
            for k, c in prem:
                yield (nm, k, 'good'), Implies(c, And(
                    g, ok, good(a, v, p)))
            alt = v.a == init if init is not None else T
            yield (nm, 'start or good'), Implies(g, Or(
                And(alt, v.n == a.adj.n) if init is not None else
                z3.BoolVal(False), And(ok, good(a, v, p))))
            i = qv('i')
            yield (nm, 'size'), Implies(g, v.n == a.adj.n)
            yield (nm, 'not -1'), Implies(g, forall(i, Implies(And(
                0 <= i, i < v.n), v.a[i] != -1), v.a[i]))
