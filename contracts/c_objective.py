"""Objective functions (C05)."""
from .values import *        # noqa

O = 'region.objective_function:'


class ObjBase(Contract):
    cls_name = None

    def obj(self, ip, **f):
        c = ip.prog.get(O + self.cls_name)
        ip.static_value(c)
        f.setdefault('metric', MetricV())
        return ObjV(ip.cx, c, f)

    def types_ok(self, ip, a):
        return is_labels(a.labels) and isinstance(a.attr, Arr) and \
            a.attr.elem == L.Row and isinstance(a.self, ObjV)

    def setup(self, ip):
        cx = ip.cx
        n = fresh_int(cx, 'n', 0)
        lab, at = fresh_labels(cx, n), fresh_attr(cx, n)
        return dict(self=self.obj(ip), labels=lab, attr=at)

    def pre(self, ip, a):
        yield 'one attribute row per label', a.labels.n == a.attr.n


@register
class PairwiseCall(ObjBase):
    """sum of the metric over unordered pairs sharing a label"""
    target = O + 'ObjectiveFunctionPairwise.__call__'
    props = ('C05', 'C04')
    cls_name = 'ObjectiveFunctionPairwise'

    def note_inputs(self, ip, a):
        if ip.active is self:
            # the definition of the objective, for congruence of sums
            ip.cx.memo['sums2'] = ((L.PWD(a.labels.a, a.labels.n),
                                    L.PWV(a.attr.a)),)

    def result(self, ip, a, o):
        return ip.cx.fresh('objective', R)

    def post(self, ip, a, o, res):
        yield 'sum over unordered pairs of one region', to_real(res) == \
            L.PW(a.labels.a, a.labels.n, a.attr.a)


@register
class PairwiseUpdate(ObjBase):
    """objective after the move minus objective before it"""
    target = O + 'ObjectiveFunctionPairwise.update'
    props = ('C05', 'C04')
    cls_name = 'ObjectiveFunctionPairwise'

    def setup(self, ip):
        d = ObjBase.setup(self, ip)
        d['moving_area'] = ip.cx.fresh('area', I)
        d['recipient_region'] = ip.cx.fresh('recipient', I)
        return d

    def pre(self, ip, a):
        for x in ObjBase.pre(self, ip, a):
            yield x
        for x in update_pre(to_int(a.moving_area),
                            to_int(a.recipient_region), a.labels):
            yield x

    def result(self, ip, a, o):
        return ip.cx.fresh('diff', R)

    def value(self, lab, n, at):
        return L.PW(lab, n, at)

    def old(self, ip, a):
        return dict(lab=a.labels.a)

    def post(self, ip, a, o, res):
        m, r = to_int(a.moving_area), to_int(a.recipient_region)
        yield 'true change of the objective', to_real(res) == \
            self.value(z3.Store(o['lab'], m, r), a.labels.n, a.attr.a) - \
            self.value(o['lab'], a.labels.n, a.attr.a)
        yield 'labels unchanged', a.labels.a == o['lab']
