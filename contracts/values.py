"""Abstract values the contracts quantify over."""
from .base import *          # noqa
from pyded.lib import MetricV


class AbsObjective(object):
    """an arbitrary objective function obeying the contract of C05"""
    tag = 'objective'

    def value(self, lab, n, at):
        return L.Obj(lab, n, at)

    def py_call(self, ip, args, kw):
        a = dict(zip(('labels', 'attr'), args))
        a.update(kw)
        lab, at = a['labels'], a['attr']
        self.check(ip, lab, at)
        v = self.value(lab.a, lab.n, at.a)
        ip.cx.assume(v < L.INF)
        return v

    def check(self, ip, lab, at):
        if not is_labels(lab) or not isinstance(at, Arr) or at.elem != L.Row:
            raise Unsupported('arguments of the objective function')
        ip.cx.oblige(lab.n == at.n, 'objective: one attribute row per label',
                     kind='pre')
        if ip.cx.summary is not None:
            ip.cx.rd(lab)

    def py_method(self, ip, name, args, kw):
        if name != 'update':
            raise Unsupported('objective.%s' % name)
        a = dict(zip(('moving_area', 'recipient_region', 'labels', 'attr'),
                     args))
        a.update(kw)
        m, r = to_int(a['moving_area']), to_int(a['recipient_region'])
        lab, at = a['labels'], a['attr']
        self.check(ip, lab, at)
        for nm, f in update_pre(m, r, lab):
            ip.cx.oblige(f, 'pre of objective update: ' + nm, kind='pre')
            ip.cx.assume(f)
        return self.value(z3.Store(lab.a, m, r), lab.n, at.a) - \
            self.value(lab.a, lab.n, at.a)

    def py_isinst(self, ip, t):
        return False


def update_pre(m, r, lab):
    yield 'the moving area exists', And(0 <= m, m < lab.n)
    yield 'the region exists', L.LabelSet(lab.a, lab.n)[r]


def strict_pre(m, r, lab):
    """a real move between two regions that both survive it"""
    for x in update_pre(m, r, lab):
        yield x
    yield 'it is another region', r != lab.a[m]
    yield 'the donor region keeps an area', \
        L.NE(L.Del(L.Region(lab.a, lab.n, lab.a[m]), m))


def fresh_attr(cx, n, name='attr'):
    return Arr(cx, n, cx.fresh(name, L.RowA))
