"""Models (assumed contracts) of the built-ins and libraries used by region."""
import ast
import math
import z3
from . import logic as L
from .core import *         # noqa
from .interp import (CompV, Iter, Frame, Cond, EXC, Stale)

I, R, B = L.I, L.R, L.B


def zand(*fs):
    fs = [f for f in fs if not z3.is_true(f)]
    return z3.And(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(True)


class Lib(object):
    def __init__(self, ip):
        self.ip = ip

    @property
    def cx(self):
        return self.ip.cx

    # ============================================================ helpers
    def idx_array(self, S, name='idx', bound=None):
        """array enumerating the finite set S in ascending order"""
        cx = self.cx
        key = ('idx', S.get_id())
        if key in cx.memo:
            n, a, inv = cx.memo[key]
        else:
            cx.keep.append(S)
            n = L.Card(S)
            a = cx.fresh(name, L.IA)
            inv = cx.fresh(name + '_inv', L.IA)
            k, x, k2 = z3.Ints('k? x? k2?')
            cx.assume(n >= 0, L.Fin(S))
            cx.assume(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < n), z3.And(S[a[k]], inv[a[k]] == k)),
                patterns=[a[k]]))
            cx.assume(z3.ForAll([x], z3.Implies(
                S[x], z3.And(0 <= inv[x], inv[x] < n, a[inv[x]] == x)),
                patterns=[S[x]]))
            cx.assume((n == 0) == z3.Not(L.NE(S)))
            cx.memo[key] = (n, a, inv)
        return Arr(cx, n, a, meta={'idx': (S, inv), 'sorted': True})

    def elems(self, arr):
        """set of the elements of an int array"""
        if 'idx' in arr.meta:
            return arr.meta['idx'][0]
        return L.LabelSet(arr.a, arr.n)

    def to_sym(self, lst):
        """switch a list from concrete items to the symbolic view"""
        cx = self.cx
        if lst.items is None:
            return lst
        c = lst.codec
        for v in lst.items:
            c = join_codec(c, codec_for(v))
        if c is None:
            raise Unsupported('empty list of unknown element type')
        bag = z3.K(c.sort, z3.IntVal(0))
        seq = cx.fresh('seq', z3.ArraySort(I, c.sort))
        for k, v in enumerate(lst.items):
            e = c.enc(cx, v)
            bag = z3.Store(bag, e, bag[e] + 1)
            seq = z3.Store(seq, z3.IntVal(k), e)
        cx.wr(lst, 'codec', c)
        cx.wr(lst, 'n', z3.IntVal(len(lst.items)))
        cx.wr(lst, 'bag', bag)
        cx.wr(lst, 'seq', seq)
        cx.wr(lst, 'items', None)
        return lst

    def bag_of(self, lst):
        """multiplicity map, derived from the sequence when needed"""
        cx = self.cx
        if lst.items is not None:
            c = None
            for v in lst.items:
                c = join_codec(c, codec_for(v))
            if c is None:
                return None, None
            bag = z3.K(c.sort, z3.IntVal(0))
            for v in lst.items:
                e = c.enc(cx, v)
                bag = z3.Store(bag, e, bag[e] + 1)
            return bag, c
        if lst.bag is None:
            if lst.seq is None:
                raise Unsupported('list contents')
            cx.wr_raw(lst, 'bag', self.bag_from_seq(lst.seq, lst.n,
                                                    lst.codec))
        return lst.bag, lst.codec

    def bag_from_seq(self, seq, n, codec):
        cx = self.cx
        key = ('bagseq', seq.get_id(), to_z(n).get_id())
        if key in cx.memo:
            return cx.memo[key]
        cx.keep.append(seq)
        bag = cx.fresh('bag', z3.ArraySort(codec.sort, I))
        pos = cx.fresh('pos', z3.ArraySort(codec.sort, I))
        k = z3.Int('k?')
        x = z3.Const('x?', codec.sort)
        cx.assume(z3.ForAll([k], z3.Implies(
            z3.And(0 <= k, k < n), bag[seq[k]] > 0), patterns=[seq[k]]))
        cx.assume(z3.ForAll([x], z3.And(bag[x] >= 0, z3.Implies(
            bag[x] > 0, z3.And(0 <= pos[x], pos[x] < n, seq[pos[x]] == x))),
            patterns=[bag[x]]))
        if codec.sort == I and getattr(self.ip.active, 'ins_visited', False):
            cx.assume(z3.ForAll([x], bag[x] == L.Card(L.Region(seq, n, x)),
                                patterns=[bag[x]]))
        cx.memo[key] = bag
        return bag

    def set_from_items(self, items):
        cx = self.cx
        c = None
        for v in items:
            c = join_codec(c, codec_for(v))
        if c is None:
            return SetV(cx, None, None)
        if c == IntC() and len(items) == 1:
            return SetV(cx, L.Ins(self.empty(I), to_int(items[0])), c)
        s = self.empty(c.sort)
        for v in items:
            s = self.set_insert(s, c.enc(cx, v), c)
        return SetV(cx, s, c)

    make_set = set_from_items

    def empty(self, sort):
        if sort == I:
            s = L.Empty
            x = z3.Int('x?')
            self.cx.assume(z3.ForAll([x], z3.Not(s[x]), patterns=[s[x]]))
            if getattr(self.ip.active, 'ins_visited', False):
                self.cx.assume(L.Fin(s), z3.Not(L.NE(s)), L.Card(s) == 0)
            return s
        return z3.K(sort, z3.BoolVal(False))

    def set_insert(self, s, e, c):
        if c.sort == I:
            return L.Ins(s, e)
        return z3.Store(s, e, z3.BoolVal(True))

    def set_remove(self, s, e, c):
        if c.sort == I:
            return L.Del(s, e)
        return z3.Store(s, e, z3.BoolVal(False))

    # ======================================================= iteration
    def iterate(self, v):
        cx = self.cx
        if isinstance(v, tuple):
            return Iter(True, I, None, None, concrete=list(v))
        if isinstance(v, RangeV):
            lo, hi = to_int(v.lo), to_int(v.hi)
            if v.step != 1:
                raise Unsupported('range step')
            if z3.is_int_value(lo) and z3.is_int_value(hi) and \
                    hi.as_long() - lo.as_long() <= 3:
                return Iter(True, I, None, None, concrete=list(
                    range(lo.as_long(), hi.as_long())))
            n = z3.If(hi >= lo, hi - lo, z3.IntVal(0)) if not (
                z3.is_int_value(lo) and lo.as_long() == 0) else hi
            zero = z3.is_int_value(lo) and lo.as_long() == 0
            return Iter(True, I, lambda k: z3.And(0 <= k, k < n),
                        (lambda k: k) if zero else (lambda k: lo + k), n=n,
                        src=v)
        if isinstance(v, Arr):
            if 'idx' in v.meta:
                S = v.meta['idx'][0]
                return Iter(False, I, lambda x: S[x], lambda x: x, setz=S,
                            n=v.n, src=v)
            c = v.elem_codec()
            a = v.a
            return Iter(True, I, lambda k: z3.And(0 <= k, k < v.n),
                        lambda k: c.dec(cx, a[k], home=(v, k)
                                        if c.name == 'vec' else None),
                        n=v.n, src=v)
        if isinstance(v, Lst):
            cx.rd(v)
            if v.items is not None:
                return Iter(True, I, None, None, concrete=list(v.items))
            if v.seq is not None:
                seq, c, n = v.seq, v.codec, v.n
                return Iter(True, I, lambda k: z3.And(0 <= k, k < n),
                            lambda k: c.dec(cx, seq[k],
                                            home=self.lhome(v, k)),
                            n=n, src=v)
            bag, c, n = v.bag, v.codec, v.n
            # elements with multiplicity: key is (element, copy number)
            if v.meta.get('distinct'):
                return Iter(False, c.sort, lambda x: bag[x] > 0,
                            lambda x: c.dec(cx, x), n=n, src=v)
            seq = cx.fresh('order', z3.ArraySort(I, c.sort))
            k = z3.Int('k?')
            x = z3.Const('x?', c.sort)
            pos = cx.fresh('opos', z3.ArraySort(c.sort, I))
            cx.assume(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < n), bag[seq[k]] > 0), patterns=[seq[k]]))
            cx.assume(z3.ForAll([x], z3.Implies(
                bag[x] > 0, z3.And(0 <= pos[x], pos[x] < n,
                                   seq[pos[x]] == x)), patterns=[bag[x]]))
            return Iter(True, I, lambda k: z3.And(0 <= k, k < n),
                        lambda k: c.dec(cx, seq[k]), n=n, src=v)
        if isinstance(v, SetV):
            cx.rd(v)
            if v.codec is None:
                return Iter(True, I, None, None, concrete=[])
            s, c = v.s, v.codec
            return Iter(False, c.sort, lambda x: s[x],
                        lambda x: c.dec(cx, x), setz=s, src=v)
        if isinstance(v, DictV):
            cx.rd(v)
            if v.pyd is not None:
                return Iter(True, I, None, None, concrete=list(v.pyd))
            ks, c = v.keys, v.kc
            return Iter(False, c.sort, lambda x: ks[x],
                        lambda x: c.dec(cx, x), setz=ks, src=v)
        if isinstance(v, ItemsV):
            d = v.d
            cx.rd(d)
            if d.pyd is not None:
                if v.what == 'items':
                    return Iter(True, I, None, None,
                                concrete=[tuple(x) for x in d.pyd.items()])
                return Iter(True, I, None, None,
                            concrete=list(d.pyd.values())
                            if v.what == 'values' else list(d.pyd))
            ks, vs, kc, vc = d.keys, d.vals, d.kc, d.vc

            def val(x):
                if v.what == 'keys':
                    return kc.dec(cx, x)
                vv = vc.dec(cx, vs[x], home=(d, x)
                            if vc.name == SetC.name else None)
                return vv if v.what == 'values' else (kc.dec(cx, x), vv)
            return Iter(False, kc.sort, lambda x: ks[x], val, setz=ks, src=v)
        if isinstance(v, EnumV):
            it = self.iterate(v.v)
            if it.concrete is not None:
                return Iter(True, I, None, None,
                            concrete=[(k, x) for k, x in
                                      enumerate(it.concrete)])
            if it.ordered:
                return Iter(True, I, it.dom,
                            lambda k: (k, it.val(k)), n=it.n, src=v)
            raise Unsupported('enumerate over an unordered iterable')
        if isinstance(v, CombosV):
            S = v.S
            P = TupC([IntC(), IntC()])
            f, g = P.sort.accessor(0, 0), P.sort.accessor(0, 1)
            return Iter(False, P.sort,
                        lambda p: z3.And(S[f(p)], S[g(p)], f(p) < g(p)),
                        lambda p: (f(p), g(p)), src=v)
        if isinstance(v, CompV):
            res = self.run_comp(v.node, v.frame)
            return self.comp_iter(res)
        if isinstance(v, SeqV):
            return Iter(True, I, lambda k: z3.And(0 <= k, k < v.n),
                        v.get, n=v.n, src=v)
        if isinstance(v, GenV):
            return v.iterate(self.ip)
        if isinstance(v, str):
            raise Unsupported('iteration over a string')
        h = getattr(self.ip.active, 'iterate', None)
        if h is not None:
            r = h(self.ip, v)
            if r is not None:
                return r
        raise Unsupported('iteration over %s' % type(v).__name__)

    def lhome(self, v, k):
        return None

    def comp_iter(self, res):
        """iterate over the values of a comprehension (one key, no filter)"""
        if res.concrete is not None:
            return Iter(True, I, None, None, concrete=res.concrete)
        if len(res.keys) == 1 and len(res.conds) == 1 and \
                not res.conds[0].filter:
            c = res.conds[0]
            it = res.iters[0]
            self.assume_comp(res)
            x = res.keys[0]

            def val(k):
                return self.subst(c.data, [(x, k)] + [])
            return Iter(it.ordered, it.sort, it.dom, val, n=it.n)
        l = self.comp_list(res)
        return self.iterate(l)

    def subst(self, v, pairs):
        """substitute in a value (scalars and tuples of scalars)"""
        if z3.is_expr(v):
            return z3.substitute(v, *pairs)
        if isinstance(v, (int, float, str)) or v is None:
            return v
        if isinstance(v, NTup):
            return NTup(v.typ, [self.subst(x, pairs) for x in v])
        if isinstance(v, tuple):
            return tuple(self.subst(x, pairs) for x in v)
        if isinstance(v, RowV):
            return RowV(z3.substitute(v.row, *pairs))
        if isinstance(v, Arr) and not v.frozen:
            return Arr(self.cx, self.subst(v.n, pairs),
                       z3.substitute(v.a, *pairs))
        if isinstance(v, SetV):
            return SetV(self.cx, z3.substitute(v.s, *pairs), v.codec)
        if isinstance(v, ZObj):
            return ZObj(z3.substitute(v.z, *pairs))
        if hasattr(v, 'py_subst'):
            return v.py_subst(lambda e: z3.substitute(e, *pairs)
                              if z3.is_expr(e) else e)
        raise Unsupported('value under a comprehension: %s' %
                          type(v).__name__)

    # =================================================== comprehensions
    def comp(self, kind, node):
        res = self.run_comp(node, self.ip.fr)
        if kind == 'list':
            return self.comp_list(res)
        if kind == 'set':
            return self.comp_set(res)
        return self.comp_dict(res)

    def run_comp(self, node, frame):
        """explore a comprehension symbolically, all generators at once"""
        cx, ip = self.cx, self.ip
        gens = node.generators
        fr = Frame(frame.func, frame.module, frame.cls, closure=frame)
        fr.line = getattr(node, 'lineno', frame.line)
        isdict = isinstance(node, ast.DictComp)
        cx.frames.append(fr)
        res = CompRes()
        try:
            it0 = self.iterate(ip.ev(gens[0].iter))
            if it0.concrete is not None:
                # finite: evaluate element by element
                if len(gens) > 1:
                    raise Unsupported('comprehension over a literal')
                out = []
                for v in it0.concrete:
                    ip.assign(gens[0].target, v)
                    ok = True
                    for c in gens[0].ifs:
                        if not ip.truth(ip.ev(c)):
                            ok = False
                            break
                    if ok:
                        out.append(tuple(map(ip.ev, (node.key, node.value)))
                                   if isdict else ip.ev(node.elt))
                res.concrete = out
                return res
            outer = cx.summary
            keys0 = cx.fresh('c', it0.sort)
            mark = cx._uid

            def body():
                cx.summary = {'mark': mark, 'reads': set(), 'targets': {},
                              'effects': []}
                keys, iters = [keys0], [it0]
                doms = [it0.dom(keys0)]
                cx.assume(doms[0])
                ip.assign(gens[0].target, it0.val(keys0))
                filt = False
                for gi, g in enumerate(gens):
                    if gi > 0:
                        it = self.iterate(ip.ev(g.iter))
                        if it.concrete is not None:
                            raise Unsupported('inner literal iterable')
                        k = cx.fresh('c', it.sort)
                        keys.append(k)
                        iters.append(it)
                        d = it.dom(k)
                        doms.append(d)
                        cx.assume(d)
                        ip.assign(g.target, it.val(k))
                    for c in g.ifs:
                        n0 = len(cx.pc)
                        if not ip.truth(ip.ev(c)):
                            return ('skip', keys, iters, doms, None, filt)
                        if len(cx.pc) > n0:
                            filt = True
                v = tuple(map(ip.ev, (node.key, node.value))) if isdict \
                    else ip.ev(node.elt)
                return ('elt', keys, iters, doms, v, filt)
            try:
                paths = cx.explore_sub(body)
            finally:
                cx.summary = outer
        finally:
            cx.frames.pop()
        for pc, out, fresh, eff in paths:
            if out[0] == 'exc':
                raise Unsupported('exception inside a comprehension')
            if eff:
                raise Unsupported('effect inside a comprehension')
        if not paths:
            res.concrete = []
            # no path is feasible: the iteration space is empty
            x = z3.Const('c?', it0.sort)
            return res
        full = [p for p in paths if len(p[1][1][1]) == len(gens)]
        ref = (full or paths)[0][1][1]
        res.keys, res.iters, res.doms = ref[1], ref[2], ref[3]
        if any(len(p[1][1][1]) != len(gens) for p in paths) and \
                len(gens) > 1 and full:
            # paths cut at an outer filter carry fewer keys
            pass
        keys = res.keys
        data = [(pc, fresh, out[1]) for pc, out, fresh, eff in paths]
        conds = ip.paths_to_conds(data, *keys)
        for c in conds:
            o = c.data
            c.skip = o[0] == 'skip'
            c.filter = o[5]
            if o[4] is not None:
                c.data = self.subst(o[4], c.sub) if c.sub else o[4]
            else:
                c.data = None
        res.conds = [c for c in conds if not c.skip]
        res.allconds = conds
        dsub = conds[[c.skip for c in conds].index(False)
                     if any(not c.skip for c in conds) else 0].sub
        res.doms = [z3.substitute(d, *dsub) if dsub else d for d in res.doms]
        return res

    def assume_comp(self, res):
        if res.assumed:
            return
        res.assumed = True
        self.cx.assume(*self.ip.cover(res.allconds, res.keys, res.doms))

    def member(self, res, c):
        m = c.member
        return zand(*(res.doms + [f for f in m if not any(
            f.eq(d) for d in res.doms)]))

    def single(self, res):
        return len(res.keys) == 1

    def comp_list(self, res):
        cx = self.cx
        if res.concrete is not None:
            return Lst(cx, items=list(res.concrete))
        self.assume_comp(res)
        if not res.conds:
            return Lst(cx, items=[])
        if len(res.keys) == 1 and len(res.conds) == 1 and \
                len(res.allconds) == 1 and res.iters[0].ordered:
            it, c = res.iters[0], res.conds[0]
            try:
                codec = codec_for(c.data)
            except Unsupported:
                return SeqV(it.n, self.seq_getter(c.data, res.keys[0]))
            k = res.keys[0]
            seq = cx.define_array('lc', I, codec.sort, lambda i: z3.substitute(
                codec.enc(cx, c.data), (k, i)))
            l = Lst(cx, n=it.n, seq=seq, codec=codec)
            l.meta = {'of': res}
            return l
        codec = None
        for c in res.conds:
            codec = join_codec(codec, codec_for(c.data))
        l = Lst(cx, codec=codec)
        l.items = None
        n = cx.fresh('lc.len', I)
        bag = cx.fresh('lc.bag', z3.ArraySort(codec.sort, I))
        l.n, l.bag, l.seq = n, bag, None
        y = z3.Const('y?', codec.sort)
        alts = []
        for c in res.conds:
            e = codec.enc(cx, c.data)
            m = self.member(res, c)
            if len(res.keys) == 1 and e.eq(res.keys[0]) and \
                    len(res.conds) == 1:
                x = res.keys[0]
                my = z3.substitute(m, (x, y))
                cx.assume(z3.ForAll([y], bag[y] == z3.If(
                    my, z3.IntVal(1), z3.IntVal(0)), patterns=[bag[y]]))
                l.meta = {'distinct': True}
                cx.assume(n >= 0, z3.ForAll([y], z3.Implies(
                    my, n > 0)))
                w = cx.fresh('lc.w', codec.sort)
                cx.assume(z3.Implies(n > 0, bag[w] > 0))
                l.meta['res'] = res
                return l
            cx.assume(z3.ForAll(res.keys, z3.Implies(
                m, z3.And(bag[e] > 0, n > 0))))
            ws = [z3.Function('w!%d' % self.nid(), codec.sort, k.sort())(y)
                  for k in res.keys]
            sub = list(zip(res.keys, ws))
            alts.append(z3.And(z3.substitute(m, *sub),
                               z3.substitute(e, *sub) == y))
        cx.assume(z3.ForAll([y], z3.And(bag[y] >= 0, z3.Implies(
            bag[y] > 0, z3.Or(*alts) if len(alts) > 1 else alts[0])),
            patterns=[bag[y]]))
        w = cx.fresh('lc.w', codec.sort)
        cx.assume(n >= 0, z3.Implies(n > 0, bag[w] > 0))
        return l

    def nid(self):
        self.cx.nfresh += 1
        return self.cx.nfresh

    def seq_getter(self, data, key):
        return lambda k: self.subst(data, [(key, to_int(k))])

    def comp_set(self, res):
        cx = self.cx
        if res.concrete is not None:
            return self.set_from_items(res.concrete)
        self.assume_comp(res)
        if not res.conds:
            return SetV(cx, None, None)
        codec = None
        for c in res.conds:
            codec = join_codec(codec, codec_for(c.data))
        s = self.image_set(res, codec)
        return SetV(cx, s, codec)

    def image_set(self, res, codec):
        cx = self.cx
        if len(res.conds) == 1 and len(res.keys) == 1 and \
                codec.enc(cx, res.conds[0].data).eq(res.keys[0]):
            m = self.member(res, res.conds[0])
            return cx.define_set('sc', codec.sort, lambda y: z3.substitute(
                m, (res.keys[0], y)))
        s = cx.fresh('sc', z3.ArraySort(codec.sort, B))
        y = z3.Const('y?', codec.sort)
        alts = []
        for c in res.conds:
            e = codec.enc(cx, c.data)
            m = self.member(res, c)
            cx.assume(z3.ForAll(res.keys, z3.Implies(m, s[e])))
            ws = [z3.Function('w!%d' % self.nid(), codec.sort, k.sort())(y)
                  for k in res.keys]
            sub = list(zip(res.keys, ws))
            alts.append(z3.And(z3.substitute(m, *sub),
                               z3.substitute(e, *sub) == y))
        cx.assume(z3.ForAll([y], z3.Implies(
            s[y], z3.Or(*alts) if len(alts) > 1 else alts[0]),
            patterns=[s[y]]))
        return s

    def comp_dict(self, res):
        cx = self.cx
        if res.concrete is not None:
            d = {}
            for k, v in res.concrete:
                if z3.is_expr(k):
                    raise Unsupported('symbolic keys in a dict literal')
                d[k] = v
            return DictV(cx, pyd=d)
        self.assume_comp(res)
        if len(res.conds) != 1 or len(res.keys) != 1:
            raise Unsupported('dict comprehension with several generators')
        c = res.conds[0]
        kv, vv = c.data
        kc = codec_for(kv)
        x = res.keys[0]
        m = self.member(res, c)
        ke = kc.enc(cx, kv)
        if isinstance(vv, Lst) and vv.items == []:
            vc = SeqBagC(IntC())
            raise Unsupported('dict of lists')
        vc = codec_for(vv)
        ve = vc.enc(cx, vv)
        if ke.eq(x):
            keys = cx.define_set('dk', kc.sort,
                                 lambda y: z3.substitute(m, (x, y)))
            vals = cx.define_array('dv', kc.sort, vc.sort,
                                   lambda y: z3.substitute(ve, (x, y)))
            return DictV(cx, keys=keys, vals=vals, kc=kc, vc=vc)
        keys = self.image_set(CompRes.view(res, kv), kc)
        vals = cx.fresh('dv', z3.ArraySort(kc.sort, vc.sort))
        # later entries win: the value is that of some entry with this key
        y = z3.Const('y?', kc.sort)
        w = z3.Function('w!%d' % self.nid(), kc.sort, x.sort())(y)
        cx.assume(z3.ForAll([y], z3.Implies(keys[y], z3.And(
            z3.substitute(m, (x, w)), z3.substitute(ke, (x, w)) == y,
            vals[y] == z3.substitute(ve, (x, w)))), patterns=[keys[y]]))
        return DictV(cx, keys=keys, vals=vals, kc=kc, vc=vc)

    def quantify(self, v, universal):
        """all(v) / any(v)"""
        cx = self.cx
        if isinstance(v, CompV):
            res = self.run_comp(v.node, v.frame)
            if res.concrete is not None:
                b = universal
                for x in res.concrete:
                    t = self.ip.truth(x)
                    if t != universal:
                        return t
                return b
            self.assume_comp(res)
            fs = []
            for c in res.conds:
                t = self.ip.truthz(c.data)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                m = self.member(res, c)
                fs.append(z3.ForAll(res.keys, z3.Implies(m, t)) if universal
                          else z3.Exists(res.keys, z3.And(m, t)))
            if not fs:
                return universal
            return zand(*fs) if universal else (
                z3.Or(*fs) if len(fs) > 1 else fs[0])
        if isinstance(v, Lst) and v.items is None and v.codec == BoolC():
            cx.rd(v)
            bag, _ = self.bag_of(v)
            return bag[z3.BoolVal(False)] == 0 if universal else \
                bag[z3.BoolVal(True)] > 0
        it = self.iterate(v)
        if it.concrete is not None:
            for x in it.concrete:
                t = self.ip.truth(x)
                if t != universal:
                    return t
            return universal
        x = cx.fresh('q', it.sort)
        t = self.ip.truthz(it.val(x))
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        return z3.ForAll([x], z3.Implies(it.dom(x), t)) if universal else \
            z3.Exists([x], z3.And(it.dom(x), t))

    # ------------------------------------------------------------- sums
    def sum_(self, v, start=0):
        cx = self.cx
        if isinstance(v, CompV):
            res = self.run_comp(v.node, v.frame)
            if res.concrete is not None:
                out = start
                for x in res.concrete:
                    out = self.ip.binop('Add', out, x)
                return out
            self.assume_comp(res)
            hook = getattr(self.ip.active, 'sum_hook', None)
            if hook is not None:
                r = hook(self.ip, res)
                if r is not None:
                    return r
            return self.add(start, self.sum_comp(res))
        if isinstance(v, ColDist):
            return self.add(start, v.total(self))
        if isinstance(v, Arr) and v.elem == L.RA:
            # sum of the rows of a matrix: column sums
            S, M = self.rows_of(v)
            out = cx.define_array('colsum', I, R, lambda c: L.SumR(
                S, L.Col(M, c)))
            return VecV(cx, v.m, out)
        if isinstance(v, RangeV):
            raise Unsupported('sum of a range')
        it = self.iterate(v)
        if it.concrete is not None:
            out = start
            for x in it.concrete:
                out = self.ip.binop('Add', out, x)
            return out
        x = cx.fresh('s', it.sort)
        if it.sort != I:
            raise Unsupported('sum')
        val = it.val(x)
        if not is_num(val):
            raise Unsupported('sum of non-numbers')
        S = it.setz if it.setz is not None else L.AllSet(it.n)
        f = cx.define_array('f', I, R, lambda i: z3.substitute(
            to_real(val), (x, i)))
        return self.add(start, self.sumr(S, f, to_z(val).sort() == I))

    def add(self, start, t):
        if isinstance(start, (int, float)) and start == 0:
            return t
        return self.ip.binop('Add', start, t)

    def sumr(self, S, f, integral=False):
        """sum over a set, with congruence against the sums met before"""
        cx = self.cx
        t = L.SumR(S, f)
        seen = cx.memo.get('sums', ())
        for (S2, f2) in seen:
            if S2.eq(S) and f2.eq(f):
                return z3.ToInt(t) if integral else t
        x = z3.Int('x?')
        for (S2, f2) in seen:
            cx.assume(z3.Implies(z3.ForAll([x], z3.And(
                S[x] == S2[x], z3.Implies(S[x], f[x] == f2[x]))),
                t == L.SumR(S2, f2)))
        cx.memo['sums'] = seen + ((S, f),)
        if integral:
            return z3.ToInt(t)
        return t

    def sum_comp(self, res):
        cx = self.cx
        if not res.conds:
            return 0
        if len(res.conds) != 1:
            raise Unsupported('sum over alternatives')
        c = res.conds[0]
        val = c.data
        if isinstance(val, ColDist):
            val = val.total(self)
        if not is_num(val):
            raise Unsupported('sum of %s' % type(val).__name__)
        keys, m = list(res.keys), self.member(res, c)
        val = to_real(val)
        # split pair keys into two integer keys
        ints, sub = [], []
        for k in keys:
            if k.sort() == I:
                ints.append(k)
            else:
                comps = [z3.Int('%s.%d' % (k.decl().name(), q))
                         for q in range(k.sort().constructor(0).arity())]
                sub.append((k, k.sort().constructor(0)(*comps)))
                ints.extend(comps)
        m = z3.simplify(z3.substitute(m, *sub)) if sub else m
        val = z3.simplify(z3.substitute(val, *sub)) if sub else val
        # drop keys determined by the others: r with Region(L,n,r)[i]
        changed = True
        while changed and len(ints) > 1:
            changed = False
            for r in ints:
                t = self.determined(m, r, ints)
                if t is not None:
                    m2 = z3.substitute(m, (r, t))
                    cx.oblige(z3.ForAll(ints, z3.Implies(m, r == t)),
                              'sum: key is determined by the others',
                              kind='lemma')
                    m, val = m2, z3.substitute(val, (r, t))
                    ints = [x for x in ints if not x.eq(r)]
                    changed = True
                    break
        if len(ints) == 1:
            i = ints[0]
            S = cx.define_set('D', I, lambda y: z3.substitute(m, (i, y)))
            cx.assume(L.Fin(S))
            f = cx.define_array('f', I, R,
                                lambda y: z3.substitute(val, (i, y)))
            return self.sumr(S, f)
        if len(ints) == 2:
            i, j = ints
            D = cx.fresh('D', L.GS)
            V = cx.fresh('V', L.VA)
            a, b = z3.Ints('a? b?')
            cx.assume(z3.ForAll([a, b], D[a][b] == z3.substitute(
                m, (i, a), (j, b)), patterns=[D[a][b]]))
            cx.assume(z3.ForAll([a, b], V[a][b] == z3.substitute(
                val, (i, a), (j, b)), patterns=[V[a][b]]))
            return self.sum2(D, V)
        raise Unsupported('sum over %d keys' % len(ints))

    def sum2(self, D, V):
        cx = self.cx
        t = L.Sum2(D, V)
        a, b = z3.Ints('a? b?')
        seen = cx.memo.get('sums2', ())
        for (D2, V2) in seen:
            cx.assume(z3.Implies(z3.ForAll([a, b], z3.And(
                D[a][b] == D2[a][b], z3.Implies(D[a][b], V[a][b] ==
                                                V2[a][b]))),
                t == L.Sum2(D2, V2)))
        cx.memo['sums2'] = seen + ((D, V),)
        return t

    def determined(self, m, r, others):
        st = [m]
        while st:
            e = st.pop()
            if z3.is_and(e):
                st.extend(e.children())
            elif z3.is_select(e) and z3.is_app(e.arg(0)) and \
                    e.arg(0).decl().name() == 'Region' and \
                    e.arg(0).arg(2).eq(r):
                return z3.Select(e.arg(0).arg(0), e.arg(1))
            elif z3.is_eq(e):
                for p, q in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if p.eq(r) and not any(r.eq(s) for s in consts_in(q)):
                        return q
        return None

    def rows_of(self, arr):
        """(index set, full matrix) whose rows this array lists"""
        if 'rows' in arr.meta:
            return arr.meta['rows']
        return L.AllSet(arr.n), arr.a

    # ============================================== effects of summaries
    def apply_effects(self, es, it, x, conds):
        cx = self.cx
        obj, kind = es[0][0][0], es[0][0][1]
        per = {}
        for e, c in es:
            per.setdefault(id(c), []).append(e)
        if any(len(v) > 1 for v in per.values()) and kind == 'append':
            raise NotSummarizable('several appends in one iteration')
        if cx.summary is not None and obj.uid <= cx.summary['mark']:
            raise NotSummarizable('nested accumulation')
        if kind == 'append':
            allc = len(es) == len(conds) == 1
            codec = obj.codec
            for e, c in es:
                codec = join_codec(codec, codec_for(e[2]))
            if obj.items == [] or obj.items is None:
                pass
            base_n = len(obj.items) if obj.items is not None else obj.n
            if obj.items is not None and obj.items:
                self.to_sym(obj)
                base_n = obj.n
            vals = []
            for e, c in es:
                v = self.subst(e[2], c.sub) if c.sub else e[2]
                vals.append((codec.enc(cx, v), c))
            if allc and it.ordered and not (obj.items is None and
                                            obj.seq is None):
                e0, c0 = vals[0]
                old = obj.seq
                bn = to_int(base_n)
                if obj.items == []:
                    seq = cx.define_array('app', I, codec.sort,
                                          lambda k: z3.substitute(e0, (x, k)))
                else:
                    seq = cx.define_array(
                        'app', I, codec.sort, lambda k: z3.If(
                            k < bn, old[k], z3.substitute(e0, (x, k - bn))))
                cx.wr(obj, 'items', None)
                cx.wr(obj, 'codec', codec)
                cx.wr(obj, 'n', bn + it.n)
                cx.wr(obj, 'seq', seq)
                cx.wr(obj, 'bag', None)
                return
            obag = None
            if obj.items is None:
                obag, _ = self.bag_of(obj)
            bag = cx.fresh('acc.bag', z3.ArraySort(codec.sort, I))
            n = cx.fresh('acc.len', I)
            y = z3.Const('y?', codec.sort)
            ob = (lambda q: obag[q]) if obag is not None else \
                (lambda q: z3.IntVal(0))
            alts = []
            distinct = False
            if len(vals) == 1 and vals[0][0].eq(x):
                m = zand(it.dom(x), *vals[0][1].member)
                cx.assume(z3.ForAll([y], bag[y] == ob(y) + z3.If(
                    z3.substitute(m, (x, y)), z3.IntVal(1), z3.IntVal(0)),
                    patterns=[bag[y]]))
                cx.assume(z3.ForAll([x], z3.Implies(m, n > base_n)))
                distinct = obag is None
            else:
                for e, c in vals:
                    m = zand(it.dom(x), *c.member)
                    cx.assume(z3.ForAll([x], z3.Implies(m, z3.And(
                        bag[e] > ob(e), n > base_n))))
                    w = z3.Function('w!%d' % self.nid(), codec.sort,
                                    x.sort())(y)
                    alts.append(z3.And(z3.substitute(m, (x, w)),
                                       z3.substitute(e, (x, w)) == y))
                cx.assume(z3.ForAll([y], z3.And(bag[y] >= ob(y), z3.Implies(
                    bag[y] > ob(y), z3.Or(*alts) if len(alts) > 1
                    else alts[0])), patterns=[bag[y]]))
            w = cx.fresh('acc.w', codec.sort)
            cx.assume(n >= base_n, z3.Implies(n > 0, bag[w] > 0))
            cx.wr(obj, 'items', None)
            cx.wr(obj, 'codec', codec)
            cx.wr(obj, 'n', n)
            cx.wr(obj, 'bag', bag)
            cx.wr(obj, 'seq', None)
            cx.wr(obj, 'meta', {'distinct': True} if distinct else {})
            return
        if kind == 'union':
            # set.update(T(x)) / set.add(v(x))
            codec = obj.codec
            for e, c in es:
                codec = join_codec(codec, e[3])
            s = cx.fresh('acc', z3.ArraySort(codec.sort, B))
            y = z3.Const('y?', codec.sort)
            alts = []
            old = obj.s if obj.codec is not None else None
            if old is not None:
                alts.append(old[y])
                cx.assume(z3.ForAll([y], z3.Implies(old[y], s[y]),
                                    patterns=[old[y]]))
            for e, c in es:
                T = z3.substitute(e[2], *c.sub) if c.sub else e[2]
                m = zand(it.dom(x), *c.member)
                cx.assume(z3.ForAll([x, y], z3.Implies(
                    z3.And(m, T[y]), s[y])))
                w = z3.Function('w!%d' % self.nid(), codec.sort,
                                x.sort())(y)
                alts.append(z3.And(z3.substitute(m, (x, w)),
                                   z3.substitute(T, (x, w))[y]))
            cx.assume(z3.ForAll([y], z3.Implies(
                s[y], z3.Or(*alts) if len(alts) > 1 else alts[0]),
                patterns=[s[y]]))
            cx.wr(obj, 'codec', codec)
            cx.wr(obj, '_s', s)
            return
        if kind == 'setkey':
            # d[k(x)] = v(x) with k(x) == x
            kc, vc = obj.kc, obj.vc
            for e, c in es:
                kc = join_codec(kc, codec_for(e[2]))
                vc = join_codec(vc, codec_for(e[3]))
            keys = [kc.enc(cx, self.subst(e[2], c.sub) if c.sub else e[2])
                    for e, c in es]
            seq = getattr(it.src, 'seq', None) if isinstance(it.src, Lst) \
                else it.src.a if isinstance(it.src, Arr) else None
            ident = all(k.eq(x) for k in keys)
            if not ident and not (
                    seq is not None and it.src.meta.get('distinct') and
                    all(k.eq(seq[x]) for k in keys)):
                raise NotSummarizable('dict keys')
            y = z3.Const('y?', kc.sort)
            oldk, oldv = obj.keys, obj.vals
            if obj.pyd is not None and obj.pyd:
                raise NotSummarizable('mixed dict')
            nk = cx.fresh('dk', z3.ArraySort(kc.sort, B))
            nv = cx.fresh('dv', z3.ArraySort(kc.sort, vc.sort))
            if ident:
                at = y
            else:
                pos = z3.Function('pos!%d' % self.nid(), kc.sort, x.sort())
                at = pos(y)
            isin = [z3.substitute(zand(it.dom(x), *c.member), (x, at))
                    for e, c in es]
            if not ident:
                for e, c in es:
                    cx.assume(z3.ForAll([x], z3.Implies(
                        zand(it.dom(x), *c.member),
                        z3.And(nk[seq[x]], pos(seq[x]) == x)),
                        patterns=[seq[x]]))
                isin = [z3.And(q, seq[at] == y) for q in isin]
            anyin = z3.Or(*isin) if len(isin) > 1 else isin[0]
            cx.assume(z3.ForAll([y], nk[y] == z3.Or(
                anyin, oldk[y] if obj.pyd is None else z3.BoolVal(False)),
                patterns=[nk[y]]))
            for (e, c), q in zip(es, isin):
                v = vc.enc(cx, e[3])
                v = z3.substitute(v, *c.sub) if c.sub else v
                cx.assume(z3.ForAll([y], z3.Implies(
                    q, nv[y] == z3.substitute(v, (x, at))),
                    patterns=[nv[y]]))
            if obj.pyd is None:
                cx.assume(z3.ForAll([y], z3.Implies(
                    z3.Not(anyin), nv[y] == oldv[y]), patterns=[nv[y]]))
            cx.wr(obj, 'pyd', None)
            cx.wr(obj, 'kc', kc)
            cx.wr(obj, 'vc', vc)
            cx.wr(obj, 'keys', nk)
            cx.wr(obj, 'vals', nv)
            return
        h = getattr(self.ip.active, 'apply_effect', None)
        if h is not None and h(self.ip, obj, kind, es, it, x, conds):
            return
        raise NotSummarizable('effect %s' % kind)

    # ====================================================== truth and eq
    def truth(self, v):
        cx = self.cx
        if isinstance(v, Lst):
            cx.rd(v)
            if v.items is not None:
                return len(v.items) > 0
            return v.n > 0
        if isinstance(v, SetV):
            cx.rd(v)
            if v.codec is None:
                return False
            return self.nonempty(v)
        if isinstance(v, DictV):
            if v.pyd is not None:
                return len(v.pyd) > 0
        if isinstance(v, Arr):
            self.ip.implicit('ValueError', v.n == 1,
                             'truth value of an array')
            return self.ip.truthz(v.elem_codec().dec(cx, v.a[0]))
        if isinstance(v, ColDist):
            return v.total(self) != 0
        raise Unsupported('truth value of %s' % type(v).__name__)

    def nonempty(self, v):
        if v.codec.sort == I:
            return L.NE(v.s)
        cx = self.cx
        key = ('ne', v.s.get_id())
        if key in cx.memo:
            return cx.memo[key]
        b = cx.fresh('nonempty', B)
        w = cx.fresh('w', v.codec.sort)
        x = z3.Const('x?', v.codec.sort)
        cx.assume(z3.Implies(b, v.s[w]), z3.ForAll([x], z3.Implies(
            v.s[x], b), patterns=[v.s[x]]))
        cx.memo[key] = b
        return b

    def eq(self, a, b):
        cx = self.cx
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise2('Eq', a, b)
        if isinstance(a, VecV) or isinstance(b, VecV):
            return self.vec2('Eq', a, b)
        if isinstance(a, Lst) and isinstance(b, Lst):
            cx.rd(a)
            cx.rd(b)
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                rs = [self.ip.eq(x, y) for x, y in zip(a.items, b.items)]
                if all(isinstance(r, bool) for r in rs):
                    return all(rs)
                return z3.And(*[r if z3.is_expr(r) else z3.BoolVal(r)
                                for r in rs])
            # unknown beyond length
            e = cx.fresh('lists_equal', B)
            na = a.n if a.items is None else z3.IntVal(len(a.items))
            nb = b.n if b.items is None else z3.IntVal(len(b.items))
            cx.assume(z3.Implies(e, na == nb))
            return e
        if isinstance(a, SnapV) and isinstance(b, SnapV):
            return z3.And(a.n == b.n, a.a == b.a)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if a.codec is None or b.codec is None:
                c = b if a.codec is None else a
                if c.codec is None:
                    return True
                r = self.nonempty(c)
                return z3.Not(r)
            return a.s == b.s
        if isinstance(a, ZObj) and isinstance(b, ZObj):
            return a.z == b.z
        if isinstance(a, str) and isinstance(b, ZObj):
            return cx.str_const(a) == b.z
        if isinstance(b, str) and isinstance(a, ZObj):
            return cx.str_const(b) == a.z
        if isinstance(a, ColDist) and is_num(b):
            return a.total(self) == to_real(b)
        if isinstance(a, ItemsV) and isinstance(b, ItemsV) and \
                a.what == b.what == 'keys':
            return self.eq(self.keyset(a.d), self.keyset(b.d))
        h = getattr(self.ip.active, 'eq_hook', None)
        if h is not None:
            r = h(self.ip, a, b)
            if r is not None:
                return r
        if type(a) is not type(b) and not isinstance(a, Opaque) and \
                not isinstance(b, Opaque):
            return False
        if a is b:
            return True
        raise Unsupported('== on %s and %s' % (type(a).__name__,
                                               type(b).__name__))

    def keyset(self, d):
        if d.pyd is not None:
            return self.set_from_items(list(d.pyd))
        return SetV(self.cx, d.keys, d.kc)

    def contains(self, c, x):
        cx = self.cx
        if isinstance(c, Lst):
            cx.rd(c)
            if c.items is not None:
                r = False
                for v in c.items:
                    e = self.ip.eq(v, x)
                    if e is True:
                        return True
                    if e is False:
                        continue
                    r = e if r is False else z3.Or(r, e)
                return r
            bag, codec = self.bag_of(c)
            return bag[codec.enc(cx, x)] > 0
        if isinstance(c, SetV):
            cx.rd(c)
            if c.codec is None:
                return False
            return c.s[c.codec.enc(cx, x)]
        if isinstance(c, DictV):
            cx.rd(c)
            if c.pyd is not None:
                if z3.is_expr(x):
                    raise Unsupported('in on a concrete dict')
                return x in c.pyd
            return c.keys[c.kc.enc(cx, x)]
        if isinstance(c, Arr):
            return self.elems(c)[to_int(x)]
        if isinstance(c, tuple):
            r = False
            for v in c:
                e = self.ip.eq(v, x)
                if e is True:
                    return True
                if e is not False:
                    r = e if r is False else z3.Or(r, e)
            return r
        if isinstance(c, RangeV):
            return z3.And(to_int(c.lo) <= to_int(x), to_int(x) <
                          to_int(c.hi))
        if isinstance(c, ItemsV) and c.what == 'keys':
            return self.contains(c.d, x)
        if isinstance(c, ItemsV) and c.what == 'values':
            it = self.iterate(c)
            q = cx.fresh('q', it.sort)
            return z3.Exists([q], z3.And(it.dom(q), self.ip.eq(it.val(q),
                                                               x)))
        h = getattr(self.ip.active, 'contains_hook', None)
        if h is not None:
            r = h(self.ip, c, x)
            if r is not None:
                return r
        raise Unsupported('in on %s' % type(c).__name__)

    # ======================================================== arithmetic
    CMP = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y,
           'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
           'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}
    ARI = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
           'Mult': lambda x, y: x * y}

    def compare(self, op, a, b):
        if isinstance(a, VecV) or isinstance(b, VecV):
            return self.vec2(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise2(op, a, b)
        if isinstance(a, ColDist):
            return self.ip.compare(op, a.total(self), b)
        if isinstance(b, ColDist):
            return self.ip.compare(op, a, b.total(self))
        if isinstance(a, SetV) and isinstance(b, SetV) and \
                a.codec is not None and b.codec is not None:
            x = z3.Const('x?', a.codec.sort)
            if op in ('LtE', 'GtE'):
                p, q = (a, b) if op == 'LtE' else (b, a)
                return z3.ForAll([x], z3.Implies(p.s[x], q.s[x]))
        h = getattr(self.ip.active, 'binop_hook', None)
        if h is not None:
            r = h(self.ip, op, a, b)
            if r is not None:
                return r
        raise Unsupported('%s on %s, %s' % (op, type(a).__name__,
                                            type(b).__name__))

    def binop(self, op, a, b):
        cx = self.cx
        if isinstance(a, VecV) or isinstance(b, VecV):
            return self.vec2(op, a, b)
        if isinstance(a, ColDist) or isinstance(b, ColDist):
            a = a.total(self) if isinstance(a, ColDist) else a
            b = b.total(self) if isinstance(b, ColDist) else b
            return self.ip.binop(op, a, b)
        h = getattr(self.ip.active, 'binop_hook', None)
        if h is not None:
            r = h(self.ip, op, a, b)
            if r is not None:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise2(op, a, b)
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            return Opaque('str')
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.setop({'BitOr': 'union', 'BitAnd': 'intersection',
                               'Sub': 'difference'}.get(op), a, b)
        if isinstance(a, Lst) and isinstance(b, Lst) and op == 'Add':
            if a.items is not None and b.items is not None:
                return Lst(cx, items=a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        raise Unsupported('%s on %s, %s' % (op, type(a).__name__,
                                            type(b).__name__))

    def vec2(self, op, a, b):
        """elementwise operation on vectors (scalars are broadcast)"""
        cx = self.cx

        def at(v, c):
            if isinstance(v, VecV):
                return v.v[c]
            return to_real(v)
        m = a.m if isinstance(a, VecV) else b.m
        if op in self.CMP:
            return VecB(m, lambda c: self.CMP[op](at(a, c), at(b, c)))
        if op in self.ARI:
            return VecV(cx, m, cx.define_array(
                'vec', I, R, lambda c: self.ARI[op](at(a, c), at(b, c))))
        raise Unsupported('vector %s' % op)

    def elementwise2(self, op, a, b):
        cx = self.cx
        A = a if isinstance(a, Arr) else b
        if isinstance(a, Arr) and a.elem in (L.Row, L.RA) or \
                isinstance(b, Arr) and b.elem in (L.Row, L.RA):
            h = getattr(self.ip.active, 'matrix_op', None)
            if h is not None:
                r = h(self.ip, op, a, b)
                if r is not None:
                    return r
            raise Unsupported('elementwise operation on a matrix')

        def at(v, k):
            if isinstance(v, Arr):
                return v.a[k]
            return to_z(v)
        if isinstance(a, Arr) and isinstance(b, Arr):
            self.ip.implicit('ValueError', a.n == b.n,
                             'operands have equal length')
        if b is None or a is None:
            raise Unsupported('array compared with None')
        if not isinstance(a, Arr) and not is_num(a) or \
                not isinstance(b, Arr) and not is_num(b):
            raise Unsupported('elementwise operand')

        def two(k):
            return num2(at(a, k), at(b, k))
        if op in self.CMP:
            arr = cx.define_array('mask', I, B,
                                  lambda k: self.CMP[op](*two(k)))
            meta = {}
            if op == 'Eq' and isinstance(a, Arr) and a.elem == I and \
                    not isinstance(b, Arr) and to_z(b).sort() == I:
                meta = {'eq': (a.a, a.n, to_z(b))}
            elif op == 'Eq' and isinstance(b, Arr) and b.elem == I and \
                    not isinstance(a, Arr) and to_z(a).sort() == I:
                meta = {'eq': (b.a, b.n, to_z(a))}
            return Arr(cx, A.n, arr, meta=meta)
        if op in self.ARI:
            x = z3.Int('i?')
            s = self.ARI[op](*two(x)).sort()
            arr = cx.define_array('ew', I, s, lambda k: self.ARI[op](*two(k)))
            if op == 'Add' and s == I and (isinstance(a, Arr) !=
                                           isinstance(b, Arr)):
                self.shift_facts(A, arr, to_int(b if A is a else a))
            return Arr(cx, A.n, arr)
        if op in ('BitAnd', 'BitOr'):
            arr = cx.define_array('mask', I, B, lambda k: (
                z3.And if op == 'BitAnd' else z3.Or)(at(a, k), at(b, k)))
            return Arr(cx, A.n, arr)
        raise Unsupported('elementwise %s' % op)

    def shift_facts(self, A, arr, d):
        """lemma: adding a constant to every label renames the regions"""
        cx = self.cx
        r = z3.Int('r?')
        cx.assume(z3.ForAll([r], L.Region(arr, A.n, r) ==
                            L.Region(A.a, A.n, r - d),
                            patterns=[L.Region(arr, A.n, r)]))
        cx.assume(z3.ForAll([r], L.LabelSet(arr, A.n)[r] ==
                            L.LabelSet(A.a, A.n)[r - d],
                            patterns=[L.LabelSet(arr, A.n)[r]]))

    def elementwise1(self, op, v):
        cx = self.cx
        if isinstance(v, Arr):
            if op == 'neg':
                arr = cx.define_array('neg', I, v.elem, lambda k: -v.a[k])
                meta = {}
                if 'const' in v.meta:
                    meta['const'] = z3.simplify(-v.meta['const'])
                return Arr(cx, v.n, arr, meta=meta, floaty=v.floaty)
            if op == 'not' and v.elem == B:
                arr = cx.define_array('not', I, B, lambda k: z3.Not(v.a[k]))
                return Arr(cx, v.n, arr)
        if isinstance(v, VecB) and op == 'not':
            return VecB(v.m, lambda c: z3.Not(v.f(c)))
        h = getattr(self.ip.active, 'unop_hook', None)
        if h is not None:
            r = h(self.ip, op, v)
            if r is not None:
                return r
        raise Unsupported('%s on %s' % (op, type(v).__name__))

    def inplace(self, op, old, rhs):
        """in-place operators on mutable values; None if not applicable"""
        cx = self.cx
        if isinstance(old, VecV) and op in self.ARI:
            new = self.vec2(op, old, rhs)
            if old.home is not None:
                arr, k = old.home
                cx.wr(arr, 'a', z3.Store(arr.a, k, new.v))
            else:
                cx.wr(old, '_v', new.v)
            return True
        if isinstance(old, SetV) and op in ('BitOr', 'Sub', 'BitAnd'):
            self.method(old, {'BitOr': 'update', 'Sub': 'difference_update',
                              'BitAnd': 'intersection_update'}[op],
                        [rhs], {}, None)
            return True
        if isinstance(old, Lst) and op == 'Add':
            self.method(old, 'extend', [rhs], {}, None)
            return True
        if isinstance(old, Arr) and op in self.ARI:
            new = self.elementwise2(op, old, rhs)
            cx.wr(old, 'a', new.a)
            cx.wr(old, 'meta', {})
            return True
        h = getattr(self.ip.active, 'inplace_hook', None)
        if h is not None and h(self.ip, op, old, rhs):
            return True
        return None

    def unpack(self, v, n):
        if isinstance(v, Arr):
            self.ip.implicit('ValueError', v.n == n, 'unpacking')
            c = v.elem_codec()
            return [c.dec(self.cx, v.a[k]) for k in range(n)]
        raise Unsupported('unpacking %s' % type(v).__name__)

    # ========================================================== indexing
    def getitem(self, o, k):
        cx, ip = self.cx, self.ip
        h = getattr(ip.active, 'getitem_hook', None)
        if h is not None:
            r = h(ip, o, k)
            if r is not None:
                return r[0]
        if isinstance(o, GraphSel) and isinstance(k, tuple) and len(k) == 2:
            full = ('slice', None, None, None)
            sel, other = (o.rows, k[1]) if o.cols is None else (o.cols, k[0])
            if (k[0] if o.cols is None else k[1])[:4] == full and \
                    isinstance(other, Arr) and sel is not None:
                if other.elem == B:
                    ip.implicit('IndexError', other.n == o.G.n, 'mask length')
                if self.pos_array(other).a.eq(sel.a):
                    return self.subgraph(o.G, sel)
            raise Unsupported('indexing of selected rows')
        if isinstance(o, tuple):
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    ip.implicit('IndexError', False, 'tuple index')
                    raise PathEnd()
                return o[k]
            if isinstance(k, tuple) and k[0] == 'slice':
                return o[slice(k[1], k[2], k[3])]
            raise Unsupported('tuple index')
        if isinstance(o, Lst):
            cx.rd(o)
            return self.list_get(o, k)
        if isinstance(o, DictV):
            cx.rd(o)
            if o.pyd is not None:
                if z3.is_expr(k):
                    raise Unsupported('symbolic key of a concrete dict')
                if k not in o.pyd:
                    ip.implicit('KeyError', False, 'key %r' % (k,))
                    raise PathEnd()
                return o.pyd[k]
            e = o.kc.enc(cx, k)
            ip.implicit('KeyError', o.keys[e], 'dict key present')
            return o.vc.dec(cx, o.vals[e], home=(o, e)
                            if o.vc.name == SetC.name else None)
        if isinstance(o, Arr):
            return self.arr_get(o, k)
        if isinstance(o, GraphV):
            return self.graph_get(o, k)
        if isinstance(o, SnapV):
            kk = to_int(k)
            ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n), 'index')
            return o.a[kk]
        if isinstance(o, GRow):
            raise Unsupported('matrix row element')
        if isinstance(o, VecV) and is_num(k):
            return o.v[to_int(k)]
        if isinstance(o, SeqV):
            kk = to_int(k)
            ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n), 'index')
            return o.get(kk)
        raise Unsupported('indexing %s' % type(o).__name__)

    def list_get(self, o, k):
        cx, ip = self.cx, self.ip
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
            if o.items is not None and all(
                    x is None or isinstance(x, int) for x in k[1:]):
                return Lst(cx, items=o.items[slice(*k[1:])])
            # a slice: some sub-multiset of the elements
            bag, c = self.bag_of(o)
            if c is None:
                return Lst(cx, items=[])
            r = Lst(cx, codec=c)
            n = cx.fresh('sl.len', I)
            nb = cx.fresh('sl.bag', z3.ArraySort(c.sort, I))
            r.items, r.n, r.bag, r.seq = None, n, nb, None
            x = z3.Const('x?', c.sort)
            cx.assume(n >= 0, n <= to_int(o.n if o.items is None
                                          else len(o.items)))
            cx.assume(z3.ForAll([x], z3.And(0 <= nb[x], nb[x] <= bag[x]),
                                patterns=[nb[x]]))
            w = cx.fresh('w', c.sort)
            cx.assume(z3.Implies(n > 0, nb[w] > 0))
            return r
        if o.items is not None:
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    ip.implicit('IndexError', False, 'list index')
                    raise PathEnd()
                return o.items[k]
            self.to_sym(o)
        kk = to_int(k)
        neg = isinstance(k, int) and k < 0
        ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n) if not neg
                    else o.n >= -k, 'list index in range')
        if neg:
            kk = o.n + kk
        if o.seq is not None:
            e = o.seq[kk]
            if o.bag is not None:
                cx.assume(o.bag[e] > 0)
            return o.codec.dec(cx, e, home=self.lhome(o, kk))
        e = cx.fresh('el', o.codec.sort)
        cx.assume(o.bag[e] > 0)
        return o.codec.dec(cx, e)

    def arr_get(self, o, k):
        cx, ip = self.cx, self.ip
        if is_num(k):
            kk = to_int(k)
            if isinstance(k, int) and k < 0:
                ip.implicit('IndexError', o.n >= -k, 'array index')
                kk = o.n + kk
            else:
                ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n),
                            'array index in range')
            c = o.elem_codec()
            if c is None:
                raise Unsupported('array element')
            if 'idx' in o.meta:
                pass
            return c.dec(cx, o.a[kk], home=(o, kk) if c.name == 'vec'
                         else None)
        if isinstance(k, tuple) and len(k) == 2 and \
                isinstance(k[0], tuple) and k[0][0] == 'slice' and \
                k[1] is None:
            return ColV(o)
        if isinstance(k, Arr):
            if k.elem == B:
                ip.implicit('IndexError', k.n == o.n, 'mask length')
                return self.take_mask(o, k)
            if k.elem == I:
                return self.take_idx(o, k)
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice' and \
                k[1] is None and k[2] is None and k[3] is None:
            return o
        raise Unsupported('array indexing')

    def mask_set(self, mask):
        cx = self.cx
        if 'eq' in mask.meta:
            a, n, r = mask.meta['eq']
            return L.Region(a, n, r)
        S = cx.define_set('S', I, lambda k: z3.And(0 <= k, k < mask.n,
                                                   mask.a[k]))
        cx.assume(L.Fin(S))
        return S

    def take_mask(self, o, mask):
        """o[mask] for a boolean mask"""
        cx = self.cx
        if 'idx' in o.meta:
            S, inv = o.meta['idx']
            S2 = cx.define_set('S', I, lambda x: z3.And(S[x],
                                                        mask.a[inv[x]]))
            r = self.idx_array(S2)
            return r
        pos = self.idx_array(self.mask_set(mask))
        return self.take_idx(o, pos)

    def take_idx(self, o, idx):
        """o[idx] for an integer index array"""
        cx, ip = self.cx, self.ip
        k = z3.Int('k?')
        if 'idx' in idx.meta:
            S = idx.meta['idx'][0]
            x = z3.Int('x?')
            ip.implicit('IndexError', z3.ForAll([x], z3.Implies(
                S[x], z3.And(0 <= x, x < o.n))), 'index array in range')
        else:
            S = None
            ip.implicit('IndexError', z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < idx.n), z3.And(0 <= idx.a[k],
                                                  idx.a[k] < o.n))),
                'index array in range')
        a = cx.define_array('take', I, o.elem, lambda q: o.a[idx.a[q]])
        meta = {}
        if S is not None:
            meta['rows'] = (S, o.a)
            meta['take'] = (o.a, idx)
            if o.elem == I:
                # lemma: regions of the taken labels
                inv = idx.meta['idx'][1]
                r = z3.Int('r?')
                cx.assume(z3.ForAll([r, k], z3.Implies(
                    L.Region(a, idx.n, r)[k],
                    L.Region(o.a, o.n, r)[idx.a[k]]),
                    patterns=[L.Region(a, idx.n, r)[k]]))
                x = z3.Int('x?')
                cx.assume(z3.ForAll([r], z3.Implies(
                    z3.ForAll([x], z3.Implies(
                        L.Region(o.a, o.n, r)[x], S[x]),
                        patterns=[L.Region(o.a, o.n, r)[x]]),
                    L.Img(S, inv, L.Region(a, idx.n, r)) ==
                    L.Region(o.a, o.n, r)),
                    patterns=[L.Region(a, idx.n, r)]))
        return Arr(cx, idx.n, a, meta=meta, m=o.m)

    def graph_get(self, o, k):
        cx, ip = self.cx, self.ip
        if is_num(k):
            kk = to_int(k)
            ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n),
                        'matrix row in range')
            return GRow(o, kk)
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, ColV) and isinstance(b, ColV) and \
                    not a.t and b.t and (a.arr is b.arr or
                                         a.arr.a.eq(b.arr.a)):
                return self.subgraph(o, a.arr)
            if is_num(a) and is_num(b):
                return z3.If(o.g[to_int(a)][to_int(b)], z3.IntVal(1),
                             z3.IntVal(0))
            if isinstance(a, tuple) and a[0] == 'slice' and \
                    a[1:] == (None, None, None) and isinstance(b, Arr):
                if isinstance(o.meta.get('rowsel'), Arr) and \
                        o.meta['rowsel'].a.eq(b.a):
                    return self.subgraph(o.meta['rowsel_of'],
                                         self.pos_array(b))
                return GraphSel(o, None, self.pos_array(b))
            if isinstance(b, tuple) and b[0] == 'slice' and \
                    b[1:] == (None, None, None) and isinstance(a, Arr):
                return GraphSel(o, self.pos_array(a), None)
        if isinstance(k, Arr):
            return GraphSel(o, self.pos_array(k), None)
        raise Unsupported('matrix indexing')

    def pos_array(self, k):
        if k.elem == B:
            return self.idx_array(self.mask_set(k))
        return k

    def subgraph(self, G, idx):
        """induced subgraph on an index array (rows and columns)"""
        cx = self.cx
        if 'idx' not in idx.meta:
            raise Unsupported('subgraph on possibly repeated nodes')
        S, inv = idx.meta['idx']
        x = z3.Int('x?')
        self.ip.implicit('IndexError', z3.ForAll([x], z3.Implies(
            S[x], z3.And(0 <= x, x < G.n))), 'subgraph nodes in range')
        g = L.SubG(G.g, idx.a, idx.n)
        T = z3.Const('T?', L.SetI)
        k = z3.Int('k?')
        # lemma conn_sub (idx enumerates S, inv is its inverse)
        cx.assume(z3.ForAll([T], z3.Implies(
            z3.ForAll([k], z3.Implies(T[k], z3.And(0 <= k, k < idx.n))),
            L.Conn(g, T) == L.Conn(G.g, L.Img(S, inv, T))),
            patterns=[L.Conn(g, T)]))
        cx.assume(L.Img(S, inv, L.AllSet(idx.n)) == S)
        return GraphV(cx, idx.n, g, meta={'sub': (G, idx)})

    def setitem(self, o, k, v):
        cx, ip = self.cx, self.ip
        h = getattr(ip.active, 'setitem_hook', None)
        if h is not None and h(ip, o, k, v):
            return
        if isinstance(o, Arr):
            if is_num(k):
                kk = to_int(k)
                ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n),
                            'array index in range')
                if o.elem == I:
                    e = to_int(v)
                elif o.elem == R:
                    e = to_real(v)
                else:
                    e = o.elem_codec().enc(cx, v)
                cx.wr(o, 'a', z3.Store(o.a, kk, e))
                cx.wr(o, 'meta', {})
                return
            if isinstance(k, Arr):
                idx = self.pos_array(k)
                if k.elem == B:
                    ip.implicit('IndexError', k.n == o.n, 'mask length')
                return self.put(o, idx, v)
            raise Unsupported('array store')
        if isinstance(o, DictV):
            if cx.effect(o, 'setkey', k, v):
                return
            if o.pyd is not None and not z3.is_expr(k) and \
                    not isinstance(k, ZObj):
                d = dict(o.pyd)
                d[k] = v
                cx.wr(o, 'pyd', d)
                return
            if o.pyd is not None and not o.pyd:
                kc, vc = codec_for(k), codec_for(v)
                cx.wr(o, 'kc', kc)
                cx.wr(o, 'vc', vc)
                cx.wr(o, 'keys', z3.K(kc.sort, z3.BoolVal(False)))
                cx.wr(o, 'vals', cx.fresh('dv', z3.ArraySort(kc.sort,
                                                             vc.sort)))
                cx.wr(o, 'pyd', None)
            elif o.pyd is not None:
                raise Unsupported('mixed dict')
            e = o.kc.enc(cx, k)
            cx.wr(o, 'keys', z3.Store(o.keys, e, z3.BoolVal(True)))
            cx.wr(o, 'vals', z3.Store(o.vals, e, o.vc.enc(cx, v)))
            cx.wr(o, 'epoch', o.epoch + 1)
            if isinstance(v, SetV):
                v.frozen = True     # now shared with the dict
            return
        if isinstance(o, GraphV):
            if isinstance(k, tuple) and len(k) == 2 and is_num(k[0]) and \
                    is_num(k[1]):
                i, j = to_int(k[0]), to_int(k[1])
                b = z3.simplify(to_real(to_z(v)) != 0)
                ip.implicit('IndexError', z3.And(0 <= i, i < o.n, 0 <= j,
                                                 j < o.n), 'link in range')
                g = o.g
                h = z3.Store(g, i, z3.Store(g[i], j, b))
                meta = {}
                if z3.is_false(b):
                    # lemma link_removed
                    S = z3.Const('S?', L.SetI)
                    cx.assume(
                        z3.Implies(z3.And(L.Forest(g, o.n), g[i][j]), z3.And(
                            L.Forest(h, o.n), L.NLinks(h, o.n) ==
                            L.NLinks(g, o.n) - 1)),
                        z3.ForAll([S], z3.Implies(L.Conn(h, S),
                                                  L.Conn(g, S)),
                                  patterns=[L.Conn(h, S)]))
                    meta = {'zeros': True}     # a stored zero
                cx.wr(o, 'g', h)
                cx.wr(o, 'meta', meta)
                return
        if isinstance(o, Lst):
            if o.items is not None and isinstance(k, int):
                it = list(o.items)
                it[k] = v
                cx.wr(o, 'items', it)
                return
            if o.seq is not None:
                kk = to_int(k)
                ip.implicit('IndexError', z3.And(0 <= kk, kk < o.n),
                            'list index in range')
                cx.wr(o, 'seq', z3.Store(o.seq, kk, o.codec.enc(cx, v)))
                cx.wr(o, 'bag', None)
                return
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def put(self, o, idx, v):
        """o[idx] = v (fancy store)"""
        cx, ip = self.cx, self.ip
        if 'idx' not in idx.meta:
            raise Unsupported('fancy store with repeated indices')
        S, inv = idx.meta['idx']
        x = z3.Int('x?')
        ip.implicit('IndexError', z3.ForAll([x], z3.Implies(
            S[x], z3.And(0 <= x, x < o.n))), 'index array in range')
        if isinstance(v, Arr):
            ip.implicit('ValueError', v.n == idx.n, 'shapes match in store')
            conv = to_int if o.elem == I else to_real if o.elem == R \
                else (lambda z: z)
            src = v.a
            # storing a[idx'] at the same idx copies the elements
            if 'take' in v.meta and v.meta['take'][1].a.eq(idx.a):
                base = v.meta['take'][0]
                a = cx.define_array('put', I, o.elem, lambda i: z3.If(
                    S[i], conv(base[i]), o.a[i]))
            else:
                a = cx.define_array('put', I, o.elem, lambda i: z3.If(
                    S[i], conv(src[inv[i]]), o.a[i]))
            if o.elem == I and v.elem == I:
                self.put_lemmas(a, o, S, inv, v)
        else:
            e = to_int(v) if o.elem == I else to_real(v)
            a = cx.define_array('put', I, o.elem, lambda i: z3.If(
                S[i], e, o.a[i]))
        cx.wr(o, 'a', a)
        cx.wr(o, 'meta', {})

    def put_lemmas(self, a, o, S, inv, v):
        """regions of the labels after the areas S got the labels v

        lemma put_regions: a[x] = S[x] ? v[inv[x]] : o[x], inv is onto"""
        r, i, j = z3.Ints('r? i? j?')
        n, A, src, m = o.n, o.a, v.a, v.n
        cx = self.cx
        cx.assume(z3.ForAll([r], z3.Implies(
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, A[i] == r),
                                      S[i]), patterns=[A[i]]),
            L.Region(a, n, r) == L.Img(S, inv, L.Region(src, m, r))),
            patterns=[L.Region(a, n, r)]))
        cx.assume(z3.ForAll([r], z3.Implies(
            z3.And(z3.Not(L.LabelSet(src, m)[r]),
                   z3.ForAll([i], z3.Implies(S[i], A[i] != r),
                             patterns=[S[i]])),
            L.Region(a, n, r) == L.Region(A, n, r)),
            patterns=[L.Region(a, n, r)]))
        LS = L.LabelSet(a, n)
        w = L.lab_w(a, n, r)
        cx.assume(
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(S[i])),
                                      LS[A[i]]), patterns=[A[i]]),
            z3.ForAll([r], z3.Implies(L.LabelSet(src, m)[r], LS[r]),
                      patterns=[L.LabelSet(src, m)[r], LS[r]]),
            z3.ForAll([r], z3.Implies(LS[r], z3.Or(
                L.LabelSet(src, m)[r], z3.And(
                    0 <= w, w < n, z3.Not(S[w]), A[w] == r))),
                patterns=[LS[r]]))
        h = getattr(self.ip.active, 'after_put', None)
        if h is not None:
            for name, f in h(self.ip, o, a, S, inv, v):
                cx.oblige(f, 'ghost: ' + name)
                cx.assume(f)

    # ====================================================== attributes
    def lib_attr(self, o, name):
        full = o.name + '.' + name
        from .source import canon
        full = canon(full)
        if full in ('numpy.inf', 'math.inf'):
            return float('inf')
        if full == 'numpy.nan':
            return Opaque('nan')
        if full == 'pulp.LpStatusOptimal':
            return 1
        return LibV(full)

    def getattr_hook(self, o, name):
        h = getattr(self.ip.active, 'getattr_hook', None)
        return h(self.ip, o, name) if h is not None else None

    def setattr_hook(self, o, name, v):
        h = getattr(self.ip.active, 'setattr_hook', None)
        return h(self.ip, o, name, v) if h is not None else None

    def value_attr(self, o, name):
        cx = self.cx
        h = getattr(self.ip.active, 'value_attr_hook', None)
        if h is not None:
            r = h(self.ip, o, name)
            if r is not None:
                return r[0]
        if hasattr(o, 'py_attr'):
            r = o.py_attr(self.ip, name)
            if r is not None:
                return r[0]
        if isinstance(o, Arr):
            if name == 'shape':
                return (o.n,) if o.elem in (I, R, B) else \
                    (o.n, Opaque('width'))
            if name == 'ndim':
                if o.elem in (I, R, B):
                    return 1
                key = ('ndim', o.uid)
                if 'ndim' in o.meta:
                    return o.meta['ndim']
                nd = cx.fresh('ndim', I)
                cx.assume(nd >= 1, nd <= 2)
                o.meta['ndim'] = nd
                return nd
            if name == 'size':
                return o.n
            if name == 'T':
                return o
            if name == 'dtype':
                return Opaque('dtype')
        if isinstance(o, ColV) and name == 'T':
            return ColV(o.arr, not o.t)
        if isinstance(o, GraphV) and name == 'shape':
            return (o.n, o.n)
        if isinstance(o, Lst) and name == 'maxlen':
            return o.maxlen
        if isinstance(o, FuncV):
            if name in ('__doc__', '__name__'):
                return Opaque('str')
        if isinstance(o, Opaque) and name in getattr(o, 'fields', {}):
            return o.fields[name]
        return MethV(o, name)

    # ============================================================ methods
    def method(self, o, name, args, kw, node):
        cx, ip = self.cx, self.ip
        h = getattr(ip.active, 'method_hook', None)
        if h is not None:
            r = h(ip, o, name, args, kw)
            if r is not None:
                return r[0]
        if hasattr(o, 'py_method'):
            return o.py_method(ip, name, args, kw)
        for cls in type(o).__mro__:
            m = getattr(self, 'm_%s_%s' % (cls.__name__, name), None)
            if m is not None:
                return m(o, *args, **kw)
        raise Unsupported('method %s.%s' % (type(o).__name__, name))

    # --- lists
    def m_Lst_append(self, o, v):
        cx = self.cx
        if cx.effect(o, 'append', v):
            return None
        cx.rd(o)
        if o.items is not None and o.maxlen is None:
            cx.wr(o, 'items', o.items + [v])
            return None
        if o.maxlen is not None:
            return self.deque_append(o, v)
        bag, c = self.bag_of(o)
        e = o.codec.enc(cx, v)
        if o.seq is not None:
            cx.wr(o, 'seq', z3.Store(o.seq, o.n, e))
        cx.wr(o, 'bag', z3.Store(bag, e, bag[e] + 1))
        cx.wr(o, 'n', o.n + 1)
        cx.wr(o, 'meta', {})
        return None

    def deque_append(self, o, v):
        """bounded deque: the oldest elements may be dropped"""
        cx = self.cx
        if o.items is not None:
            c = join_codec(o.codec, codec_for(v))
            if o.items:
                self.to_sym(o)
            else:
                cx.wr(o, 'codec', c)
                cx.wr(o, 'n', z3.IntVal(0))
                cx.wr(o, 'bag', z3.K(c.sort, z3.IntVal(0)))
                cx.wr(o, 'items', None)
        c = o.codec
        e = c.enc(cx, v)
        nb = cx.fresh('deque', z3.ArraySort(c.sort, I))
        n = cx.fresh('deque.len', I)
        x = z3.Const('x?', c.sort)
        ob = o.bag
        cx.assume(z3.ForAll([x], z3.And(0 <= nb[x], nb[x] <= ob[x] + z3.If(
            x == e, z3.IntVal(1), z3.IntVal(0)), z3.Implies(
                nb[x] > 0, n > 0)), patterns=[nb[x]]))
        cx.assume(n >= 0, n <= o.n + 1)
        cx.wr(o, 'bag', nb)
        cx.wr(o, 'n', n)
        cx.wr(o, 'seq', None)
        return None

    def m_Lst_extend(self, o, v):
        cx = self.cx
        it = self.iterate(v)
        if it.concrete is not None:
            for x in it.concrete:
                self.m_Lst_append(o, x)
            return None
        if cx.summary is not None and o.uid <= cx.summary['mark']:
            raise NotSummarizable('extend')
        # bag union
        if isinstance(v, SetV):
            c, f = v.codec, (lambda y: z3.If(v.s[y], z3.IntVal(1),
                                             z3.IntVal(0)))
            extra = L.Card(v.s) if c.sort == I else cx.fresh('len', I)
            ne = self.nonempty(v)
        elif isinstance(v, Lst):
            b2, c = self.bag_of(v)
            f, extra, ne = (lambda y: b2[y]), v.n, v.n > 0
        else:
            raise Unsupported('extend')
        if o.items == []:
            codec = join_codec(o.codec, c)
            nb = cx.define_array('ext', codec.sort, I, f)
            n0 = z3.IntVal(0)
        else:
            if o.items is not None:
                self.to_sym(o)
            codec = join_codec(o.codec, c)
            ob, _ = self.bag_of(o)
            nb = cx.define_array('ext', codec.sort, I,
                                 lambda y: ob[y] + f(y))
            n0 = o.n
        n = cx.fresh('ext.len', I)
        cx.assume(n >= n0, (n > n0) == ne, n == n0 + extra)
        cx.wr(o, 'codec', codec)
        cx.wr(o, 'items', None)
        cx.wr(o, 'bag', nb)
        cx.wr(o, 'seq', None)
        cx.wr(o, 'n', n)
        cx.wr(o, 'meta', {})
        return None

    def m_Lst_pop(self, o, pos=None):
        cx, ip = self.cx, self.ip
        cx.rd(o)
        if o.items is not None:
            if pos is None or isinstance(pos, int):
                p = -1 if pos is None else pos
                if not -len(o.items) <= p < len(o.items):
                    ip.implicit('IndexError', False, 'pop')
                    raise PathEnd()
                it = list(o.items)
                v = it.pop(p)
                cx.wr(o, 'items', it)
                return v
            self.to_sym(o)
        bag, c = self.bag_of(o)
        if pos is None:
            ip.implicit('IndexError', o.n > 0, 'pop from empty list')
        else:
            p = to_int(pos)
            ip.implicit('IndexError', z3.And(-o.n <= p, p < o.n),
                        'pop index in range')
        if o.seq is not None and pos is None:
            e = o.seq[o.n - 1]
            cx.assume(bag[e] > 0)
        elif o.seq is not None and isinstance(pos, z3.ExprRef):
            e = cx.fresh('popped', c.sort)
            cx.assume(e == o.seq[z3.If(to_int(pos) < 0, o.n + to_int(pos),
                                       to_int(pos))])
            cx.assume(bag[e] > 0)
            cx.wr(o, 'seq', None)
        else:
            e = cx.fresh('popped', c.sort)
            cx.assume(bag[e] > 0)
            cx.wr(o, 'seq', None)
        self.bag_decrease(o, bag, e, c)
        return c.dec(cx, e)

    def bag_decrease(self, o, bag, e, c):
        cx = self.cx
        nb = z3.Store(bag, e, bag[e] - 1)
        cx.wr(o, 'bag', nb)
        cx.wr(o, 'n', o.n - 1)
        cx.assume(o.n >= 0)
        x = z3.Const('x?', c.sort)
        w = cx.fresh('w', c.sort)
        cx.assume(z3.Implies(o.n > 0, nb[w] > 0))
        cx.assume(z3.ForAll([x], z3.Implies(nb[x] > 0, o.n > 0),
                            patterns=[nb[x]]))
        m = dict(o.meta)
        cx.wr(o, 'meta', {'distinct': True} if m.get('distinct') else {})

    def m_Lst_remove(self, o, v):
        cx, ip = self.cx, self.ip
        cx.rd(o)
        if o.items is not None:
            self.to_sym(o)
        bag, c = self.bag_of(o)
        e = c.enc(cx, v)
        ip.implicit('ValueError', bag[e] > 0, 'list.remove: element present')
        cx.wr(o, 'seq', None)
        self.bag_decrease(o, bag, e, c)
        return None

    def m_Lst_copy(self, o):
        cx = self.cx
        cx.rd(o)
        r = Lst(cx, items=list(o.items) if o.items is not None else None,
                n=o.n, bag=o.bag, seq=o.seq, codec=o.codec, maxlen=o.maxlen)
        r.meta = dict(o.meta)
        if o.codec is not None and o.codec.name == SetC.name:
            raise Unsupported('copy of a list of sets')
        return r

    def m_Lst_count(self, o, v):
        cx = self.cx
        cx.rd(o)
        bag, c = self.bag_of(o)
        if c is None:
            return 0
        r = bag[c.enc(cx, v)]
        cx.assume(r >= 0)
        return r

    def m_Lst_index(self, o, v):
        cx, ip = self.cx, self.ip
        cx.rd(o)
        bag, c = self.bag_of(o)
        if c is None:
            ip.implicit('ValueError', False, 'list.index')
            raise PathEnd()
        ip.implicit('ValueError', bag[c.enc(cx, v)] > 0,
                    'list.index: element present')
        k = cx.fresh('index', I)
        cx.assume(0 <= k, k < to_int(o.n if o.items is None
                                     else len(o.items)))
        if o.seq is not None:
            cx.assume(o.seq[k] == c.enc(cx, v))
        return k

    def m_Lst_sort(self, o, key=None, reverse=False):
        cx = self.cx
        if o.items is not None:
            self.to_sym(o)
        self.bag_of(o)
        cx.wr(o, 'seq', None)

    # --- sets
    def as_set(self, v, codec=None):
        """the elements of an iterable as (z3 set, codec)"""
        cx = self.cx
        if isinstance(v, SetV):
            cx.rd(v)
            return v.s if v.codec is not None else None, v.codec
        if isinstance(v, Arr) and v.elem == I:
            return self.elems(v), IntC()
        if isinstance(v, Lst):
            cx.rd(v)
            bag, c = self.bag_of(v)
            if c is None:
                return None, None
            if v.items is not None:
                s = self.set_from_items(v.items)
                return s.s, s.codec
            s = cx.define_set('els', c.sort, lambda x: bag[x] > 0)
            if c.sort == I:
                cx.assume(L.Fin(s))
            return s, c
        if isinstance(v, CompV):
            s = self.comp_set(self.run_comp(v.node, v.frame))
            return (s.s if s.codec is not None else None), s.codec
        if isinstance(v, tuple):
            s = self.set_from_items(list(v))
            return (s.s if s.codec is not None else None), s.codec
        if isinstance(v, RangeV):
            lo, hi = to_int(v.lo), to_int(v.hi)
            if z3.is_int_value(lo) and lo.as_long() == 0:
                return L.AllSet(hi), IntC()
            return cx.define_set('rng', I, lambda x: z3.And(
                lo <= x, x < hi)), IntC()
        if isinstance(v, DictV):
            s = self.keyset(v)
            return (s.s if s.codec is not None else None), s.codec
        if isinstance(v, ItemsV) and v.what == 'keys':
            return self.as_set(v.d)
        h = getattr(self.ip.active, 'as_set_hook', None)
        if h is not None:
            r = h(self.ip, v)
            if r is not None:
                return r
        it = self.iterate(v)
        if it.concrete is not None:
            s = self.set_from_items(it.concrete)
            return (s.s if s.codec is not None else None), s.codec
        raise Unsupported('set of %s' % type(v).__name__)

    def setop(self, op, a, b):
        cx = self.cx
        s, c = self.as_set(a)
        t, d = self.as_set(b)
        if c is None or d is None:
            if op == 'union':
                return SetV(cx, t if c is None else s, d if c is None else c)
            if op == 'difference':
                return SetV(cx, s, c)
            return SetV(cx, None, None)
        if c != d:
            raise Unsupported('sets of different element types')
        f = {'union': lambda x: z3.Or(s[x], t[x]),
             'intersection': lambda x: z3.And(s[x], t[x]),
             'difference': lambda x: z3.And(s[x], z3.Not(t[x])),
             'symmetric_difference': lambda x: z3.Xor(s[x], t[x])}[op]
        r = cx.define_set(op[:4], c.sort, f)
        if c.sort == I:
            if op == 'union':
                cx.assume(z3.Implies(z3.And(L.Fin(s), L.Fin(t)), L.Fin(r)))
            else:
                cx.assume(z3.Implies(L.Fin(s), L.Fin(r)))
        return SetV(cx, r, c)

    def m_SetV_union(self, o, *a):
        for x in a:
            o = self.setop('union', o, x)
        return o

    def m_SetV_difference(self, o, *a):
        for x in a:
            o = self.setop('difference', o, x)
        return o if a else self.m_SetV_copy(o)

    def m_SetV_intersection(self, o, x):
        return self.setop('intersection', o, x)

    def m_SetV_copy(self, o):
        self.cx.rd(o)
        return SetV(self.cx, o.s if o.codec is not None else None, o.codec)

    def m_SetV_isdisjoint(self, o, x):
        s, c = self.as_set(o)
        t, d = self.as_set(x)
        if c is None or d is None:
            return True
        y = z3.Const('y?', c.sort)
        return z3.ForAll([y], z3.Not(z3.And(s[y], t[y])))

    def m_SetV_issubset(self, o, x):
        s, c = self.as_set(o)
        t, d = self.as_set(x)
        if c is None:
            return True
        y = z3.Const('y?', c.sort)
        return z3.ForAll([y], z3.Implies(s[y], t[y] if d is not None
                                         else z3.BoolVal(False)))

    def m_SetV_issuperset(self, o, x):
        return self.m_SetV_issubset(SetV(self.cx, *self.as_set(x)), o)

    def set_write(self, o, s, c):
        cx = self.cx
        if o.home is not None:
            cont, key = o.home
            if cont.epoch != o.epoch:
                raise Unsupported('stale alias of a set inside a container')
            if isinstance(cont, Lst):
                cx.wr(cont, 'seq', z3.Store(cont.seq, key, s))
                cx.wr(cont, 'bag', None)
            else:
                cx.wr(cont, 'vals', z3.Store(cont.vals, key, s))
            return
        cx.wr(o, 'codec', c)
        cx.wr(o, '_s', s)

    def m_SetV_add(self, o, v):
        cx = self.cx
        c = join_codec(o.codec, codec_for(v))
        e = c.enc(cx, v)
        if o.home is None and cx.effect(
                o, 'union', self.set_insert(self.empty(c.sort), e, c), c):
            return None
        cx.rd(o)
        s = o.s if o.codec is not None else self.empty(c.sort)
        self.set_write(o, self.set_insert(s, e, c), c)

    def m_SetV_update(self, o, *vs):
        cx = self.cx
        for v in vs:
            t, d = self.as_set(v)
            if d is None:
                continue
            if o.home is None and cx.effect(o, 'union', t, d):
                continue
            cx.rd(o)
            if o.codec is None:
                self.set_write(o, t, d)
            else:
                r = self.setop('union', o, SetV(cx, t, d))
                self.set_write(o, r.s, r.codec)

    def m_SetV_difference_update(self, o, *vs):
        cx = self.cx
        cx.rd(o)
        for v in vs:
            r = self.setop('difference', o, v)
            if r.codec is not None:
                self.set_write(o, r.s, r.codec)

    def m_SetV_intersection_update(self, o, v):
        cx = self.cx
        cx.rd(o)
        r = self.setop('intersection', o, v)
        if r.codec is None:
            raise Unsupported('intersection with an empty literal')
        self.set_write(o, r.s, r.codec)

    def m_SetV_discard(self, o, v):
        cx = self.cx
        cx.rd(o)
        if o.codec is None:
            return
        self.set_write(o, self.set_remove(o.s, o.codec.enc(cx, v), o.codec),
                       o.codec)

    def m_SetV_remove(self, o, v):
        cx = self.cx
        cx.rd(o)
        if o.codec is None:
            self.ip.implicit('KeyError', False, 'set.remove')
            raise PathEnd()
        e = o.codec.enc(cx, v)
        self.ip.implicit('KeyError', o.s[e], 'set.remove: element present')
        self.set_write(o, self.set_remove(o.s, e, o.codec), o.codec)

    def m_SetV_pop(self, o):
        cx = self.cx
        cx.rd(o)
        if o.codec is None:
            self.ip.implicit('KeyError', False, 'set.pop')
            raise PathEnd()
        self.ip.implicit('KeyError', self.nonempty(o), 'pop from empty set')
        e = cx.fresh('popped', o.codec.sort)
        cx.assume(o.s[e])
        self.set_write(o, self.set_remove(o.s, e, o.codec), o.codec)
        return o.codec.dec(cx, e)

    # --- dicts
    def m_DictV_items(self, o):
        return ItemsV(o, 'items')

    def m_DictV_values(self, o):
        return ItemsV(o, 'values')

    def m_DictV_keys(self, o):
        return ItemsV(o, 'keys')

    def m_DictV_copy(self, o):
        return DictV(self.cx, pyd=dict(o.pyd) if o.pyd is not None else None,
                     keys=o.keys, vals=o.vals, kc=o.kc, vc=o.vc)

    def m_DictV_get(self, o, k, d=None):
        if o.pyd is not None and not z3.is_expr(k):
            return o.pyd.get(k, d)
        if self.cx.branch(o.keys[o.kc.enc(self.cx, k)]):
            return self.getitem(o, k)
        return d

    # --- arrays
    def m_Arr_copy(self, o):
        return Arr(self.cx, o.n, o.a, meta=dict(o.meta), m=o.m)

    def m_Arr_astype(self, o, *a, **k):
        return Arr(self.cx, o.n, o.a, meta=dict(o.meta), m=o.m)

    def m_Arr_reshape(self, o, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if o.elem in (L.Row, L.RA) and len(shape) == 2 and shape[1] == -1:
            if isinstance(shape[0], int) and shape[0] == -1:
                raise Unsupported('reshape(-1, -1)')
            self.ip.implicit('ValueError', to_int(shape[0]) == o.n,
                             'reshape keeps the number of rows')
            return Arr(self.cx, o.n, o.a, meta={
                k: v for k, v in o.meta.items() if k != 'ndim'}, m=o.m)
        if shape == (-1,) and o.elem in (I, R, B):
            return Arr(self.cx, o.n, o.a, meta=dict(o.meta))
        raise Unsupported('reshape')

    def m_Arr_all(self, o, axis=None):
        if o.elem != B:
            raise Unsupported('.all() of a non-boolean array')
        k = z3.Int('k?')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < o.n), o.a[k]))

    def m_Arr_any(self, o, axis=None):
        if o.elem != B:
            raise Unsupported('.any() of a non-boolean array')
        k = z3.Int('k?')
        return z3.Exists([k], z3.And(0 <= k, k < o.n, o.a[k]))

    def m_Arr_tolist(self, o):
        return self.call('list', [o], {}, None)

    def m_Arr_nonzero(self, o):
        if o.elem == B:
            return (self.idx_array(self.mask_set(o)),)
        return (self.idx_array(self.mask_set(self.elementwise2(
            'NotEq', o, 0))),)

    def m_Arr_sum(self, o, axis=None):
        return self.sum_(o)

    def m_RowV_reshape(self, o, *shape):
        return RowM(o.row)

    def m_RowV_copy(self, o):
        return o

    def m_VecV_copy(self, o):
        return VecV(self.cx, o.m, o.v)

    def m_VecV_all(self, o):
        raise Unsupported('all of a real vector')

    def m_VecB_all(self, o):
        c = z3.Int('c?')
        return z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < o.m), o.f(c)))

    def m_VecB_any(self, o):
        c = z3.Int('c?')
        return z3.Exists([c], z3.And(0 <= c, c < o.m, o.f(c)))

    def m_bool_all(self, o):
        return o

    def m_BoolRef_all(self, o):
        return o

    def m_BoolRef_any(self, o):
        return o

    def m_bool_any(self, o):
        return o

    def m_SnapV_count(self, o, v):
        raise Unsupported('tuple.count')

    # --- graphs
    def m_GRow_nonzero(self, o):
        g, n = o.G, o.i
        S = self.nbr_set(g, o.i)
        return (Opaque('rows'), self.idx_array(S))

    def nbr_set(self, G, i):
        cx = self.cx
        S = cx.define_set('N', I, lambda j: z3.And(0 <= j, j < G.n,
                                                   G.g[i][j]))
        cx.assume(L.Fin(S))
        return S

    def m_GraphV_copy(self, o):
        return GraphV(self.cx, o.n, o.g, meta=dict(o.meta))

    def m_GraphV_eliminate_zeros(self, o):
        if o.meta.get('zeros'):
            self.cx.wr(o, 'meta', {})
        return None

    def m_GraphV_tocsr(self, o):
        return o

    m_GraphV_tocsc = m_GraphV_tocoo = m_GraphV_tolil = m_GraphV_tocsr

    def m_GraphV_nonzero(self, o):
        """coordinates of the stored links, as two parallel arrays"""
        cx = self.cx
        key = ('nz', o.g.get_id())
        if key not in cx.memo:
            cx.keep.append(o.g)
            m = cx.fresh('nz.n', I)
            ii, jj = cx.fresh('nz.i', L.IA), cx.fresh('nz.j', L.IA)
            pos = cx.fresh('nz.pos', L.VI)
            k, i, j = z3.Ints('k? i? j?')
            g, n = o.g, o.n
            cx.assume(m >= 0)
            cx.assume(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < m), z3.And(
                    0 <= ii[k], ii[k] < n, 0 <= jj[k], jj[k] < n,
                    g[ii[k]][jj[k]], pos[ii[k]][jj[k]] == k)),
                patterns=[ii[k], jj[k]]))
            cx.assume(z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < n, 0 <= j, j < n, g[i][j]),
                z3.And(0 <= pos[i][j], pos[i][j] < m,
                       ii[pos[i][j]] == i, jj[pos[i][j]] == j)),
                patterns=[g[i][j]]))
            cx.assume(m == L.NLinks(g, n))
            cx.memo[key] = (m, ii, jj)
        m, ii, jj = cx.memo[key]
        return (Arr(cx, m, ii), Arr(cx, m, jj))

    # --- strings and others
    def m_str_format(self, o, *a, **k):
        return Opaque('str')

    def m_Opaque_format(self, o, *a, **k):
        return Opaque('str')

    def m_str_lower(self, o):
        return o.lower()

    def m_str_upper(self, o):
        return o.upper()

    def m_str_join(self, o, x):
        return Opaque('str')

    def m_ColDist_item(self, o):
        return o.total(self)

    def m_ArithRef_item(self, o):
        return o

    # ====================================================== library calls
    def call(self, name, args, kw, node):
        cx, ip = self.cx, self.ip
        h = getattr(ip.active, 'call_hook', None)
        if h is not None:
            r = h(ip, name, args, kw)
            if r is not None:
                return r[0]
        m = getattr(self, 'f_' + name.replace('.', '_'), None)
        if m is not None:
            return m(*args, **kw)
        if name in EXC or name.split('.')[-1] in EXC:
            return Opaque('exception', cls=name.split('.')[-1])
        raise Unsupported('call of %s' % name)

    def call_value(self, f, args, kw, node):
        ip = self.ip
        h = getattr(ip.active, 'call_value_hook', None)
        if h is not None:
            r = h(ip, f, args, kw)
            if r is not None:
                return r[0]
        if hasattr(f, 'py_call'):
            return f.py_call(ip, args, kw)
        if isinstance(f, MetricV):
            return f.call(self, args, kw)
        if isinstance(f, (bool, int, float, str)) or f is None:
            ip.implicit('TypeError', False, 'calling a non-function')
            raise PathEnd()
        raise Unsupported('call of %s' % type(f).__name__)

    # --- builtins
    def seq_len(self, l):
        return to_int(self.f_len(l))

    def f_len(self, v):
        cx = self.cx
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Lst):
            cx.rd(v)
            return len(v.items) if v.items is not None else v.n
        if isinstance(v, (Arr, SnapV)):
            return v.n
        if isinstance(v, SetV):
            cx.rd(v)
            if v.codec is None:
                return 0
            if v.codec.sort == I:
                return L.Card(v.s)
            n = cx.fresh('len', I)
            cx.assume(n >= 0, (n > 0) == self.nonempty(v))
            return n
        if isinstance(v, DictV):
            if v.pyd is not None:
                return len(v.pyd)
            return self.f_len(SetV(cx, v.keys, v.kc))
        if isinstance(v, RangeV):
            lo, hi = to_int(v.lo), to_int(v.hi)
            return z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, str):
            return len(v)
        raise Unsupported('len of %s' % type(v).__name__)

    def f_range(self, a, b=None, step=1):
        return RangeV(0, a, step) if b is None else RangeV(a, b, step)

    def f_list(self, v=None):
        cx = self.cx
        if v is None:
            return Lst(cx, items=[])
        if isinstance(v, tuple):
            return Lst(cx, items=list(v))
        if isinstance(v, Lst):
            r = self.m_Lst_copy(v)
            r.maxlen = None
            return r
        if isinstance(v, RevV):
            l = self.f_list(v.v)
            if l.items is not None:
                l.items = l.items[::-1]
                return l
            bag, c = self.bag_of(l)
            if l.seq is not None:
                s, n = l.seq, l.n
                seq = cx.define_array('rev', I, c.sort,
                                      lambda k: s[n - 1 - k])
                return Lst(cx, n=l.n, bag=bag, seq=seq, codec=c)
            return Lst(cx, n=l.n, bag=bag, codec=c)
        if isinstance(v, CompV):
            return self.comp_list(self.run_comp(v.node, v.frame))
        if isinstance(v, Arr):
            c = v.elem_codec()
            if 'idx' in v.meta:
                S = v.meta['idx'][0]
                bag = cx.define_array('bag', I, I, lambda x: z3.If(
                    S[x], z3.IntVal(1), z3.IntVal(0)))
                r = Lst(cx, n=v.n, bag=bag, seq=v.a, codec=c)
                r.meta = {'distinct': True}
                w = cx.fresh('w', I)
                cx.assume(z3.Implies(v.n > 0, bag[w] > 0))
                return r
            return Lst(cx, n=v.n, seq=v.a, codec=c)
        if isinstance(v, RangeV):
            lo, hi = to_int(v.lo), to_int(v.hi)
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            bag = cx.define_array('bag', I, I, lambda x: z3.If(
                z3.And(lo <= x, x < hi), z3.IntVal(1), z3.IntVal(0)))
            seq = cx.define_array('seq', I, I, lambda k: lo + k)
            r = Lst(cx, n=n, bag=bag, seq=seq, codec=IntC())
            r.meta = {'distinct': True}
            return r
        if isinstance(v, (SetV, ItemsV, DictV)):
            if isinstance(v, ItemsV) and v.what != 'keys':
                it = self.iterate(v)
                if it.concrete is not None:
                    return Lst(cx, items=it.concrete)
                raise Unsupported('list of dict values')
            s, c = self.as_set(v)
            if c is None:
                return Lst(cx, items=[])
            bag = cx.define_array('bag', c.sort, I, lambda x: z3.If(
                s[x], z3.IntVal(1), z3.IntVal(0)))
            n = self.f_len(v if isinstance(v, SetV) else SetV(cx, s, c))
            r = Lst(cx, n=n, bag=bag, codec=c)
            w = cx.fresh('w', c.sort)
            x = z3.Const('x?', c.sort)
            cx.assume(n >= 0, z3.Implies(n > 0, bag[w] > 0),
                      z3.ForAll([x], z3.Implies(s[x], n > 0),
                                patterns=[s[x]]))
            r.meta = {'distinct': True}
            return r
        if isinstance(v, SeqV):
            return v
        it = self.iterate(v)
        if it.concrete is not None:
            return Lst(cx, items=it.concrete)
        if it.ordered:
            k = cx.fresh('k', I)
            val = it.val(k)
            c = codec_for(val)
            seq = cx.define_array('seq', I, c.sort, lambda q: z3.substitute(
                c.enc(cx, val), (k, q)))
            return Lst(cx, n=it.n, seq=seq, codec=c)
        raise Unsupported('list of %s' % type(v).__name__)

    def f_set(self, v=None):
        cx = self.cx
        if v is None:
            return SetV(cx, None, None)
        s, c = self.as_set(v)
        return SetV(cx, s, c)

    f_frozenset = f_set

    def f_tuple(self, v=()):
        cx = self.cx
        if v is None:
            raise PyRaise('TypeError', cx.here())
        if isinstance(v, tuple):
            return v
        if isinstance(v, Arr) and v.elem == I:
            n, a = v.n, v.a
            c = L.Nrm(a, n)
            return SnapV(n, c)
        if isinstance(v, SnapV):
            return v
        if isinstance(v, (CompV, Lst)):
            l = self.f_list(v)
            if isinstance(l, Lst) and l.items is not None:
                return tuple(l.items)
            return l
        raise Unsupported('tuple of %s' % type(v).__name__)

    def f_dict(self, *a, **k):
        if not a and not k:
            return DictV(self.cx, pyd={})
        if len(a) == 1 and isinstance(a[0], DictV):
            return self.m_DictV_copy(a[0])
        raise Unsupported('dict(...)')

    def f_sorted(self, v, key=None, reverse=False):
        cx = self.cx
        if isinstance(v, Lst) and v.items is not None and \
                all(isinstance(x, (int, str)) for x in v.items):
            return Lst(cx, items=sorted(v.items))
        s, c = (None, None)
        if isinstance(v, (SetV, DictV, ItemsV)):
            s, c = self.as_set(v)
            if c is not None and c.sort == I:
                a = self.idx_array(s)
                return self.f_list(a)
        l = self.f_list(v)
        if l.items is None:
            self.bag_of(l)
            l.seq = None
        return l

    def f_sum(self, v, start=0):
        return self.sum_(v, start)

    def f_all(self, v):
        return self.quantify(v, True)

    def f_any(self, v):
        return self.quantify(v, False)

    def extremum(self, args, which, kw):
        cx, ip = self.cx, self.ip
        if kw.get('key') is not None:
            raise Unsupported('min/max with key')
        if len(args) > 1:
            r = args[0]
            for b in args[1:]:
                if not z3.is_expr(r) and not z3.is_expr(b):
                    r = (min if which == 'min' else max)(r, b)
                    continue
                x, y = num2(r, b)
                r = z3.If(x <= y, x, y) if which == 'min' else \
                    z3.If(x >= y, x, y)
            return r
        v = args[0]
        if isinstance(v, Lst) and v.items is not None:
            return self.extremum(v.items, which, {})
        it = self.iterate(v)
        if it.concrete is not None:
            return self.extremum(it.concrete, which, {})
        x = cx.fresh('q', it.sort)
        val = it.val(x)
        if isinstance(val, ColDist):
            val = val.total(self)
        if not is_num(val):
            raise Unsupported('min/max of non-numbers')
        val = to_z(val)
        ne = z3.Exists([x], it.dom(x))
        if it.setz is not None and it.sort == I:
            ne = L.NE(it.setz)
        elif it.n is not None:
            ne = to_int(it.n) > 0
        ip.implicit('ValueError', ne, '%s of an empty sequence' % which)
        w = cx.fresh('arg' + which, it.sort)
        r = cx.fresh(which, val.sort())
        cx.assume(it.dom(w), r == z3.substitute(val, (x, w)))
        cx.assume(z3.ForAll([x], z3.Implies(
            it.dom(x), r <= val if which == 'min' else r >= val)))
        if val.sort() == I:         # integers are finite
            cx.assume(z3.ToReal(r) < L.INF, z3.ToReal(r) > -L.INF)
        return r

    def f_min(self, *a, **k):
        return self.extremum(list(a), 'min', k)

    def f_max(self, *a, **k):
        return self.extremum(list(a), 'max', k)

    def f_numpy_max(self, a, axis=None):
        return self.extremum([a], 'max', {})

    def f_numpy_min(self, a, axis=None):
        return self.extremum([a], 'min', {})

    f_numpy_amax, f_numpy_amin = f_numpy_max, f_numpy_min

    def f_abs(self, v):
        if not z3.is_expr(v):
            return abs(v)
        return z3.If(v >= 0, v, -v)

    def f_enumerate(self, v, start=0):
        if start != 0:
            raise Unsupported('enumerate start')
        return EnumV(v)

    def f_reversed(self, v):
        return RevV(v)

    def f_print(self, *a, **k):
        return None

    def f_type(self, v):
        return Opaque('type')

    def f_str(self, *a):
        return Opaque('str')

    f_repr = f_str

    def f_float(self, v=0.0):
        if isinstance(v, str):
            return float(v)
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, ColDist):
            return v.total(self)
        return to_real(v)

    def f_int(self, v=0):
        cx, ip = self.cx, self.ip
        if isinstance(v, Arr):
            ip.implicit('TypeError', v.n == 1, 'int() of a one-element array')
            v = v.a[0]
        if isinstance(v, (int, float)):
            return int(v)
        v = to_z(v)
        if v.sort() == R:
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return to_int(v)

    def f_bool(self, v=False):
        r = self.ip.truthz(v)
        return r

    def f_callable(self, v):
        if isinstance(v, (FuncV, BoundV, ClassV, LibV, MetricV)):
            return True
        h = getattr(self.ip.active, 'callable_hook', None)
        if h is not None:
            r = h(self.ip, v)
            if r is not None:
                return r
        if hasattr(v, 'py_call'):
            return True
        if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
            return v.cls.lookup('__call__')[0] is not None
        if v is None or isinstance(v, (int, float, str, HObj, tuple)) or \
                z3.is_expr(v):
            return False
        raise Unsupported('callable()')

    def f_isinstance(self, v, t):
        cx, ip = self.cx, self.ip
        h = getattr(ip.active, 'isinstance_hook', None)
        if h is not None:
            r = h(ip, v, t)
            if r is not None:
                return r
        ts = t if isinstance(t, tuple) else (t,)
        out = False
        for k in ts:
            r = self.isinst(v, k)
            if r is True:
                return True
            if r is not False:
                out = r if out is False else z3.Or(out, r)
        return out

    def isinst(self, v, t):
        if hasattr(v, 'py_isinst'):
            r = v.py_isinst(self.ip, t)
            if r is not None:
                return r
        if isinstance(t, ClassV):
            if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
                self.ip.static_value(v.cls)
                return t in v.cls.all_bases()
            return False
        if isinstance(t, LibV):
            n = t.name
            if n == 'str':
                return isinstance(v, str)
            if n in ('collections.Iterable', 'collections.abc.Iterable'):
                return isinstance(v, (str, tuple, Lst, SetV, DictV, Arr,
                                      SnapV, RangeV))
            if n in ('collections.Mapping', 'dict', 'collections.abc.Mapping'
                     ):
                return isinstance(v, DictV)
            if n in ('collections.Sequence', 'collections.abc.Sequence'):
                return isinstance(v, (str, tuple)) or (
                    isinstance(v, Lst) and v.maxlen is None)
            if n == 'list':
                return isinstance(v, Lst)
            if n == 'tuple':
                return isinstance(v, tuple)
            if n == 'numbers.Integral' or n == 'int':
                if isinstance(v, bool):
                    return True
                if isinstance(v, int):
                    return True
                if z3.is_expr(v):
                    return v.sort() in (I, B)
                return False
            if n in ('numbers.Real', 'numbers.Number', 'float'):
                return is_num(v)
            if n == 'numpy.ndarray':
                return isinstance(v, (Arr, VecV))
        raise Unsupported('isinstance of %s' % getattr(t, 'name', t))

    def f_getattr(self, o, name, *d):
        return self.ip.getattr(o, name)

    def f_hasattr(self, o, name):
        if isinstance(o, ObjV):
            if name in o.f:
                return True
            if isinstance(o.cls, ClassV):
                return o.cls.lookup(name)[0] is not None
        raise Unsupported('hasattr')

    def f_super(self, *a):
        fr = self.ip.fr
        f = fr
        while f is not None and f.cls is None:
            f = f.closure
        if f is None or f.selfv is None:
            raise Unsupported('super()')
        o = f.selfv
        self.ip.static_value(o.cls)
        mro = o.cls.mro()
        k = mro.index(f.cls)
        return Opaque('super', obj=o, mro=mro[k + 1:])

    def f_object___init__(self, *a, **k):
        return None

    def f_zip(self, *vs):
        its = [self.iterate(v) for v in vs]
        if all(i.concrete is not None for i in its):
            return Lst(self.cx, items=list(zip(*[i.concrete for i in its])))
        if all(i.ordered and i.concrete is None for i in its):
            n = to_int(its[0].n)
            for i in its[1:]:
                n = z3.If(to_int(i.n) < n, to_int(i.n), n)
            return SeqV(n, lambda k: tuple(i.val(k) for i in its))
        raise Unsupported('zip')

    # --- random
    def rng(self, what):
        cx = self.cx
        cx.ghost['rng'] = cx.ghost.get('rng', ()) + (what,)
        h = getattr(self.ip.active, 'on_rng', None)
        if h is not None:
            h(self.ip, what)

    def f_random_randrange(self, n, hi=None):
        cx, ip = self.cx, self.ip
        self.rng(('draw',))
        lo = z3.IntVal(0)
        if hi is not None:
            lo, n = to_int(n), hi
        n = to_int(n)
        ip.implicit('ValueError', lo < n, 'randrange of an empty range')
        k = cx.fresh('rnd', I)
        cx.assume(lo <= k, k < n)
        return k

    def f_random_randint(self, a, b):
        return self.f_random_randrange(a, self.ip.binop('Add', b, 1))

    def f_random_random(self):
        cx = self.cx
        self.rng(('draw',))
        r = cx.fresh('rnd', R)
        cx.assume(0 <= r, r < 1)
        cx.ghost['draws'] = cx.ghost.get('draws', ()) + (r,)
        return r

    def f_random_choice(self, lst):
        n = self.f_len(lst)
        return self.getitem(lst, self.f_random_randrange(n))

    def f_random_seed(self, s=None):
        self.rng(('seed', s))
        return None

    # --- math
    def f_math_exp(self, x):
        cx = self.cx
        t = L.Exp(to_real(x))
        cx.assume(t > 0)
        return t

    f_numpy_exp = f_math_exp

    def f_math_floor(self, x):
        if not z3.is_expr(x):
            return math.floor(x)
        return z3.ToInt(to_real(x)) if to_z(x).sort() == R else x

    def f_math_ceil(self, x):
        if not z3.is_expr(x):
            return math.ceil(x)
        return -z3.ToInt(-to_real(x)) if to_z(x).sort() == R else x

    # --- itertools / collections
    def f_itertools_combinations(self, v, r):
        if r != 2:
            raise Unsupported('combinations')
        if isinstance(v, Arr) and 'idx' in v.meta and v.meta.get('sorted'):
            return CombosV(v.meta['idx'][0])
        raise Unsupported('combinations of %s' % type(v).__name__)

    def f_collections_deque(self, v=None, maxlen=None):
        cx, ip = self.cx, self.ip
        if maxlen is None:
            return self.f_list(v)
        if z3.is_expr(maxlen):
            ip.implicit('ValueError', to_int(maxlen) >= 0,
                        'deque maxlen non-negative')
            maxlen = to_int(maxlen)
        r = Lst(cx, items=[], maxlen=maxlen)
        if isinstance(v, Lst) and v.items == [] or v is None:
            return r
        if isinstance(v, Lst):
            bag, c = self.bag_of(v)
            if c is None:
                return r
            nb = cx.fresh('deque', z3.ArraySort(c.sort, I))
            n = cx.fresh('deque.len', I)
            x = z3.Const('x?', c.sort)
            cx.assume(z3.ForAll([x], z3.And(
                0 <= nb[x], nb[x] <= bag[x], z3.Implies(nb[x] > 0, n > 0)),
                patterns=[nb[x]]), n >= 0)
            r.items, r.bag, r.n, r.codec = None, nb, n, c
            return r
        raise Unsupported('deque of %s' % type(v).__name__)

    def f_collections_namedtuple(self, name, fields, **k):
        if isinstance(fields, str):
            fs = fields.replace(',', ' ').split()
        elif isinstance(fields, tuple):
            fs = list(fields)
        else:
            fs = list(fields.items)
        key = ('nt', name, tuple(fs))
        if key not in _NT:
            _NT[key] = NTType(name, fs)
        return _NT[key]

    # --- numpy
    def const_array(self, n, c, sort=None):
        cx = self.cx
        n = to_int(n)
        cz = z3.IntVal(c) if sort is None else z3.RealVal(c)
        return Arr(cx, n, z3.K(I, cz), meta={'const': cz})

    def shape1(self, n):
        if isinstance(n, tuple):
            if len(n) != 1:
                raise Unsupported('two-dimensional array')
            n = n[0]
        return n

    def f_numpy_ones(self, n, dtype=None):
        if isinstance(n, tuple) and len(n) == 2:
            return Opaque('ones2d', shape=n)
        return self.const_array(self.shape1(n), 1)

    def f_numpy_zeros(self, n, dtype=None):
        return self.const_array(self.shape1(n), 0)

    def f_numpy_full(self, n, v, dtype=None):
        return self.const_array(self.shape1(n), v)

    def f_numpy_arange(self, n):
        return self.idx_array(L.AllSet(to_int(n)))

    def f_numpy_where(self, mask, *a):
        if a:
            raise Unsupported('np.where with three arguments')
        if isinstance(mask, Arr) and mask.elem == B:
            return (self.idx_array(self.mask_set(mask)),)
        if isinstance(mask, bool):
            raise Unsupported('np.where of a scalar')
        raise Unsupported('np.where')

    f_numpy_nonzero = f_numpy_where

    def f_numpy_flatnonzero(self, mask):
        return self.f_numpy_where(mask)[0]

    def f_numpy_unique(self, v, return_counts=False, return_inverse=False):
        cx = self.cx
        if isinstance(v, (Lst, SnapV)):
            v = self.f_numpy_array(v)
        if not (isinstance(v, Arr) and v.elem == I):
            raise Unsupported('np.unique')
        if return_inverse:
            raise Unsupported('np.unique inverse')
        u = self.idx_array(L.LabelSet(v.a, v.n) if 'idx' not in v.meta
                           else v.meta['idx'][0], 'uniq')
        if return_counts:
            c = cx.define_array('cnt', I, I, lambda k: L.Card(
                L.Region(v.a, v.n, u.a[k])))
            k = z3.Int('k?')
            cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < u.n),
                                                c[k] > 0), patterns=[c[k]]))
            return (u, Arr(cx, u.n, c))
        return u

    def f_numpy_in1d(self, a, b, assume_unique=False, invert=False):
        cx = self.cx
        if not isinstance(a, Arr) or a.elem != I:
            raise Unsupported('in1d')
        if is_num(b):
            bz = to_int(b)

            def isin(x):
                return x == bz
        else:
            s, c = self.as_set(b)

            def isin(x):
                return s[x] if s is not None else z3.BoolVal(False)
        inv = self.ip.truth(invert)
        arr = cx.define_array('in1d', I, B, lambda k: z3.Not(isin(a.a[k]))
                              if inv else isin(a.a[k]))
        return Arr(cx, a.n, arr)

    f_numpy_isin = f_numpy_in1d

    def f_numpy_array(self, v, dtype=None):
        cx = self.cx
        if isinstance(v, Arr):
            return self.m_Arr_copy(v)
        if isinstance(v, SnapV):
            return Arr(cx, v.n, v.a)
        if isinstance(v, Lst) and v.items is None and v.seq is not None:
            return Arr(cx, v.n, v.seq)
        if isinstance(v, Lst) and v.items is not None and v.items:
            self.to_sym(v)
            return Arr(cx, v.n, v.seq)
        raise Unsupported('np.array of %s' % type(v).__name__)

    f_numpy_asarray = f_numpy_array

    def f_numpy_array_equal(self, a, b):
        r = self.elementwise2('Eq', a, b)
        return self.m_Arr_all(r)

    def f_numpy_isfinite(self, x):
        if isinstance(x, (int, float)):
            return math.isfinite(x)
        return z3.And(x < L.INF, x > -L.INF)

    def f_numpy_any(self, v):
        return self.method(v, 'any', [], {}, None)

    def f_numpy_all(self, v):
        return self.method(v, 'all', [], {}, None)

    def f_numpy_int32(self, v):
        return v

    f_numpy_int64 = f_numpy_int32

    # --- csgraph
    def f_scipy_sparse_csr_matrix(self, v, *a, **k):
        if isinstance(v, GraphV):
            return GraphV(self.cx, v.n, v.g, meta=dict(v.meta))
        raise Unsupported('csr_matrix(...)')

    def f_scipy_sparse_csgraph_connected_components(
            self, G, directed=True, connection='weak', return_labels=True):
        cx = self.cx
        if not isinstance(G, GraphV):
            raise Unsupported('connected_components')
        if G.meta.get('zeros'):
            raise Unsupported('stored zeros in a graph')
        if connection != 'weak':
            raise Unsupported('strong components')
        nc = L.NComp(G.g, G.n)
        cx.assume(nc >= 0, (nc == 1) == L.Conn(G.g, L.AllSet(G.n)),
                  (nc == 0) == (G.n == 0), nc <= G.n)
        if return_labels is False:
            return nc
        if return_labels is not True:
            raise Unsupported('connected_components')
        lab = L.CompLab(G.g, G.n)
        i, j, c = z3.Ints('i? j? c?')
        key = ('cc', G.g.get_id(), G.n.get_id())
        if key not in cx.memo:
            cx.memo[key] = True
            cx.keep += [G.g, G.n]
            n = G.n
            cx.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n), z3.And(0 <= lab[i], lab[i] < nc)),
                patterns=[lab[i]]))
            cx.assume(z3.ForAll([c], z3.Implies(
                z3.And(0 <= c, c < nc), z3.And(
                    L.LabelSet(lab, n)[c],
                    L.Conn(G.g, L.Region(lab, n, c)))),
                patterns=[L.Region(lab, n, c)]))
            cx.assume(z3.ForAll([c], L.LabelSet(lab, n)[c] ==
                                z3.And(0 <= c, c < nc),
                                patterns=[L.LabelSet(lab, n)[c]]))
            cx.assume(z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < n, 0 <= j, j < n, G.g[i][j]),
                lab[i] == lab[j]), patterns=[G.g[i][j]]))
            # a connected set lies inside one component
            S = z3.Const('S?', L.SetI)
            cx.assume(z3.ForAll([S, i], z3.Implies(
                z3.And(L.Conn(G.g, S), S[i], z3.ForAll([c], z3.Implies(
                    S[c], z3.And(0 <= c, c < n)))),
                lab[i] == L.CompOf(lab, S)), patterns=[z3.MultiPattern(
                    L.Conn(G.g, S), S[i])]))
            cx.assume(L.LabelSet(lab, n) == L.AllSet(nc),
                      L.Card(L.AllSet(nc)) == nc)
        return (nc, Arr(cx, G.n, lab))

    def f_scipy_sparse_csgraph_minimum_spanning_tree(self, G):
        """a spanning forest, each link stored in one direction"""
        cx = self.cx
        if not isinstance(G, GraphV) or G.meta.get('zeros'):
            raise Unsupported('minimum_spanning_tree')
        n = G.n
        t = cx.fresh('mst', L.GS)
        S = z3.Const('S?', L.SetI)
        i, j = z3.Ints('i? j?')
        cx.assume(
            L.Forest(t, n), L.NLinks(t, n) == n - L.NComp(G.g, n),
            (L.NComp(G.g, n) == 1) == L.Conn(G.g, L.AllSet(n)),
            z3.ForAll([i, j], z3.Implies(t[i][j], z3.And(
                0 <= i, i < n, 0 <= j, j < n,
                z3.Or(G.g[i][j], G.g[j][i]))), patterns=[t[i][j]]),
            z3.ForAll([S], z3.Implies(L.Conn(t, S), L.Conn(G.g, S)),
                      patterns=[L.Conn(t, S)]))
        return GraphV(cx, n, t)

    # --- metric
    def f_sklearn_metrics_pairwise_distance_metrics(self):
        return Opaque('distance_metrics')


_NT = {}


def consts_in(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            out.append(x)
        st.extend(x.children())
    return out


class CompRes(object):
    concrete = None
    assumed = False

    def __init__(self):
        self.keys, self.iters, self.doms, self.conds, self.allconds = \
            [], [], [], [], []

    @staticmethod
    def view(res, data):
        r = CompRes()
        r.__dict__.update(res.__dict__)
        c = res.conds[0]
        c2 = Cond(c.facts, c.member, data, c.sub)
        c2.skip, c2.filter = False, c.filter
        r.conds = [c2]
        return r


class RangeV(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class EnumV(object):
    def __init__(self, v):
        self.v = v


class RevV(object):
    def __init__(self, v):
        self.v = v


class ItemsV(object):
    def __init__(self, d, what):
        self.d, self.what = d, what


class CombosV(object):
    """all pairs i < j of a set of indices"""
    def __init__(self, S):
        self.S = S


class SeqV(object):
    """immutable sequence of arbitrary values given by a function"""
    def __init__(self, n, get):
        self.n, self.get = n, get


class GenV(object):
    """a generator that has not started: elements 0..n-1

    `guard` lists (object, field, value) the elements depend on: they have to
    be unchanged whenever an element is computed."""
    def __init__(self, n, get, guard, raises=()):
        self.n, self.get, self.guard, self.raises = n, get, guard, raises

    def iterate(self, ip):
        cx = ip.cx
        for exc, cond, facts in self.raises:
            if cx.branch(cond):
                raise PyRaise(exc, cx.here())
            cx.assume(*facts)

        def val(k):
            for obj, field, v in self.guard:
                now = getattr(obj, field)
                if now is not v and not now.eq(v):
                    cx.oblige(now == v, 'arguments of a running generator '
                              'unchanged', kind='pre')
            return self.get(k)
        return Iter(True, I, lambda k: z3.And(0 <= k, k < self.n), val,
                    n=self.n, src=self)


class ColV(object):
    """arr[:, None] or its transpose"""
    def __init__(self, arr, t=False):
        self.arr, self.t = arr, t


class GRow(object):
    def __init__(self, G, i):
        self.G, self.i = G, i


class GraphSel(object):
    """rows or columns of an adjacency matrix selected by an index array"""
    def __init__(self, G, rows, cols):
        self.G, self.rows, self.cols = G, rows, cols


class RowM(object):
    """a row as 1 x M matrix"""
    def __init__(self, row):
        self.row = row


class VecB(object):
    """boolean vector over the spatially extensive attributes"""
    def __init__(self, m, f):
        self.m, self.f = m, f


class ColDist(object):
    """distances between the rows of a matrix and one row (a column)"""
    def __init__(self, S, at, row, single=None):
        self.S, self.at, self.row, self.single = S, at, row, single

    def total(self, lib):
        if self.single is not None:
            return self.single
        return L.SumR(self.S, L.DTo(self.at, self.row))

    def py_subst(self, f):
        return ColDist(f(self.S), f(self.at), f(self.row), f(self.single))


class MetricV(object):
    """the distance metric: symmetric, zero on identical rows"""

    def call(self, lib, args, kw):
        a, b = args
        if isinstance(a, RowM) and isinstance(b, RowM):
            d = L.Dist(a.row, b.row)
            return ColDist(None, None, None, single=d)
        if isinstance(a, Arr) and a.elem == L.Row and isinstance(b, RowM):
            S, M = lib.rows_of(a)
            lib.ip.implicit('ValueError', L.NE(S),
                            'metric of at least one row')
            return ColDist(S, M, b.row)
        raise Unsupported('metric arguments')
