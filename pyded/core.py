"""Values, heap objects and the path-exploring execution context."""
import z3
from . import logic as L

I, R, B = L.I, L.R, L.B


class Unsupported(Exception):
    """the code uses something outside the verifier's subset"""


class PathEnd(Exception):
    """this path is finished (infeasible, or cut at a loop back edge)"""


class Restart(Exception):
    """a loop frame grew: explore the function again"""


class NotSummarizable(Exception):
    pass


class PyRaise(Exception):
    """a Python exception raised by the verified code"""
    def __init__(self, cls, where=None):
        self.cls, self.where = cls, where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ------------------------------------------------------------------ values
class NTup(tuple):
    """namedtuple instance"""
    def __new__(cls, typ, items):
        t = tuple.__new__(cls, items)
        t.typ = typ
        return t


class NTType(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, list(fields)


class OptV(object):
    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def parts(self):
        return [self.val]

    def guarded(self):
        """(condition, value) for every alternative"""
        return [(self.isnone, None), (z3.Not(self.isnone), self.val)]


class UnionV(OptV):
    """a value of one of several kinds"""
    def __init__(self, tag, alts):
        self.tag, self.alts = tag, alts

    def parts(self):
        return list(self.alts)

    def guarded(self):
        return [(self.tag == i, v) for i, v in enumerate(self.alts)]

    @property
    def isnone(self):
        return z3.Or(*[self.tag == i for i, v in enumerate(self.alts)
                       if v is None])


class MaybeV(OptV):
    """a local variable that may be unbound"""
    def __init__(self, bound, val):
        self.bound, self.val = bound, val

    def guarded(self):
        return [(self.bound, self.val)]

    @property
    def isnone(self):
        return z3.BoolVal(False)


UNBOUND = object()


class Poison(object):
    def __init__(self, why, key=None, level=None):
        self.why, self.key, self.level = why, key, level


class Opaque(object):
    """a value about which nothing is known but its identity"""
    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s>' % self.tag


class SnapV(object):
    """immutable copy of a one-dimensional integer array (tuple(labels))"""
    def __init__(self, n, a):
        self.n, self.a = n, a


class ModV(object):
    def __init__(self, name):
        self.name = name


class LibV(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'LibV(%s)' % self.name


class FuncV(object):
    def __init__(self, node, module, name, cls=None, closure=None,
                 defaults=None, kwdefaults=None):
        self.node, self.module, self.name = node, module, name
        self.cls, self.closure = cls, closure
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.decorators = []

    @property
    def qual(self):
        if self.cls is not None:
            return '%s:%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s:%s' % (self.module.name, self.name)


class ClassV(object):
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = \
            name, module, node, bases
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def all_bases(self):
        out = []
        for c in self.mro():
            out.append(c)
            out.extend(b for b in c.bases if not isinstance(b, ClassV))
        return out


class BoundV(object):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class MethV(object):
    """method `name` of a built-in or library value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


# ------------------------------------------------------------------ codecs
class Codec(object):
    sort = None
    name = '?'

    def __eq__(self, o):
        return type(self) is type(o) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def ok(self, cx, z):
        """type invariant of an arbitrary element"""
        return z3.BoolVal(True)


class IntC(Codec):
    sort, name = I, 'int'

    def enc(self, cx, v):
        return to_int(v)

    def dec(self, cx, z, home=None):
        return z


class RealC(Codec):
    sort, name = R, 'real'

    def enc(self, cx, v):
        return to_real(v)

    def dec(self, cx, z, home=None):
        return z


class BoolC(Codec):
    sort, name = B, 'bool'

    def enc(self, cx, v):
        return to_bool(v)

    def dec(self, cx, z, home=None):
        return z


class RowC(Codec):
    sort, name = L.Row, 'row'

    def enc(self, cx, v):
        return v.row

    def dec(self, cx, z, home=None):
        return RowV(z)


class VecC(Codec):
    sort, name = L.RA, 'vec'

    def enc(self, cx, v):
        return v.v

    def dec(self, cx, z, home=None):
        return VecV(cx, home[0].m if home else cx.vec_width, z, home=home)


class ObjC(Codec):
    """uninterpreted immutable objects (keys, names)"""
    sort, name = z3.DeclareSort('Obj'), 'obj'

    def enc(self, cx, v):
        if isinstance(v, str):
            return cx.str_const(v)
        if isinstance(v, ZObj):
            return v.z
        raise Unsupported('cannot store %r as an object' % (v,))

    def dec(self, cx, z, home=None):
        return ZObj(z)


class ZObj(object):
    def __init__(self, z):
        self.z = z


class SetC(Codec):
    sort, name = L.SetI, 'set<int>'
    elem = None

    def enc(self, cx, v):
        if not isinstance(v, SetV):
            raise Unsupported('set expected')
        if v.codec is None:
            return z3.K(I, z3.BoolVal(False))
        if v.codec != IntC():
            raise Unsupported('set of ints expected')
        return v.s

    def dec(self, cx, z, home=None):
        return SetV(cx, z, IntC(), home=home)


_SNAP = None


class SnapC(Codec):
    name = 'snap'

    def __init__(self):
        global _SNAP
        if _SNAP is None:
            d = z3.Datatype('Snap')
            d.declare('mk_snap', ('snap_n', I), ('snap_a', L.IA))
            _SNAP = d.create()
        self.sort = _SNAP
        self.S = _SNAP

    def enc(self, cx, v):
        return self.S.mk_snap(v.n, v.a)

    def dec(self, cx, z, home=None):
        return SnapV(self.S.snap_n(z), self.S.snap_a(z))


_TUPS = {}


class TupC(Codec):
    def __init__(self, items, typ=None):
        self.items, self.typ = items, typ
        self.name = 'tup<%s>' % ','.join(c.name for c in items)
        if self.name not in _TUPS:
            nm = 'T_' + '_'.join(c.name for c in items).replace('<', '_') \
                .replace('>', '_').replace(',', '_')
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, *[('%s_%d' % (nm, k), c.sort)
                                    for k, c in enumerate(items)])
            _TUPS[self.name] = (d.create(), len(items))
        self.sort = _TUPS[self.name][0]

    def enc(self, cx, v):
        return self.sort.constructor(0)(
            *[c.enc(cx, x) for c, x in zip(self.items, v)])

    def dec(self, cx, z, home=None):
        items = [c.dec(cx, self.sort.accessor(0, k)(z))
                 for k, c in enumerate(self.items)]
        return NTup(self.typ, items) if self.typ else tuple(items)


def codec_for(v):
    if isinstance(v, bool):
        return BoolC()
    if isinstance(v, int):
        return IntC()
    if isinstance(v, float):
        return RealC()
    if isinstance(v, str) or isinstance(v, ZObj):
        return ObjC()
    if z3.is_expr(v):
        if v.sort() == I:
            return IntC()
        if v.sort() == R:
            return RealC()
        if v.sort() == B:
            return BoolC()
    if isinstance(v, SetV):
        return SetC()
    if isinstance(v, SnapV):
        return SnapC()
    if isinstance(v, RowV):
        return RowC()
    if isinstance(v, VecV):
        return VecC()
    if isinstance(v, tuple):
        return TupC([codec_for(x) for x in v], getattr(v, 'typ', None))
    raise Unsupported('cannot store a value of type %s in a container'
                      % type(v).__name__)


def join_codec(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if {a.name, b.name} == {'int', 'real'}:
        return RealC()
    raise Unsupported('mixed container elements %s / %s' % (a.name, b.name))


# ------------------------------------------------------------ heap objects
class HObj(object):
    frozen = False

    def __init__(self, cx):
        self.uid = cx.new_uid()


class Arr(HObj):
    """one-dimensional numpy array (or row-indexed matrix) of z3 elements"""
    def __init__(self, cx, n, a, meta=None, m=None, floaty=False):
        HObj.__init__(self, cx)
        self.n, self.a, self.meta, self.m = n, a, meta or {}, m
        self.floaty = floaty

    @property
    def elem(self):
        return self.a.sort().range()

    def havoc(self, cx, name):
        cx.wr(self, 'a', cx.fresh(name, self.a.sort()))
        cx.wr(self, 'meta', {})

    def kind(self):
        return ('arr', self.elem.name())

    def elem_codec(self):
        s = self.elem
        return {I: IntC, R: RealC, B: BoolC}.get(s, None) and \
            {I: IntC, R: RealC, B: BoolC}[s]() or \
            (RowC() if s == L.Row else VecC() if s == L.RA else
             ObjC() if s == ObjC.sort else None)


class Lst(HObj):
    """list or deque.  `items`: concrete; else n, bag and maybe seq"""
    def __init__(self, cx, items=None, n=None, bag=None, seq=None, codec=None,
                 maxlen=None):
        HObj.__init__(self, cx)
        self.items, self.n, self.bag, self.seq, self.codec = \
            items, n, bag, seq, codec
        self.maxlen = maxlen
        self.meta = {}

    def havoc(self, cx, name, codec=None):
        codec = codec or self.codec
        self_n = cx.fresh(name + '.len', I)
        cx.wr(self, 'items', None)
        cx.wr(self, 'codec', codec)
        cx.wr(self, 'n', self_n)
        cx.wr(self, 'meta', {})
        if codec is not None:
            cx.wr(self, 'bag', cx.fresh(name + '.bag',
                                        z3.ArraySort(codec.sort, I)))
            cx.wr(self, 'seq', None)
        cx.assume_list_ok(self)


class SetV(HObj):
    def __init__(self, cx, s, codec, home=None):
        HObj.__init__(self, cx)
        self._s, self.codec, self.home = s, codec, home
        self.epoch = home[0].epoch if home else None

    @property
    def s(self):
        if self.home is not None:
            cont, key = self.home
            if cont.epoch != self.epoch:
                raise Unsupported('stale alias of a set inside a container')
            return z3.Select(cont.vals, key)
        return self._s

    def havoc(self, cx, name, codec=None):
        codec = codec or self.codec
        cx.wr(self, 'codec', codec)
        if codec is not None:
            cx.wr(self, '_s', cx.fresh(name, z3.ArraySort(codec.sort, B)))


class DictV(HObj):
    """keys: Array K->Bool, vals: Array K->V; pyd: concrete dict"""
    epoch = 0

    def __init__(self, cx, pyd=None, keys=None, vals=None, kc=None, vc=None):
        HObj.__init__(self, cx)
        self.pyd, self.keys, self.vals, self.kc, self.vc = \
            pyd, keys, vals, kc, vc
        self.meta = {}

    def havoc(self, cx, name, kc=None, vc=None):
        kc, vc = kc or self.kc, vc or self.vc
        cx.wr(self, 'pyd', None)
        cx.wr(self, 'kc', kc)
        cx.wr(self, 'vc', vc)
        cx.wr(self, 'meta', {})
        if kc is not None:
            cx.wr(self, 'keys', cx.fresh(name + '.keys',
                                         z3.ArraySort(kc.sort, B)))
            cx.wr(self, 'vals', cx.fresh(name + '.vals',
                                         z3.ArraySort(kc.sort, vc.sort)))


class GraphV(HObj):
    """adjacency matrix: n nodes, g[i][j]; meta carries provenance facts"""
    def __init__(self, cx, n, g, meta=None):
        HObj.__init__(self, cx)
        self.n, self.g, self.meta = n, g, meta or {}

    def havoc(self, cx, name):
        cx.wr(self, 'g', cx.fresh(name, L.GS))
        cx.wr(self, 'meta', {})


class VecV(HObj):
    """vector of m reals (one area's spatially extensive attributes)"""
    def __init__(self, cx, m, v, home=None):
        HObj.__init__(self, cx)
        self.m, self._v, self.home = m, v, home

    @property
    def v(self):
        if self.home is not None:
            arr, k = self.home
            return z3.Select(arr.a, k)
        return self._v

    def havoc(self, cx, name):
        cx.wr(self, '_v', cx.fresh(name, L.RA))


class RowV(object):
    """one row of the attribute matrix (possibly reshaped to 1 x M)"""
    def __init__(self, row):
        self.row = row


class ObjV(HObj):
    def __init__(self, cx, cls, f=None):
        HObj.__init__(self, cx)
        self.cls = cls
        self.f = dict(f or {})

    def __repr__(self):
        return '<%s obj>' % (self.cls.name if isinstance(self.cls, ClassV)
                             else self.cls)


# ------------------------------------------------------- numeric coercions
def is_num(v):
    return isinstance(v, (int, float)) or (
        z3.is_expr(v) and v.sort() in (I, R))


def to_z(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v == float('inf'):
            return L.INF
        if v == float('-inf'):
            return -L.INF
        return z3.RealVal(repr(v) if v != int(v) else str(int(v)))
    if z3.is_expr(v):
        return v
    raise Unsupported('not a scalar: %r' % (v,))


def to_int(v):
    z = to_z(v)
    if z.sort() == I:
        return z
    if z.sort() == B:
        return z3.If(z, z3.IntVal(1), z3.IntVal(0))
    if z.sort() == R:
        if z3.is_rational_value(z) and z.denominator_as_long() == 1:
            return z3.IntVal(z.numerator_as_long())
        if z3.is_app_of(z, z3.Z3_OP_TO_REAL):
            return z.arg(0)
    raise Unsupported('integer expected')


def to_real(v):
    z = to_z(v)
    if z.sort() == R:
        return z
    if z.sort() == I:
        return z3.RealVal(z.as_long()) if z3.is_int_value(z) else z3.ToReal(z)
    if z.sort() == B:
        return z3.If(z, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported('number expected')


def to_bool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_expr(v) and v.sort() == B:
        return v
    raise Unsupported('boolean expected')


def num2(a, b):
    """bring two numbers to a common sort"""
    a, b = to_z(a), to_z(b)
    if a.sort() == B:
        a = to_int(a)
    if b.sort() == B:
        b = to_int(b)
    if a.sort() == b.sort():
        return a, b
    return to_real(a), to_real(b)


def selects_at(e, iv):
    """terms a[iv] for array constants a occurring in e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(iv) and \
                z3.is_const(x.arg(0)) and \
                x.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


class Obligation(object):
    __slots__ = ('name', 'where', 'hyps', 'goal', 'kind', 'key', 'props',
                 'func', 'skip')
    nothing = frozenset()

    def __init__(self, name, where, hyps, goal, kind, func, props=None):
        self.skip = self.nothing
        self.name, self.where, self.hyps, self.goal, self.kind = \
            name, where, hyps, goal, kind
        self.func, self.props = func, props
        self.key = (name, goal.get_id(), tuple(h.get_id() for h in hyps))


class Ctx(object):
    """state of one symbolic execution; re-executed once per path"""
    eager = False          # definitions of arrays are unfolded both ways
    skip = frozenset()     # lemmas that are not given to the solvers

    def __init__(self):
        self.obls = {}
        self.keep = []           # keeps z3 asts alive (ids stay unique)
        self.loops = {}          # persistent loop information
        self.trail, self.pos = [], 0
        self.quick = z3.Solver()
        self.quick.set('timeout', 150)
        self.stats = {'paths': 0, 'branches': 0}
        self.feas_cache = {}
        self.strs = {}
        self.reset()

    def reset(self):
        self.pc = []
        self.pcids = set()
        self.nfresh = 0
        self.fresh_log = []
        self.fresh_at = []
        self.guards = set()
        self._uid = 0
        self.journal = []
        self.frames = []
        self.memo = {}
        self.summary = None
        self.pos = 0
        self.ghost = {}
        self.vec_width = None
        self.loopstack = []

    # -------------------------------------------------------------- basics
    def new_uid(self):
        self._uid += 1
        return self._uid

    def fresh(self, name, sort):
        self.nfresh += 1
        c = z3.Const('%s!%d' % (name, self.nfresh), sort)
        self.fresh_log.append(c)
        self.fresh_at.append(tuple(t[0] for t in self.trail[:self.pos]))
        return c

    def assume(self, *fs):
        for f in fs:
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                self.assume(*f.children())
                continue
            k = f.get_id()
            if k in self.pcids:
                continue
            self.keep.append(f)
            self.pcids.add(k)
            self.pc.append(f)

    def str_const(self, s):
        c = z3.Const('str_%s' % s, ObjC.sort)
        for o, oc in self.strs.items():
            pass
        self.strs[s] = c
        return c

    def wr(self, obj, field, val):
        if obj.frozen:
            raise Unsupported('mutation of an object with unknown aliases')
        old = getattr(obj, field)
        if self.summary is not None and obj.uid <= self.summary['mark']:
            raise NotSummarizable('writes %s' % field)
        self.journal.append((obj, field, old))
        setattr(obj, field, val)

    def wr_raw(self, obj, field, val):
        """write that does not change the abstract value"""
        self.journal.append((obj, field, getattr(obj, field)))
        setattr(obj, field, val)

    def wr_field(self, obj, name, val):
        if self.summary is not None and obj.uid <= self.summary['mark']:
            raise NotSummarizable('writes field %s' % name)
        self.journal.append((obj, ('f', name), obj.f.get(name, KeyError)))
        obj.f[name] = val

    def rd(self, obj):
        if self.summary is not None and obj.uid <= self.summary['mark']:
            if obj.uid in self.summary['targets']:
                raise NotSummarizable('reads an accumulator')
            self.summary['reads'].add(obj.uid)

    def effect(self, obj, kind, *data):
        """try to record a summarisable effect; False if not in a summary"""
        if self.summary is None or obj.uid > self.summary['mark']:
            return False
        if obj.uid in self.summary['reads']:
            raise NotSummarizable('reads an accumulator')
        self.summary['targets'][obj.uid] = obj
        self.summary['effects'].append((obj, kind) + data)
        return True

    def undo(self, mark):
        while len(self.journal) > mark:
            obj, field, old = self.journal.pop()
            if isinstance(field, tuple):
                if old is KeyError:
                    obj.f.pop(field[1], None)
                else:
                    obj.f[field[1]] = old
            else:
                setattr(obj, field, old)

    # ------------------------------------------------------------ branching
    def feasible(self, cond):
        key = (tuple(sorted(self.pcids)), cond.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key]
        self.keep.append(cond)
        s = self.quick
        s.push()
        for f in self.pc:
            if not has_quant(f):
                s.add(f)
        s.add(cond)
        r = s.check() != z3.unsat
        s.pop()
        self.feas_cache[key] = r
        return r

    def branch(self, c):
        """decide a condition on this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.pcids:
            return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in self.pcids:
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos][0]
            self.pos += 1
        else:
            self.stats['branches'] += 1
            ft = self.feasible(c)
            ff = self.feasible(nc)
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                d, open_ = True, True
            else:
                d, open_ = ft, False
            self.trail.append([d, open_, open_])
            self.pos += 1
        n0 = len(self.pc)
        self.assume(c if d else nc)
        if self.trail[self.pos - 1][2]:
            self.guards.update(range(n0, len(self.pc)))
        return d

    def choose(self, label='choice'):
        """nondeterministic choice without a condition"""
        if self.summary is not None:
            return self.branch(self.fresh('choice', B))
        if self.pos < len(self.trail):
            d = self.trail[self.pos][0]
            self.pos += 1
        else:
            d = True
            self.trail.append([True, True, True])
            self.pos += 1
        return d

    def next_trail(self):
        while self.trail and not self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1] = [not self.trail[-1][0], False, self.trail[-1][2]]
        return True

    # ---------------------------------------------------------- obligations
    def oblige(self, goal, name, where=None, kind='assert', props=None):
        if goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
            self.record_trivial(name, where, kind, props)
            return
        if goal is False:
            goal = z3.BoolVal(False)
        self.keep.append(goal)
        ob = Obligation(name, where or self.here(), list(self.pc), goal, kind,
                        self.func_name, props)
        ob.skip = self.skip
        if ob.key not in self.obls:
            self.obls[ob.key] = ob

    def record_trivial(self, name, where, kind, props):
        ob = Obligation(name, where or self.here(), [], z3.BoolVal(True),
                        kind, self.func_name, props)
        if ob.key not in self.obls:
            self.obls[ob.key] = ob

    func_name = '?'

    def here(self):
        if self.frames:
            f = self.frames[-1]
            return '%s:%s' % (f.module.name if f.module else '?',
                              getattr(f, 'line', '?'))
        return '?'

    # ------------------------------------------------------------- helpers
    def define_array(self, name, dom, sort, body, pats=None):
        """array A with A[i] == body(i) for all i"""
        iv = z3.Const('i?', dom)
        e = body(iv)
        key = ('arr', sort.name() if not isinstance(sort, z3.ArraySortRef)
               else str(sort), str(dom), e.get_id())
        if key in self.memo:
            return self.memo[key]
        self.keep.append(e)
        A = self.fresh(name, z3.ArraySort(dom, sort))
        if e.sort() == B:
            f = z3.Select(A, iv) == e
        else:
            f = z3.Select(A, iv) == e
        pats = [z3.Select(A, iv)]
        if self.eager:
            pats += selects_at(e, iv)
        self.assume(z3.ForAll([iv], f, patterns=pats))
        self.memo[key] = A
        return A

    def define_set(self, name, dom, body):
        return self.define_array(name, dom, B, body)

    def assume_list_ok(self, lst):
        self.assume(lst.n >= 0)
        if lst.codec is not None:
            x = z3.Const('x?', lst.codec.sort)
            b = z3.Select(lst.bag, x)
            self.assume(z3.ForAll([x], z3.And(b >= 0, z3.Implies(
                b > 0, lst.n > 0)), patterns=[b]))

    # sub-exploration --------------------------------------------------
    def explore_sub(self, fn):
        """all paths of fn() from the current state, without side effects.

        returns a list of (pc_delta, outcome, fresh consts); outcome is what
        fn returned, or the exception it raised"""
        saved = (self.trail, self.pos)
        base = len(self.pc)
        jm = len(self.journal)
        nf, fl, uid = self.nfresh, len(self.fresh_log), self._uid
        envs = [(f, dict(f.env)) for f in self.frames]
        nframes = len(self.frames)
        memo = dict(self.memo)
        ghost = dict(self.ghost)
        maxnf, maxuid = nf, uid
        res = []
        self.trail, self.pos = [], 0
        try:
            while True:
                self.pos = 0
                self.nfresh, self._uid = nf, uid
                out = None
                try:
                    out = ('ok', fn())
                except (ReturnEx, BreakEx, ContinueEx, PyRaise) as e:
                    out = ('exc', e)
                except PathEnd:
                    out = None
                if out is not None:
                    pc = PathPc(self.pc[base:])
                    pc.guards = {i - base for i in self.guards if i >= base}
                    fr = PathPc(self.fresh_log[fl:])
                    fr.prefix = self.fresh_at[fl:]
                    res.append((pc, out, fr,
                                self.summary['effects'][:]
                                if self.summary else []))
                maxnf, maxuid = max(maxnf, self.nfresh), max(maxuid, self._uid)
                self._restore(base, jm, fl, envs, nframes, memo, ghost)
                if self.summary is not None:
                    self.summary['effects'] = []
                if not self.next_trail():
                    break
        finally:
            self._restore(base, jm, fl, envs, nframes, memo, ghost)
            self.trail, self.pos = saved
            self.nfresh, self._uid = maxnf, maxuid
            self.round_uid()
        return res

    def round_uid(self):
        """keep later object numbers independent of how many came before"""
        self._uid = (self._uid // 1000 + 1) * 1000

    def _restore(self, base, jm, fl, envs, nframes, memo, ghost):
        self.undo(jm)
        for f in self.pc[base:]:
            self.pcids.discard(f.get_id())
        self.guards = {i for i in self.guards if i < base}
        del self.pc[base:]
        del self.fresh_log[fl:]
        del self.fresh_at[fl:]
        del self.frames[nframes:]
        for f, e in envs:
            f.env.clear()
            f.env.update(e)
        self.memo = dict(memo)
        self.ghost = dict(ghost)


class PathPc(list):
    """list with notes about the path that made it"""


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq:
        return _hq[k]
    st, seen = [e], set()
    r = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    _hq[k] = r
    _hq_keep.append(e)
    return r


_hq_keep = []


def skolemize(formulas, consts, x, tag):
    """replace constants that depend on x by functions of x"""
    sub = []
    for k, c in enumerate(consts):
        if c.sort() == z3.BoolSort() or True:
            f = z3.Function('%s@%s' % (c.decl().name(), tag), x.sort(),
                            c.sort())
            sub.append((c, f(x)))
    return [z3.substitute(f, *sub) if sub else f for f in formulas], sub
