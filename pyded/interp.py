"""Symbolic interpreter of the Python text of /repo."""
import ast
import builtins
import z3
from . import logic as L
from .core import *          # noqa
from .source import canon

I, R, B = L.I, L.R, L.B

EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and
       issubclass(getattr(builtins, n), BaseException)}


class OptimizeWarning(UserWarning):
    pass


EXC['OptimizeWarning'] = OptimizeWarning

BUILTINS = ['len', 'range', 'list', 'set', 'tuple', 'dict', 'sorted', 'sum',
            'min', 'max', 'all', 'any', 'enumerate', 'zip', 'isinstance',
            'callable', 'print', 'float', 'int', 'bool', 'str', 'reversed',
            'type', 'abs', 'getattr', 'hasattr', 'super', 'iter', 'next',
            'map', 'filter', 'object', 'frozenset', 'staticmethod', 'round',
            'repr', 'id', 'Exception', 'vars', 'globals']


class Frame(object):
    def __init__(self, func, module, cls=None, closure=None, selfv=None):
        self.func, self.module, self.cls = func, module, cls
        self.env = {}
        self.closure = closure
        self.selfv = selfv
        self.line = getattr(getattr(func, 'node', None), 'lineno', '?')
        self.locals_ = set()


class LoopInst(object):
    """persistent facts about one loop (at one path prefix)"""
    def __init__(self):
        self.names = {}       # name -> widened kind
        self.locs = {}        # loc key -> widened kind
        self.dead = None      # set of invariant keys found not inductive
        self.alive_first = None
        self.aliased = set()
        self.need = set()
        self.snap = self.state()

    def state(self):
        return (dict(self.names), dict(self.locs), set(self.aliased),
                set(self.need))

    def put(self, st):
        self.names, self.locs, self.aliased, self.need = (
            dict(st[0]), dict(st[1]), set(st[2]), set(st[3]))


def assigned_names(nodes):
    out = set()

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                               ast.Del)):
                out.add(x.id)
    skip = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                for y in ast.walk(x):
                    skip.add(id(y))
                    if isinstance(y, ast.NamedExpr):
                        out.add(y.target.id)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                for y in ast.walk(x):
                    if y is not x:
                        skip.add(id(y))
                if isinstance(x, ast.FunctionDef):
                    out.add(x.name)
    for n in nodes:
        for x in ast.walk(n):
            if id(x) in skip:
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                               ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


class Iter(object):
    """symbolic iteration space: key variable, domain, value"""
    def __init__(self, ordered, sort, dom, val, n=None, setz=None,
                 concrete=None, src=None, nkeys=1):
        self.ordered, self.sort, self.dom, self.val = ordered, sort, dom, val
        self.n, self.setz, self.concrete, self.src = n, setz, concrete, src


class Interp(object):
    def __init__(self, prog, cx, registry):
        self.prog, self.cx, self.reg = prog, cx, registry
        self.active = None          # contract being verified
        self.active_func = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_lib = set()
        self.depth = 0
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ names
    @property
    def fr(self):
        return self.cx.frames[-1]

    def lookup(self, name, node=None):
        f = self.fr
        env = f
        while env is not None:
            if name in env.env:
                v = env.env[name]
                if isinstance(v, Poison):
                    if v.why == 'unbound':
                        if name not in v.key.need:
                            v.key.need.add(name)
                            raise Restart()
                        self.implicit('UnboundLocalError',
                                      z3.BoolVal(False),
                                      'local variable %s is bound' % name)
                        raise PathEnd()
                    if v.key is not None and v.level == id(self.cx.summary):
                        # read after the loop: needs the loop's last state
                        self.cx.loops[('nosum', v.key)] = 'read after loop'
                        raise Restart()
                    raise NotSummarizable('%s: %s' % (name, v.why))
                return v
            env = env.closure
        return self.module_name(name, f.module)

    def module_name(self, name, module):
        if name in module.env:
            return self.static_value(module.env[name])
        if name in EXC:
            return LibV(name)
        if name in BUILTINS:
            return LibV(name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name == '__name__':
            return module.name
        raise Unsupported('unknown name %s' % name)

    def static_value(self, v):
        v = self.prog.resolve(v)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'expr':
            return self.eval_static(v[1], v[2])
        if isinstance(v, ClassV):
            self.prog.class_bases(v, self)
            for b in v.bases:
                if isinstance(b, ClassV):
                    self.prog.class_bases(b, self)
        return v

    def eval_static(self, node, module):
        fr = Frame(None, module)
        fr.line = getattr(node, 'lineno', '?')
        self.cx.frames.append(fr)
        try:
            return self.ev(node)
        finally:
            self.cx.frames.pop()

    # -------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            self.st(s)

    def st(self, s):
        self.fr.line = getattr(s, 'lineno', self.fr.line)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value)
            self.do_yield(v)
            return
        self.ev(s.value)

    def do_yield(self, v):
        if self.active is None or not hasattr(self.active, 'on_yield') or \
                self.fr.func is not self.active_func:
            raise Unsupported('yield')
        if self.cx.summary is not None:
            raise NotSummarizable('yield')
        self.active.on_yield(self, v)

    def st_Pass(self, s):
        pass

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            if isinstance(old, OptV):
                old = self.resolve_opt(old)
            rhs = self.ev(s.value)
            r = self.lib.inplace(op, old, rhs)
            if r is not None:
                return
            self.fr.env[t.id] = self.binop(op, old, rhs)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            rhs = self.ev(s.value)
            if self.lib.inplace(op, old, rhs) is None:
                self.setattr(o, t.attr, self.binop(op, old, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            old = self.lib.getitem(o, k)
            rhs = self.ev(s.value)
            if self.lib.inplace(op, old, rhs) is None:
                self.lib.setitem(o, k, self.binop(op, old, rhs))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, items):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.lib.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred assignment')
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported('unpacking %d into %d' % (len(v), n))
            return list(v)
        if isinstance(v, Lst) and v.items is not None and len(v.items) == n:
            return list(v.items)
        return self.lib.unpack(v, n)

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            hook = self.lib.setattr_hook(o, name, v)
            if hook:
                return
            if o.frozen:
                raise Unsupported('mutation of an object with aliases')
            self.cx.wr_field(o, name, v)
            return
        if isinstance(o, FuncV) and name.startswith('__'):
            return
        if hasattr(o, 'py_setattr') and o.py_setattr(self, name, v):
            return
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def st_If(self, s):
        if self.truth(self.ev(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def st_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise PyRaise('AssertionError', self.cx.here())

    def st_Return(self, s):
        raise ReturnEx(self.ev(s.value) if s.value is not None else None)

    def st_Break(self, s):
        raise BreakEx()

    def st_Continue(self, s):
        raise ContinueEx()

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def st_Raise(self, s):
        if s.exc is None:
            raise Unsupported('re-raise')
        v = self.ev(s.exc)
        raise PyRaise(self.exc_name(v), self.cx.here())

    def exc_name(self, v):
        if isinstance(v, Opaque) and v.tag == 'exception':
            return v.cls
        if isinstance(v, LibV):
            return v.name.split('.')[-1]
        if isinstance(v, ClassV):
            return v.name
        if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
            return v.cls.name
        raise Unsupported('raise of %r' % (v,))

    def exc_matches(self, name, handler):
        """does exception class `name` match the handler type value"""
        if handler is None:
            return True
        hs = handler if isinstance(handler, tuple) else (handler,)
        for h in hs:
            hn = self.exc_name(h)
            if hn == name:
                return True
            a, b = EXC.get(name), EXC.get(hn)
            if a is not None and b is not None and issubclass(a, b):
                return True
            if a is None and b is not None:
                # class defined in the repository
                if hn in ('Exception', 'BaseException', 'RuntimeError'):
                    return True
        return False

    def st_Try(self, s):
        cx = self.cx
        depth = len(cx.frames)
        try:
            handlers = []
            for h in s.handlers:
                handlers.append((self.ev(h.type) if h.type else None, h))
            self.try_stack.append([t for t, _ in handlers])
            try:
                self.block(s.body)
            finally:
                self.try_stack.pop()
        except PyRaise as e:
            del cx.frames[depth:]
            for t, h in handlers:
                if self.exc_matches(e.cls, t):
                    if h.name:
                        self.fr.env[h.name] = Opaque('exception', cls=e.cls)
                    try:
                        self.block(h.body)
                    except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                        self.block(s.finalbody)
                        raise
                    break
            else:
                self.block(s.finalbody)
                raise
            self.block(s.finalbody)
            return
        except (ReturnEx, BreakEx, ContinueEx):
            del cx.frames[depth:]
            self.block(s.finalbody)
            raise
        else:
            try:
                self.block(s.orelse)
            except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                self.block(s.finalbody)
                raise
            self.block(s.finalbody)

    try_stack = []

    def handled(self, exc):
        """would an exception of this class be caught by an active handler?"""
        return any(self.exc_matches(exc, t) for ts in self.try_stack
                   for t in ts)

    def st_FunctionDef(self, s):
        fv = FuncV(s, self.fr.module, s.name, closure=self.fr)
        fv.defaults = [self.ev(d) for d in s.args.defaults]
        fv.evaluated = True
        self.fr.env[s.name] = fv

    def st_Import(self, s):
        for a in s.names:
            self.fr.env[a.asname or a.name.split('.')[0]] = \
                self.prog._import_name(a.name if a.asname
                                       else a.name.split('.')[0])

    def st_ImportFrom(self, s):
        for a in s.names:
            v = self.prog._import_name((s.module or '') + '.' + a.name)
            self.fr.env[a.asname or a.name] = self.static_value(v)

    def st_With(self, s):
        raise Unsupported('with')

    def st_Global(self, s):
        raise Unsupported('global')

    # -------------------------------------------------------------- loops
    def st_While(self, s):
        self.loop(s, None)

    def st_For(self, s):
        it = self.lib.iterate(self.ev(s.iter))
        if it.concrete is not None:
            broke = False
            for v in it.concrete:
                try:
                    self.assign(s.target, v)
                    self.block(s.body)
                except ContinueEx:
                    continue
                except BreakEx:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse)
            return
        key = ('nosum', self.loop_key(s))
        if key not in self.cx.loops and self.cx.summary is None or \
                (self.cx.summary is not None):
            try:
                if self.summarize(s, it):
                    return
            except NotSummarizable as e:
                if self.cx.summary is not None:
                    raise
                self.cx.loops[key] = str(e)
                raise Restart()
        self.loop(s, it)

    hints = {}

    def loop_ordinal(self, s):
        f = self.fr.func
        if isinstance(f, FuncV):
            k = 0
            for x in ast.walk(f.node):
                if isinstance(x, (ast.For, ast.While)):
                    if x is s:
                        return k
                    k += 1
        return -1

    def loop_key(self, s):
        cx = self.cx
        return (s.lineno, s.col_offset, self.fr.module.name,
                tuple(t[0] for t in cx.trail[:cx.pos]),
                tuple((f.line) for f in cx.frames[:-1]))

    def loop(self, s, it):
        cx = self.cx
        if cx.summary is not None:
            raise NotSummarizable('inner loop with carried state')
        key = self.loop_key(s)
        inst = cx.loops.get(key)
        if inst is None:
            inst = cx.loops[key] = LoopInst()
            inst.dead = set()
            inst.hint = '%s %d' % (
                self.fr.func.qual if isinstance(self.fr.func, FuncV) else '?',
                self.loop_ordinal(s))
            inst.hinted = self.hints.get(inst.hint, frozenset())
            inst.line = s.lineno
            inst.func = self.fr.func.qual if isinstance(
                self.fr.func, FuncV) else '?'
            # start from what the same loop needed on another path
            for k2, i2 in cx.loops.items():
                if k2[:3] == key[:3] and k2[4] == key[4] and i2 is not inst \
                        and isinstance(i2, LoopInst):
                    inst.put(i2.state())
                    inst.dead |= i2.dead
                    for loc in list(inst.locs):
                        if not self.same_kind_loc(loc, inst.locs[loc]):
                            del inst.locs[loc]
                    inst.names = {n: k for n, k in inst.names.items()
                                  if n not in self.fr.env or n in inst.need
                                  or self.joinable(self.fr.env[n], k)}
                    break
            inst.snap = inst.state()
        fr = self.fr
        names = assigned_names([s] if it is None else
                               s.body + [s.target])
        # ghost iteration state
        gh = LoopGhost(s, it, inst, self)
        gh.enter(cx)
        cx.loopstack.append(gh)
        cx.round_uid()
        absent = [n for n in sorted(names) if n not in fr.env]
        for n in absent:
            if n in inst.need and n in inst.names:
                fr.env[n] = self.coerce(UNBOUND, inst.names[n])
            else:
                fr.env[n] = Poison('unbound', inst)
        for n in sorted(names):
            if n in inst.names and n in fr.env:
                fr.env[n] = self.coerce(fr.env[n], inst.names[n])
        self.coerce_locs(gh, inst)
        entry = self.invs(gh)
        for k in entry:
            if repr(k) in inst.hinted:
                inst.dead.add(k)
        for k, f in entry.items():
            if k not in inst.dead:
                cx.oblige(f, 'loop-init %s' % (k,),
                          kind=('inv', key, k))
        inst.alive_first = set(entry)
        gh.pre_vals = dict(fr.env)
        # havoc
        cx.round_uid()
        head_uid = cx._uid
        modnames = [n for n in sorted(names) if n in fr.env and
                    not isinstance(fr.env[n], Poison)]
        self.check_alias(inst, fr, modnames, gh)
        for n in modnames:
            k = self.kind(fr.env[n])
            if n in inst.names:
                k = self.join(k, inst.names[n])
            inst.names[n] = k
            v = self.fresh_kind(k, n)
            if n in inst.aliased:
                self.freeze(v)
            fr.env[n] = v
        undefined = absent
        for loc in sorted(inst.locs, key=str):
            obj = gh.find(cx, loc)
            if obj is None:
                continue
            if loc[0] == 'field':
                if loc[2] in obj.f:
                    k = self.join(self.kind(obj.f[loc[2]]), inst.locs[loc])
                    inst.locs[loc] = k
                    v = self.fresh_kind(k, loc[2])
                    if loc in inst.aliased:
                        self.freeze(v)
                    cx.wr_field(obj, loc[2], v)
            else:
                self.havoc_obj(obj, inst.locs[loc])
        gh.havoc(cx)
        if gh.k is not None:
            # before the first round nothing has changed
            for n in modnames:
                self.same_at_first(gh.k, gh.pre_vals.get(n), fr.env[n])
        cx.round_uid()
        jm = len(cx.journal)
        head_uid2 = gh.head_uid = cx._uid
        head = self.invs(gh)
        for k, f in head.items():
            if k in inst.alive_first and k not in inst.dead:
                cx.assume(f)
        gh.var0 = self.variant(gh)
        # condition
        if it is None:
            go = self.truth(self.ev(s.test))
        else:
            go = gh.has_next(cx)
        if go:
            broke = False
            try:
                if it is not None:
                    self.assign(s.target, gh.current(cx))
                self.block(s.body)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
            if broke:
                cx.loopstack.pop()
                return
            if it is not None:
                gh.advance(cx)
            self.back_edge(s, key, inst, gh, modnames, undefined, jm,
                           head_uid, head_uid2)
            raise PathEnd()
        cx.loopstack.pop()
        if it is not None:
            gh.finish(cx)
        self.block(s.orelse)

    def coerce_locs(self, gh, inst):
        cx = self.cx
        for loc in inst.locs:
            if loc[0] == 'field':
                obj = gh.find(cx, loc)
                if obj is not None and loc[2] in obj.f:
                    v = self.coerce(obj.f[loc[2]], inst.locs[loc])
                    if v is not obj.f[loc[2]]:
                        cx.wr_field(obj, loc[2], v)
            else:
                obj = gh.find(cx, loc)
                k = inst.locs[loc]
                if isinstance(obj, Lst) and obj.items is not None and \
                        k[0] == 'lst' and k[1] is not None:
                    if obj.codec is None:
                        cx.wr(obj, 'codec', k[1])
                    self.lib.to_sym(obj)

    def merge_frames(self, a, b):
        out = []
        for x, y in zip(a[:2], b[:2]):
            m = dict(x)
            for k, v in y.items():
                m[k] = self.join(m[k], v) if k in m else v
            out.append(m)
        return (out[0], out[1], a[2] | b[2], a[3] | b[3])

    def joinable(self, v, k):
        if isinstance(v, Poison):
            return True
        try:
            self.join(self.kind(v), k)
            return True
        except Unsupported:
            return False

    def same_kind_loc(self, loc, k):
        o = LoopGhost.find(None, self.cx, loc)
        if o is None:
            return False
        if loc[0] == 'field':
            return isinstance(o, ObjV) and loc[2] in o.f and \
                self.joinable(o.f[loc[2]], k)
        return self.joinable(o, k)

    def back_edge(self, s, key, inst, gh, modnames, undefined, jm, head_uid,
                  head_uid2):
        cx, fr = self.cx, self.fr
        changed = False
        for n in modnames:
            if n not in fr.env:
                raise Unsupported('loop deletes %s' % n)
            k = self.join(inst.names[n], self.kind(
                fr.env[n], inst.names[n][0] == 'maybe'))
            if k != inst.names[n]:
                inst.names[n] = k
                changed = True
            fr.env[n] = self.coerce(fr.env[n], k)
        for n in undefined:
            if n in inst.need and n in fr.env and \
                    not isinstance(fr.env[n], Poison) and \
                    n not in inst.names:
                k = self.kind(fr.env[n], True)
                inst.names[n] = k if k[0] == 'maybe' else ('maybe', k)
                changed = True
        for obj, field, _ in cx.journal[jm:]:
            if isinstance(obj, GraphV) and obj.meta.get('zeros'):
                raise Unsupported('stored zeros in a graph at a loop end')
            if obj.uid > head_uid:
                continue
            if isinstance(field, tuple):
                loc = ('field', obj.uid, field[1])
                if field[1] not in obj.f:
                    raise Unsupported('field removed')
                k = self.kind(obj.f[field[1]])
                if loc not in inst.locs:
                    inst.locs[loc] = k
                    changed = True
                else:
                    k = self.join(inst.locs[loc], k)
                    if k != inst.locs[loc]:
                        inst.locs[loc] = k
                        changed = True
            else:
                loc = ('obj', obj.uid)
                k = self.kind(obj)
                if loc not in inst.locs:
                    inst.locs[loc] = k
                    changed = True
                else:
                    k = self.join(inst.locs[loc], k)
                    if k != inst.locs[loc]:
                        inst.locs[loc] = k
                        changed = True
        if self.check_alias(inst, fr, modnames, gh):
            changed = True
        if changed:
            raise Restart()
        self.coerce_locs(gh, inst)
        after = self.invs(gh)
        for k in inst.alive_first:
            if k in inst.dead:
                continue
            cx.oblige(after.get(k, z3.BoolVal(False)),
                      'loop-step %s' % (k,), kind=('inv', key, k))
        if gh.var0 is not None:
            self.check_variant(gh)
        cx.loopstack.pop()

    def variant(self, gh):
        if self.active is None or not hasattr(self.active, 'variant'):
            return None
        return self.active.variant(self, gh)

    def check_variant(self, gh):
        v1 = self.active.variant(self, gh)
        if v1 is None:
            return
        self.cx.oblige(z3.And(v1 < gh.var0, gh.var0 >= 0) if
                       not isinstance(v1, (list, tuple)) else
                       lex_less(v1, gh.var0),
                       'loop variant decreases', kind='variant')

    def invs(self, gh):
        if self.active is None:
            return {}
        out = {}
        for k, f in self.active.invariants(self, gh):
            if f is None:
                continue
            out[k] = f if z3.is_expr(f) else z3.BoolVal(bool(f))
        for k, f in self.generic_invariants(gh):
            out[k] = f
        return out

    def same_at_first(self, k, old, new):
        if isinstance(new, OptV) or isinstance(new, (bool, int, float)):
            return
        if z3.is_expr(new) and new.sort() in (I, R, B) and (
                z3.is_expr(old) or isinstance(old, (bool, int, float))):
            o = to_bool(old) if new.sort() == B else (
                to_int(old) if new.sort() == I else to_real(old))
            self.cx.assume(z3.Implies(k == 0, new == o))

    def generic_invariants(self, gh):
        """kind-derived facts tried at every loop"""
        out = []
        inst, one = gh.inst, z3.IntVal(1)
        if gh.k is not None:
            for n, v in self.fr.env.items():
                if isinstance(v, MaybeV):
                    out.append((('%s' % n, 'bound after a round'),
                                z3.Implies(gh.k > 0, v.bound)))

        def num(nm, v, g=None):
            if isinstance(v, OptV):
                ps = [(c, x) for c, x in v.guarded() if x is not None]
            else:
                ps = [(None, v)]
            for j, (c, x) in enumerate(ps):
                if isinstance(x, bool) or not (
                        is_num(x) or isinstance(x, (int, float))):
                    continue
                if isinstance(x, float) and x in (float('inf'),
                                                  -float('inf')):
                    continue
                x = to_z(x)
                t = nm if len(ps) == 1 else '%s|%d' % (nm, j)
                fs = [('>= 0', x >= 0), ('>= 1', x >= 1)]
                if gh.k is not None and x.sort() == I:
                    fs.append(('< rounds', x < gh.k))
                for w, f in fs:
                    out.append(((t, w), f if c is None else
                                z3.Implies(c, f)))
        for n in sorted(inst.names):
            v = self.fr.env.get(n)
            if v is not None and not isinstance(v, Poison):
                num(n, v)
        for loc in sorted(inst.locs, key=str):
            o = gh.find(self.cx, loc)
            if o is None:
                continue
            if loc[0] == 'field':
                if loc[2] in o.f:
                    v = o.f[loc[2]]
                    num('.' + loc[2], v)
                    if isinstance(v, Lst) and v.maxlen is not None:
                        num('.' + loc[2] + '.maxlen', v.maxlen)
            elif isinstance(o, Lst) and gh.k is not None:
                ln = to_int(self.lib.seq_len(o))
                nm = 'list%d' % sorted(inst.locs, key=str).index(loc)
                l0 = gh.len0.setdefault(loc, ln)
                out.append(((nm, 'grows by one'), ln == l0 + gh.k))
                out.append(((nm, 'shrinks by one'), ln == l0 - gh.k))
        return out

    def check_alias(self, inst, fr, modnames, gh):
        """mark rebound locations whose object is also reachable elsewhere"""
        cx = self.cx
        counts = {}

        def visit(v, root, seen):
            if isinstance(v, HObj):
                if v.uid in seen:
                    return
                seen.add(v.uid)
                counts.setdefault(v.uid, (v, set()))[1].add(root)
                if isinstance(v, ObjV):
                    for fn, fv in v.f.items():
                        visit(fv, ('field', v.uid, fn), set(seen))
                elif isinstance(v, Lst) and v.items is not None:
                    for x in v.items:
                        visit(x, root, seen)
                elif isinstance(v, DictV) and v.pyd is not None:
                    for x in v.pyd.values():
                        visit(x, root, seen)
            elif isinstance(v, tuple):
                for x in v:
                    visit(x, root, seen)
            elif isinstance(v, OptV):
                for x in v.parts():
                    visit(x, root, seen)
        for d, f in enumerate(cx.frames):
            for n, v in f.env.items():
                visit(v, ('name', d, n), set())
        changed = False
        top = len(cx.frames) - 1
        for uid, (obj, roots) in counts.items():
            if isinstance(obj, ObjV):
                continue
            if len(roots) > 1:
                for r in roots:
                    if r[0] == 'name' and r[1] == top and r[2] in modnames:
                        if r[2] not in inst.aliased:
                            inst.aliased.add(r[2])
                            changed = True
                    elif r[0] == 'field' and r in inst.locs:
                        if r not in inst.aliased:
                            inst.aliased.add(r)
                            changed = True
        # whatever is aliased with a rebound location must not be mutated
        for uid, (obj, roots) in counts.items():
            if isinstance(obj, ObjV) or len(roots) < 2:
                continue
            if any((r[0] == 'name' and r[1] == top and r[2] in inst.aliased)
                   or r in inst.aliased for r in roots):
                obj.frozen = True
        return changed

    def freeze(self, v):
        if isinstance(v, HObj):
            v.frozen = True
        elif isinstance(v, tuple):
            for x in v:
                self.freeze(x)
        elif isinstance(v, OptV):
            for x in v.parts():
                self.freeze(x)

    # ------------------------------------------------------------- kinds
    def kind(self, v, lit=False):
        if lit and isinstance(v, int) and not isinstance(v, bool):
            return ('lit', v)
        if isinstance(v, bool):
            return ('bool',)
        if isinstance(v, int):
            return ('int',)
        if isinstance(v, float):
            return ('real',)
        if v is None:
            return ('none',)
        if isinstance(v, str):
            return ('const', v)
        if z3.is_expr(v):
            s = v.sort()
            return {I: ('int',), R: ('real',), B: ('bool',)}.get(
                s, ('zexpr', s.name()))
        if isinstance(v, MaybeV):
            return ('maybe', self.kind(v.val, True))
        if isinstance(v, UnionV):
            ks = [self.kind(x, True) for x in v.alts]
            return ('union', tuple(ks))
        if isinstance(v, OptV):
            return ('opt', self.kind(v.val))
        if isinstance(v, NTup):
            return ('tup', tuple(self.kind(x) for x in v), v.typ)
        if isinstance(v, tuple):
            return ('tup', tuple(self.kind(x) for x in v), None)
        if isinstance(v, Arr):
            return ('arr', v.a.sort().sexpr(), v.m)
        if isinstance(v, Lst):
            if v.items is not None:
                c = None
                for x in v.items:
                    try:
                        c = join_codec(c, codec_for(x))
                    except Unsupported:
                        return self.lib.listkind(v)
                return ('lst', c, v.maxlen is not None)
            return ('lst', v.codec, v.maxlen is not None)
        if isinstance(v, SetV):
            return ('set', v.codec)
        if isinstance(v, DictV):
            if v.pyd is not None:
                kc = vc = None
                for a, b in v.pyd.items():
                    kc = join_codec(kc, codec_for(a))
                    vc = join_codec(vc, codec_for(b))
                return ('dict', kc, vc)
            return ('dict', v.kc, v.vc)
        if isinstance(v, GraphV):
            return ('graph',)
        if isinstance(v, VecV):
            return ('vec',)
        if isinstance(v, RowV):
            return ('row',)
        if isinstance(v, SnapV):
            return ('snap',)
        if isinstance(v, ZObj):
            return ('zobj',)
        if isinstance(v, ObjV):
            return ('ref', v)
        return ('const', v)

    def join(self, a, b):
        if a == b:
            return a
        a0, b0 = a, b
        if a[0] == 'maybe' or b[0] == 'maybe':
            x = a[1] if a[0] == 'maybe' else a
            y = b[1] if b[0] == 'maybe' else b
            return ('maybe', self.join(x, y))
        if a[0] == 'union' or b[0] == 'union':
            alts = list(a[1]) if a[0] == 'union' else [a]
            for y in (b[1] if b[0] == 'union' else [b]):
                for i, x in enumerate(alts):
                    j = self.join(x, y)
                    if j[0] != 'union':
                        alts[i] = j
                        break
                else:
                    alts.append(y)
            return ('union', tuple(alts))
        if a[0] == 'none':
            return b if b[0] == 'opt' else ('opt', b)
        if b[0] == 'none':
            return a if a[0] == 'opt' else ('opt', a)
        if a[0] == 'opt' or b[0] == 'opt':
            x = a[1] if a[0] == 'opt' else a
            y = b[1] if b[0] == 'opt' else b
            return ('opt', self.join(x, y))
        if a[0] == 'lit':
            a = ('int',)
        if b[0] == 'lit':
            b = ('int',)
        if {a[0], b[0]} <= {'int', 'real', 'bool'}:
            return ('real',) if 'real' in (a[0], b[0]) else ('int',)
        if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.join(x, y) for x, y in zip(a[1], b[1])),
                    a[2] or b[2])
        if a[0] == b[0] == 'lst':
            return ('lst', join_codec(a[1], b[1]), a[2])
        if a[0] == b[0] == 'set':
            return ('set', join_codec(a[1], b[1]))
        if a[0] == b[0] == 'dict':
            return ('dict', join_codec(a[1], b[1]), join_codec(a[2], b[2]))
        if a[0] == b[0] == 'arr':
            if a[1] != b[1]:
                return ('arr', L.RA.sexpr(), a[2])
            return ('arr', a[1], a[2] if a[2] is b[2] else None)
        if a[0] == b[0] == 'const' and a[1] is b[1]:
            return a
        if a[0] == b[0] == 'const':
            return ('opaque',)
        if 'opaque' in (a[0], b[0]):
            return ('opaque',)
        if 'abs' in (a[0], b[0]) or 'ref' in (a[0], b[0]):
            raise Unsupported('variable changes its type in a loop: %s / %s' %
                              (a[0], b[0]))
        return ('union', (a0, b0))

    def coerce(self, v, k):
        """the same value in the shape of the joined kind"""
        if isinstance(v, Poison):
            return v
        if k[0] == 'maybe':
            if v is UNBOUND:
                return MaybeV(z3.BoolVal(False),
                              self.fresh_kind(k[1], 'unbound'))
            if isinstance(v, MaybeV):
                return v
            return MaybeV(z3.BoolVal(True), self.coerce(v, k[1]))
        if k[0] == 'opt':
            if v is None:
                return OptV(z3.BoolVal(True), self.fresh_kind(k[1], 'none'))
            if isinstance(v, OptV):
                return v
            return OptV(z3.BoolVal(False), self.coerce(v, k[1]))
        if k[0] == 'union':
            if isinstance(v, UnionV):
                return v
            kv, kl = self.kind(v), self.kind(v, True)
            alts, tag = [], None
            for i, x in enumerate(k[1]):
                if tag is None and (self.join(kv, x) == x or
                                    self.join(kl, x) == x):
                    tag = i
                    alts.append(v)
                else:
                    alts.append(self.fresh_kind(x, 'other'))
            if tag is None:
                return v
            return UnionV(z3.IntVal(tag), alts)
        if k[0] == 'tup' and isinstance(v, tuple) and len(v) == len(k[1]):
            items = [self.coerce(x, y) for x, y in zip(v, k[1])]
            return NTup(k[2], items) if k[2] else tuple(items)
        if k[0] == 'lst' and k[1] is not None and isinstance(v, Lst) and \
                v.items is not None:
            if v.codec is None:
                self.cx.wr(v, 'codec', k[1])
            self.lib.to_sym(v)
        return v

    def fresh_kind(self, k, name):
        cx = self.cx
        t = k[0]
        if t == 'lit':
            return k[1]
        if t == 'int':
            return cx.fresh(name, I)
        if t == 'real':
            return cx.fresh(name, R)
        if t == 'bool':
            return cx.fresh(name, B)
        if t == 'none':
            return None
        if t == 'const':
            return k[1]
        if t == 'opaque':
            return Opaque('unknown ' + name)
        if t == 'maybe':
            return MaybeV(cx.fresh(name + '.bound', B),
                          self.fresh_kind(k[1], name))
        if t == 'union':
            tag = cx.fresh(name + '.tag', I)
            cx.assume(0 <= tag, tag < len(k[1]))
            return UnionV(tag, [self.fresh_kind(x, name) for x in k[1]])
        if t == 'opt':
            return OptV(cx.fresh(name + '.isnone', B),
                        self.fresh_kind(k[1], name))
        if t == 'tup':
            items = [self.fresh_kind(x, name) for x in k[1]]
            return NTup(k[2], items) if k[2] else tuple(items)
        if t == 'arr':
            srt = {L.IA.sexpr(): L.IA, L.RA.sexpr(): L.RA,
                   L.RowA.sexpr(): L.RowA, L.VA.sexpr(): L.VA,
                   L.SetI.sexpr(): L.SetI}[k[1]]
            n = cx.fresh(name + '.n', I)
            cx.assume(n >= 0)
            return Arr(cx, n, cx.fresh(name, srt), m=k[2])
        if t == 'lst':
            l = Lst(cx, items=[])
            if k[2]:
                l.maxlen = cx.fresh(name + '.maxlen', I)
            if k[1] is not None:
                l.havoc(cx, name, k[1])
            return l
        if t == 'set':
            s = SetV(cx, None, k[1])
            if k[1] is not None:
                s._s = cx.fresh(name, z3.ArraySort(k[1].sort, B))
            return s
        if t == 'dict':
            d = DictV(cx, pyd={})
            if k[1] is not None:
                d.havoc(cx, name, k[1], k[2])
            return d
        if t == 'graph':
            n = cx.fresh(name + '.n', I)
            cx.assume(n >= 0)
            return GraphV(cx, n, cx.fresh(name, L.GS))
        if t == 'vec':
            return VecV(cx, cx.vec_width, cx.fresh(name, L.RA))
        if t == 'row':
            return RowV(cx.fresh(name, L.Row))
        if t == 'snap':
            n = cx.fresh(name + '.n', I)
            cx.assume(n >= 0)
            return SnapV(n, cx.fresh(name, L.IA))
        if t == 'zobj':
            return ZObj(cx.fresh(name, ObjC.sort))
        if t == 'ref':
            return k[1]
        if t == 'abs':
            return k[1].fresh(self, name)
        raise Unsupported('cannot havoc %s' % t)

    def havoc_obj(self, obj, k):
        cx = self.cx
        nm = 'h%d' % obj.uid
        if isinstance(obj, Lst):
            if k[0] == 'abs':
                k[1].havoc(self, obj, nm)
            else:
                obj.havoc(cx, nm, k[1])
        elif isinstance(obj, SetV):
            if obj.home is not None:
                raise Unsupported('loop over an aliased set')
            obj.havoc(cx, nm, k[1])
        elif isinstance(obj, DictV):
            obj.havoc(cx, nm, k[1], k[2])
        else:
            obj.havoc(cx, nm)

    # ------------------------------------------------- loop summarisation
    def summarize(self, s, it):
        """replace a loop without carried state by its exact effect"""
        cx = self.cx
        fr = self.fr
        names = assigned_names(s.body + [s.target])
        x = cx.fresh('it', it.sort)
        outer = cx.summary

        def body():
            cx.summary = {'mark': mark, 'reads': set(), 'targets': {},
                          'effects': []}
            for n in names:
                if n in fr.env or True:
                    fr.env[n] = Poison('assigned in a summarised loop')
            cx.assume(it.dom(x))
            self.assign(s.target, it.val(x))
            self.block(s.body)
        mark = cx._uid
        nobl = set(cx.obls)
        try:
            res = cx.explore_sub(body)
        finally:
            targets_all = {}
            cx.summary = outer
        normal, exits = [], []
        for pc, out, fresh, eff in res:
            if out[0] == 'ok' or isinstance(out[1], ContinueEx):
                normal.append((pc, fresh, eff))
            else:
                exits.append((pc, out[1], fresh, eff))
        if exits and any(e for _, _, e in normal):
            for k in list(cx.obls):
                if k not in nobl:
                    del cx.obls[k]
            raise NotSummarizable('early exit with effects')
        if any(eff for _, _, _, eff in exits):
            for k in list(cx.obls):
                if k not in nobl:
                    del cx.obls[k]
            raise NotSummarizable('effects before early exit')
        conds = self.paths_to_conds(normal, x)

        def all_normal(*more):
            return self.cover(conds, [x], [it.dom(x)], more)
        exited = False
        if exits:
            exited = cx.choose('loop exit')
        if exited:
            # some iteration leaves the loop; earlier ones were normal
            x0 = cx.fresh('x0', it.sort)
            cx.assume(it.dom(x0))
            if it.ordered:
                cx.assume(*all_normal(x < x0))
            self.assign(s.target, it.val(x0))
            try:
                self.block(s.body)
            except BreakEx:
                return True
            except ContinueEx:
                raise PathEnd()
            raise PathEnd()
        # no early exit
        facts = all_normal()
        effects = {}
        for c in conds:
            for e in c.data:
                effects.setdefault((e[0].uid, e[1]), []).append((e, c))
        if normal:
            cx.assume(*facts)
        else:
            cx.assume(z3.ForAll([x], z3.Not(it.dom(x))))
        for key, es in effects.items():
            self.lib.apply_effects(es, it, x, conds)
        # the loop variables keep their last value: unknown
        for n in names:
            fr.env[n] = Poison('assigned in a summarised loop',
                               self.loop_key(s) if cx.summary is None
                               else None, id(cx.summary))
        self.block(s.orelse)
        return True

    def paths_to_conds(self, paths, *keys):
        """paths: (pc, fresh consts, data) -> conditions over the keys.

        A constant made on a path becomes a function of the keys that existed
        then; its name records the decisions taken before, so that paths with
        a common prefix share it and their guards exclude each other."""
        cx = self.cx
        cx.nfresh += 1
        tag = cx.nfresh
        out = []
        kid = {k.get_id() for k in keys}
        for pc, fresh, data in paths:
            sub, known = [], [keys[0]]
            if keys[0].get_id() not in {c.get_id() for c in fresh}:
                pass
            for c, pre in zip(fresh, fresh.prefix):
                if c.get_id() in kid:
                    if not any(c.eq(k) for k in known):
                        known.append(c)
                    continue
                nm = '%s@%d.%s' % (c.decl().name(), tag, ''.join(
                    '01'[bool(d)] for d in pre))
                sub.append((c, z3.Function(nm, *(
                    [k.sort() for k in known] + [c.sort()]))(*known)))
            items = [(i in pc.guards, z3.substitute(f, *sub) if sub else f)
                     for i, f in enumerate(pc)]
            out.append(Cond(items, [f for g, f in items if g], data, sub))
        return out

    def cover(self, conds, keys, doms, more=()):
        """formulas: for all keys in the domains one of the paths is taken,
        and everything learnt on a path holds for the keys that take it"""
        dk = []
        for d in doms:
            dk.extend(d.children() if z3.is_and(d) else [d])
        ids = {f.get_id() for f in dk}
        if not conds:
            return [z3.ForAll(keys, z3.Not(z3.And(*(dk + list(more)))))]
        out, seen = [], set()
        alts = []
        for c in conds:
            here = {f.get_id() for _, f in c.facts}
            gs = list(more) + [f for f in dk if f.get_id() not in here]
            for isg, f in c.facts:
                if f.get_id() in ids or isg:
                    gs.append(f)
                    continue
                q = under(keys, gs, f)
                if q is not None and q.get_id() not in seen:
                    seen.add(q.get_id())
                    out.append(q)
            alts.append(z3.And(*c.member) if len(c.member) > 1 else
                        c.member[0] if c.member else z3.BoolVal(True))
        some = z3.simplify(z3.Or(*alts))
        if not z3.is_true(some):
            out.append(under(keys, dk + list(more), some))
        return out

    # -------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        v = m(e)
        return v

    def resolve_opt(self, v):
        if isinstance(v, MaybeV):
            self.implicit('UnboundLocalError', v.bound,
                          'local variable is bound')
            v = v.val
            return self.resolve_opt(v) if isinstance(v, OptV) else v
        if isinstance(v, UnionV):
            for c, x in v.guarded()[:-1]:
                if self.cx.branch(c):
                    return x
            return v.alts[-1]
        if self.cx.branch(v.isnone):
            return None
        return v.val

    def ev_Constant(self, e):
        return e.value if not isinstance(e.value, (bytes, complex)) else \
            Opaque('const')

    def ev_Name(self, e):
        v = self.lookup(e.id, e)
        if isinstance(v, OptV):
            return self.resolve_opt(v)
        return v

    def ev_JoinedStr(self, e):
        return Opaque('str')

    def ev_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, tuple):
                    raise Unsupported('starred expression')
                out.extend(v)
            else:
                out.append(self.ev(x))
        return tuple(out)

    def ev_List(self, e):
        return Lst(self.cx, items=list(self.ev_Tuple(e)))

    def ev_Set(self, e):
        return self.lib.make_set([self.ev(x) for x in e.elts])

    def ev_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k)
            if z3.is_expr(kk):
                raise Unsupported('symbolic dict literal')
            d[kk] = self.ev(v)
        return DictV(self.cx, pyd=d)

    def ev_Attribute(self, e):
        v = self.getattr(self.ev(e.value), e.attr)
        if isinstance(v, OptV):
            return self.resolve_opt(v)
        return v

    def getattr(self, o, name):
        if isinstance(o, ModV):
            full = o.name + '.' + name
            if full in self.prog.mods:
                return ModV(full)
            m = self.prog.mods[o.name]
            if name in m.env:
                return self.static_value(m.env[name])
            raise Unsupported('module attribute %s' % full)
        if isinstance(o, LibV):
            return self.lib.lib_attr(o, name)
        if isinstance(o, ObjV):
            hook = self.lib.getattr_hook(o, name)
            if hook is not None:
                return hook[0]
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Stale):
                    v.read(self, o, name)
                return v
            if isinstance(o.cls, ClassV):
                self.static_value(o.cls)
                a, c = o.cls.lookup(name)
                if a is not None:
                    return self.bind(o, a, c)
                a, c = o.cls.lookup('__getattr__')
                if a is not None:
                    return self.call(BoundV(o, a), [name], {}, None)
            self.implicit('AttributeError', z3.BoolVal(False),
                          'attribute %s' % name)
            raise PathEnd()
        if isinstance(o, ClassV):
            a, c = o.lookup(name)
            if isinstance(a, FuncV):
                return a
            if a is not None:
                return self.static_value(a)
            raise Unsupported('class attribute %s' % name)
        if isinstance(o, NTup):
            if name in o.typ.fields:
                v = o[o.typ.fields.index(name)]
                return self.resolve_opt(v) if isinstance(v, OptV) else v
        if isinstance(o, Opaque) and o.tag == 'super':
            mro = o.mro
            for c in mro:
                if isinstance(c, ClassV) and name in c.attrs:
                    return self.bind(o.obj, c.attrs[name], c)
            if name == '__init__':
                return LibV('object.__init__')
            raise Unsupported('super().%s' % name)
        return self.lib.value_attr(o, name)

    def bind(self, o, a, c):
        if isinstance(a, FuncV):
            if 'staticmethod' in a.decorators:
                return a
            if 'property' in a.decorators:
                return self.call(BoundV(o, a), [], {}, None)
            return BoundV(o, a)
        return self.static_value(a)

    def ev_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        v = self.lib.getitem(o, k)
        if isinstance(v, OptV):
            return self.resolve_opt(v)
        return v

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return ('slice', self.ev(s.lower) if s.lower else None,
                    self.ev(s.upper) if s.upper else None,
                    self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def ev_UnaryOp(self, e):
        op = type(e.op).__name__
        v = self.ev(e.operand)
        if op == 'Not':
            b = self.truthz(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if op == 'USub':
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if is_num(v):
                return -to_z(v)
            return self.lib.elementwise1('neg', v)
        if op == 'Invert':
            return self.lib.elementwise1('not', v)
        if op == 'UAdd':
            return v
        raise Unsupported('unary %s' % op)

    def ev_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left),
                          self.ev(e.right))

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and \
                not isinstance(a, bool) and not isinstance(b, bool):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b,
                        'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                        'Pow': lambda: a ** b}[op]()
            except ZeroDivisionError:
                self.implicit('ZeroDivisionError', z3.BoolVal(False), '/ 0')
                raise PathEnd()
            except KeyError:
                raise Unsupported('operator ' + op)
        if (is_num(a) or isinstance(a, bool) or
                (z3.is_expr(a) and a.sort() == B)) and \
                (is_num(b) or isinstance(b, bool) or
                 (z3.is_expr(b) and b.sort() == B)):
            x, y = num2(a, b)
            if op == 'Add':
                return x + y
            if op == 'Sub':
                return x - y
            if op == 'Mult':
                return x * y
            if op == 'Div':
                self.implicit('ZeroDivisionError', y != 0, 'division')
                return to_real(x) / to_real(y)
            if op in ('FloorDiv', 'Mod') and x.sort() == I:
                self.implicit('ZeroDivisionError', y != 0, 'division')
                self.cx.oblige(y > 0, 'divisor positive (model)')
                return x / y if op == 'FloorDiv' else x % y
            raise Unsupported('operator ' + op)
        return self.lib.binop(op, a, b)

    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not z3.is_expr(v) else False
            if not isand and t:
                return v if not z3.is_expr(v) else True
        return v

    def ev_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            res = c if res is None else self.and2(res, c)
            if k < len(e.ops) - 1:
                if not self.truth(c):
                    return False
            left = right
        return res

    def and2(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(to_bool(a), to_bool(b))

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
                r = self.eq(a, b)
            else:
                r = a is b
            return self.neg(r) if op == 'IsNot' else r
        if op == 'In':
            return self.lib.contains(b, a)
        if op == 'NotIn':
            return self.neg(self.lib.contains(b, a))
        if (is_num(a) or isinstance(a, bool)) and \
                (is_num(b) or isinstance(b, bool)):
            if not z3.is_expr(a) and not z3.is_expr(b):
                return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b,
                        'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = num2(a, b)
            return {'Eq': x == y, 'NotEq': x != y, 'Lt': x < y,
                    'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.neg(self.eq(a, b))
        return self.lib.compare(op, a, b)

    def neg(self, r):
        if isinstance(r, bool):
            return not r
        if z3.is_expr(r):
            return z3.Not(r)
        return self.lib.elementwise1('not', r)

    def eq(self, a, b):
        if a is None or b is None:
            if isinstance(a, OptV):
                return a.isnone
            if isinstance(b, OptV):
                return b.isnone
            if isinstance(a, (Arr, VecV)) or isinstance(b, (Arr, VecV)):
                return False
            return a is None and b is None
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if (is_num(a) or isinstance(a, bool)) and \
                (is_num(b) or isinstance(b, bool)):
            if not z3.is_expr(a) and not z3.is_expr(b):
                return a == b
            x, y = num2(a, b)
            return x == y
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and2(r, self.eq(x, y))
            return r
        return self.lib.eq(a, b)

    def ev_IfExp(self, e):
        if self.truth(self.ev(e.test)):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def ev_Lambda(self, e):
        fv = FuncV(e, self.fr.module, '<lambda>', closure=self.fr)
        fv.defaults = [self.ev(d) for d in e.args.defaults]
        fv.evaluated = True
        return fv

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ev_ListComp(self, e):
        return self.lib.comp('list', e)

    def ev_SetComp(self, e):
        return self.lib.comp('set', e)

    def ev_GeneratorExp(self, e):
        return CompV(e, self.fr, 'gen')

    def ev_DictComp(self, e):
        return self.lib.comp('dict', e)

    def ev_Starred(self, e):
        raise Unsupported('starred')

    def truthz(self, v):
        """truth value as bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if z3.is_expr(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, OptV):
            r = self.resolve_opt(v)
            return self.truthz(r)
        if isinstance(v, (FuncV, ClassV, BoundV, MethV, ObjV)):
            return True
        return self.lib.truth(v)

    def truth(self, v):
        return self.cx.branch(self.truthz(v))

    # -------------------------------------------------------------- calls
    def ev_Call(self, e):
        fn = e.func
        # super()
        f = self.ev(fn)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, Lst) and v.items is not None:
                    v = tuple(v.items)
                if not isinstance(v, tuple):
                    raise Unsupported('* argument')
                args.extend(v)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, DictV) and v.pyd is not None:
                    kw.update(v.pyd)
                    continue
                raise Unsupported('** argument')
            kw[k.arg] = self.ev(k.value)
        line = self.fr.line
        self.fr.line = e.lineno
        r = self.call(f, args, kw, e)
        self.fr.line = line
        if isinstance(r, OptV):
            return self.resolve_opt(r)
        return r

    def call(self, f, args, kw, node=None):
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_repo(f.func, [f.obj] + list(args), kw, f.obj)
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_repo(f, args, kw, None)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, NTType):
            vals = list(args)
            for n in f.fields[len(vals):]:
                if n not in kw:
                    raise Unsupported('namedtuple arguments')
                vals.append(kw[n])
            return NTup(f, vals)
        if isinstance(f, LibV):
            self.used_lib.add(f.name)
            return self.lib.call(f.name, args, kw, node)
        if isinstance(f, MethV):
            return self.lib.method(f.obj, f.name, args, kw, node)
        if isinstance(f, ObjV) and isinstance(f.cls, ClassV):
            self.static_value(f.cls)
            a, c = f.cls.lookup('__call__')
            if a is not None:
                return self.call_repo(a, [f] + list(args), kw, f)
        return self.lib.call_value(f, args, kw, node)

    def bind_args(self, fv, args, kw):
        node = fv.node
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise('TypeError', self.cx.here())
            env[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for p, v in zip(params, args):
            env[p] = v
        for p in params[len(args):]:
            if p in kw:
                env[p] = kw.pop(p)
        for k in list(kw):
            if k in [x.arg for x in a.kwonlyargs]:
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                raise PyRaise('TypeError', self.cx.here())
            env[a.kwarg.arg] = DictV(self.cx, pyd=kw)
        nd = len(a.defaults)
        for k, p in enumerate(params):
            if p not in env:
                d = k - (len(params) - nd)
                if d < 0:
                    raise PyRaise('TypeError', self.cx.here())
                if getattr(fv, 'evaluated', False):
                    env[p] = fv.defaults[d]
                else:
                    env[p] = self.default_value(fv, a.defaults[d], d)
        for k, p in enumerate(a.kwonlyargs):
            if p.arg not in env:
                if a.kw_defaults[k] is None:
                    raise PyRaise('TypeError', self.cx.here())
                env[p.arg] = self.default_value(fv, a.kw_defaults[k],
                                                'k%d' % k)
        return env

    def default_value(self, fv, node, d):
        """default arguments are evaluated once, when the def is executed"""
        if isinstance(node, ast.Constant):
            return node.value
        key = ('default', fv.module.name, node.lineno, node.col_offset)
        g = self.cx.ghost.setdefault('defaults', {})
        if key not in g:
            g[key] = self.eval_static(node, fv.module)
        return g[key]

    def instantiate(self, c, args, kw):
        self.static_value(c)
        bases = c.all_bases()
        for b in bases:
            if isinstance(b, LibV) and b.name in EXC:
                return Opaque('exception', cls=c.name)
        o = ObjV(self.cx, c)
        init, _ = c.lookup('__init__')
        if init is not None:
            self.call_repo(init, [o] + list(args), kw, o)
        return o

    def call_repo(self, fv, args, kw, selfv):
        cx = self.cx
        env = self.bind_args(fv, args, kw)
        con = self.reg.find(fv, env, self)
        if con is not None and not con.inline_here(self, fv, env):
            self.used_contracts.add(con.name)
            return con.apply(self, fv, env)
        if is_generator(fv.node):
            raise Unsupported('generator %s without contract' % fv.qual)
        if len(cx.frames) > 30:
            raise Unsupported('recursion in %s' % fv.qual)
        return self.run_body(fv, env)

    def run_body(self, fv, env):
        cx = self.cx
        if fv.name != '<lambda>':
            self.inlined.add(fv.qual)
        f = Frame(fv, fv.module, fv.cls, fv.closure)
        f.env.update(env)
        params = [p.arg for p in getattr(fv.node.args, 'args', [])]
        if fv.cls is not None and params:
            f.selfv = env.get(params[0])
        depth = len(cx.frames)
        cx.frames.append(f)
        try:
            if isinstance(fv.node, ast.Lambda):
                r = self.ev(fv.node.body)
            else:
                self.block(fv.node.body)
                r = None
        except ReturnEx as e:
            r = e.v
        del cx.frames[depth:]
        return r

    # ---------------------------------------------------------- implicit
    def implicit(self, exc, cond, what):
        """an operation that raises `exc` unless cond holds"""
        cx = self.cx
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if z3.is_true(z3.simplify(cond)):
            return
        if self.handled(exc) or (self.active is not None and
                                 self.active.may_raise(self, exc)):
            if not cx.branch(cond):
                raise PyRaise(exc, cx.here())
            return
        cx.oblige(cond, 'no %s: %s' % (exc, what), kind='safety')
        cx.assume(cond)


class Stale(object):
    """field value left behind by an earlier fit"""
    def __init__(self, what):
        self.what = what

    def read(self, ip, o, name):
        ip.cx.oblige(z3.BoolVal(False),
                     'does not read state of an earlier fit: %s' % name,
                     kind='frame')
        raise PathEnd()


def free_in(f, keys):
    seen, st, out = set(), [f], set()
    ids = {k.get_id(): i for i, k in enumerate(keys)}
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.get_id() in ids:
            out.add(ids[e.get_id()])
        elif z3.is_quantifier(e):
            st.append(e.body())
        else:
            st.extend(e.children())
    return out


def under(keys, guards, f):
    """for all keys: guards -> f, with f's own quantifier pulled out"""
    if z3.is_true(f):
        return None
    used = set()
    for g in list(guards) + [f]:
        used |= free_in(g, keys)
    ks = [k for i, k in enumerate(keys) if i in used]
    if z3.is_quantifier(f) and f.is_forall() and f.num_patterns():
        vs = [z3.Const('%s.%d' % (f.var_name(i), len(ks)), f.var_sort(i))
              for i in range(f.num_vars())]
        rev = list(reversed(vs))
        body = z3.substitute_vars(f.body(), *rev)
        pats = []
        for i in range(f.num_patterns()):
            ts = [z3.substitute_vars(t, *rev) for t in f.pattern(i).children()]
            got = set()
            for t in ts:
                got |= free_in(t, ks)
            if len(got) == len(ks):
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        if pats:
            return z3.ForAll(ks + vs, z3.Implies(z3.And(*guards), body)
                             if guards else body, patterns=pats)
    body = z3.Implies(z3.And(*guards), f) if guards else f
    return z3.ForAll(ks, body) if ks else body


class Cond(object):
    """one path through a loop body or comprehension, over its keys"""
    def __init__(self, facts, member, data, sub):
        self.facts, self.member, self.data, self.sub = \
            facts, member, data, sub

    def when(self):
        return z3.And(*self.member) if self.member else z3.BoolVal(True)


class CompV(object):
    """unevaluated generator expression"""
    def __init__(self, node, frame, kind):
        self.node, self.frame, self.kind = node, frame, kind


class LoopGhost(object):
    """iteration state of a loop cut by invariants"""
    def __init__(self, node, it, inst, ip):
        self.node, self.it, self.inst, self.ip = node, it, inst, ip
        self.k = None
        self.visited = None
        self.var0 = None
        self.len0 = {}

    def enter(self, cx):
        self.frame = cx.frames[-1]
        self.depth = len(cx.frames) - 1
        self.pre_pc = len(cx.pc)
        if self.it is None:
            return
        if self.it.ordered:
            self.k = z3.IntVal(0)
        else:
            self.visited = z3.K(self.it.sort, z3.BoolVal(False))
            if self.it.sort == I and getattr(self.ip.active, 'ins_visited',
                                             False):
                self.visited = self.ip.lib.empty(I)

    def havoc(self, cx):
        if self.it is None:
            return
        if self.it.ordered:
            self.k = cx.fresh('k', I)
            cx.assume(self.k >= 0, self.k <= self.it.n)
        else:
            self.visited = cx.fresh('visited', z3.ArraySort(self.it.sort, B))
            x = z3.Const('x?', self.it.sort)
            cx.assume(z3.ForAll([x], z3.Implies(self.visited[x],
                                                self.it.dom(x)),
                                patterns=[self.visited[x]]))

    def has_next(self, cx):
        if self.it.ordered:
            return cx.branch(self.k < self.it.n)
        more = cx.choose('next element')
        if more:
            self.cur = cx.fresh('elem', self.it.sort)
            cx.assume(self.it.dom(self.cur), z3.Not(self.visited[self.cur]))
            return True
        x = z3.Const('x?', self.it.sort)
        cx.assume(z3.ForAll([x], z3.Implies(self.it.dom(x),
                                            self.visited[x])))
        return False

    def current(self, cx):
        if self.it.ordered:
            self.cur = self.k
        return self.it.val(self.cur)

    def advance(self, cx):
        if self.it.ordered:
            self.k = self.k + 1
        else:
            if self.it.sort == I and getattr(self.ip.active, 'ins_visited',
                                             False):
                self.visited = L.Ins(self.visited, self.cur)
            else:
                self.visited = z3.Store(self.visited, self.cur,
                                        z3.BoolVal(True))

    def finish(self, cx):
        pass

    def find(self, cx, loc):
        """heap object with this uid"""
        uid = loc[1]
        seen = set()
        st = [v for f in cx.frames for v in f.env.values()]
        st += list(cx.ghost.get('roots', []))
        while st:
            v = st.pop()
            if isinstance(v, HObj):
                if v.uid == uid:
                    return v
                if v.uid in seen:
                    continue
                seen.add(v.uid)
                if isinstance(v, ObjV):
                    st.extend(v.f.values())
                elif isinstance(v, Lst) and v.items is not None:
                    st.extend(v.items)
                elif isinstance(v, DictV) and v.pyd is not None:
                    st.extend(v.pyd.values())
            elif isinstance(v, tuple):
                st.extend(v)
            elif isinstance(v, OptV):
                st.extend(v.parts())
            elif isinstance(v, (BoundV, MethV)):
                st.append(v.obj)
            elif isinstance(v, dict):
                st.extend(v.values())
        return None


_gen = {}


def is_generator(node):
    k = id(node)
    if k not in _gen:
        r = False
        if isinstance(node, ast.FunctionDef):
            st = list(node.body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                st.extend(ast.iter_child_nodes(x))
        _gen[k] = (r, node)
    return _gen[k][0]


def lex_less(a, b):
    """a < b lexicographically, components bounded below by 0"""
    out = z3.BoolVal(False)
    eqs = []
    for x, y in zip(a, b):
        out = z3.Or(out, z3.And(*(eqs + [x < y, y >= 0])))
        eqs.append(x == y)
    return out
