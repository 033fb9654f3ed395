"""Contracts, the registry that callers use, and the verification driver."""
import os
import time
import traceback
import z3
from . import logic as L
from .core import *          # noqa
from .interp import Interp, Frame, LoopInst, is_generator
from .source import Program

I, R, B = L.I, L.R, L.B


class Args(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Contract(object):
    """contract of one function; subclasses state the specification"""
    target = None            # 'module:function' or 'module:Class.method'
    props = ()               # properties that rest on it
    cases = ('',)
    raises_ok = ()           # exceptions it may raise without further condition
    generator = False
    trusted = None           # reason, when assumed and not verified
    max_paths = 4000

    def __init__(self, name=None):
        self.name = name or self.target
        self.case = ''

    # ---- specification -------------------------------------------------
    def setup(self, ip):
        """fresh symbolic arguments: dict parameter -> value"""
        raise NotImplementedError

    def types_ok(self, ip, a):
        """are these call arguments of the kinds the contract speaks about"""
        return True

    def pre(self, ip, a):
        return []

    def old(self, ip, a):
        return {}

    def raises(self, ip, a):
        """{exception: condition under which it is raised (exactly)}"""
        return {}

    def frame(self, ip, a):
        """objects the function may modify"""
        return []

    def post(self, ip, a, o, res):
        return []

    def result(self, ip, a, o):
        raise Unsupported('contract %s gives no result' % self.name)

    def modify(self, ip, a, o):
        for obj in self.frame(ip, a):
            if isinstance(obj, tuple):
                obj, f = obj
                if f in obj.f:
                    ip.cx.wr_field(obj, f, ip.fresh_kind(
                        ip.kind(obj.f[f]), 'm%d.%s' % (obj.uid, f)))
            else:
                obj.havoc(ip.cx, 'm%d' % obj.uid)

    def invariants(self, ip, gh):
        return []

    def may_raise(self, ip, exc):
        return exc in self.raises_ok or exc in self.cur_raises

    cur_raises = ()

    # ---- use at call sites ---------------------------------------------
    def inline_here(self, ip, fv, env):
        return not self.types_ok(ip, Args(env))

    def apply(self, ip, fv, env):
        cx = ip.cx
        a = Args(env)
        for nm, f in self.pre(ip, a):
            cx.oblige(f, 'pre of %s: %s' % (self.short(), nm), kind='pre')
            cx.assume(f)
        self.note_inputs(ip, a)
        for exc, cond in self.raises(ip, a).items():
            if cx.branch(cond):
                raise PyRaise(exc, cx.here())
        for exc in self.raises_ok:
            if ip.handled(exc) or ip.active.may_raise(ip, exc):
                if cx.choose('raises ' + exc):
                    raise PyRaise(exc, cx.here())
        if cx.summary is not None and self.frame(ip, a):
            raise NotSummarizable('calls %s' % self.name)
        o = self.old(ip, a)
        self.modify(ip, a, o)
        res = self.result(ip, a, o)
        for nm, f in self.post(ip, a, o, res):
            cx.assume(f)
        return res

    def note_inputs(self, ip, a):
        pass

    def short(self):
        return self.name.split(':')[-1]

    # ---- helpers --------------------------------------------------------
    def require(self, *fs):
        for f in fs:
            pass


class Registry(object):
    def __init__(self):
        self.by = {}
        self.all = []

    def add(self, con):
        self.all.append(con)
        if con.target:
            self.by.setdefault(con.target, []).append(con)
        return con

    def find(self, fv, env, ip):
        for con in self.by.get(fv.qual, []):
            if getattr(con, 'at_calls', True) is False:
                continue
            return con
        return None


class Result(object):
    def __init__(self, con, case):
        self.con, self.case = con, case
        self.obls = []          # (Obligation, status tuple)
        self.undecided = []     # reasons
        self.paths = 0
        self.exits = 0
        self.inlined, self.used, self.lib = set(), set(), set()
        self.lines = None
        self.seconds = 0.0
        self.vacuous = []
        self.dead = []
        self.hints_failed = False
        self.loops = {}

    def failed(self):
        return [(o, r) for o, r in self.obls if r[0] != 'proved']

    def hints(self):
        """candidates given up at every instance of each loop"""
        out = {}
        for l in self.loops.values():
            if isinstance(l, LoopInst):
                d = {repr(k) for k in l.dead}
                out[l.hint] = out[l.hint] & d if l.hint in out else d
        return {k: sorted(v) for k, v in out.items() if v}


class Verifier(object):
    def __init__(self, repo, registry, prover, deadline=None):
        self.prog = Program(repo)
        self.reg, self.prover, self.deadline = registry, prover, deadline

    def verify(self, con, case=''):
        """proof of one contract case

        `hints` name loop-invariant candidates known not to hold, so that they
        need not be tried; a candidate given up is only ever an assumption
        less.  When the proof fails with hints, it is redone without."""
        h = self.hints.get('%s[%s]' % (con.name, case))
        res = self.verify1(con, case, h or {})
        if h and res.failed():
            t = res.seconds
            res = self.verify1(con, case, {})
            res.seconds += t
            res.hints_failed = True
        return res

    hints = {}

    def verify1(self, con, case, hints):
        res = Result(con, case)
        t0 = time.time()
        con.case = case
        try:
            self._verify(con, res, hints)
        except (Unsupported, NotSummarizable) as e:
            res.undecided.append('%s: outside the subset: %s [%s]' % (
                con.name, e, self.where()))
        except KeyError as e:
            res.undecided.append('%s: not found in the source (%s)' % (
                con.name, e))
            res.trace = traceback.format_exc()
        except RecursionError as e:
            res.undecided.append('%s: recursion limit' % con.name)
        except Exception as e:
            res.undecided.append('%s: verifier error %s: %s [%s]' % (
                con.name, type(e).__name__, e, self.where()))
            res.trace = traceback.format_exc()
            if os.environ.get('PYDED_TB'):
                with open(os.environ['PYDED_TB'], 'a') as fh:
                    fh.write(res.trace)
        res.seconds = time.time() - t0
        return res

    def where(self):
        try:
            return ' < '.join('%s:%s' % (f.module.name, f.line)
                              for f in reversed(self.cx.frames[-3:]))
        except Exception:
            return '?'

    def _verify(self, con, res, hints):
        fv = self.prog.get(con.target) if con.target else None
        cx = self.cx = Ctx()
        cx.func_name = con.name + ('[%s]' % con.case if con.case else '')
        ip = self.ip = Interp(self.prog, cx, self.reg)
        ip.active, ip.active_func = con, fv
        cx.eager = getattr(con, 'eager', False)
        cx.skip = frozenset(getattr(con, 'skip_lemmas', ()))
        ip.hints = {k: frozenset(v) for k, v in hints.items()}
        rounds = 0
        proven = {}
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('no fixpoint of the invariants')
            self.explore(con, fv, ip, cx, res)
            inv = [o for o in cx.obls.values()
                   if isinstance(o.kind, tuple) and o.kind[0] == 'inv']
            dead = False
            for strat, todo in (
                    ('init', [o for o in inv if o.name[:9] == 'loop-init']),
                    ('houdini', [o for o in inv
                                 if o.name[:9] != 'loop-init'])):
                if dead:
                    break
                rs = self.prover.prove(todo, strat)
                for o, r in zip(todo, rs):
                    if r[0] != 'proved':
                        _, key, k = o.kind
                        if k not in cx.loops[key].dead:
                            res.dead.append(o)
                            # the same loop on another path: give it up, too
                            for k2, l2 in cx.loops.items():
                                if isinstance(l2, LoopInst) and \
                                        k2[:3] == key[:3] and \
                                        k2[4] == key[4]:
                                    l2.dead.add(k)
                            dead = True
            if not dead:
                break
        obls = list(cx.obls.values())
        rs = self.prover.prove(obls, 'quick')
        res.obls = list(zip(obls, rs))
        res.inlined, res.used, res.lib = ip.inlined, ip.used_contracts, \
            ip.used_lib
        # vacuity: the hypotheses on some normal exit must not prove False
        vac = [Obligation('vacuity', '', pc, z3.BoolVal(False), 'vacuity',
                          con.name) for pc in res.exit_pcs]
        vac.sort(key=lambda o: -len(o.hyps))
        if len(vac) > 8:
            vac = vac[:4] + vac[-4:]
        rs = self.prover.prove(vac, 'vacuity')
        if vac and all(r[0] == 'proved' for r in rs):
            res.vacuous.append(con.name)
        res.vac = [r[0] for r in rs]
        res.loops = cx.loops

    def explore(self, con, fv, ip, cx, res):
        """all paths, until no loop needs to forget more than it did

        A path that finds a loop frame too small ends there; the other paths
        still run (to find as many as possible at once) and everything is
        thrown away and run again with the larger frames."""
        restarts = 0
        while True:
            cx.obls = {}
            cx.trail = []
            res.paths = res.exits = 0
            res.exit_pcs = []
            pending, unsupported = {}, None
            for i in cx.loops.values():
                if isinstance(i, LoopInst):
                    i.snap = i.state()
            while True:
                cx.reset()
                ip.try_stack = []
                res.paths += 1
                if res.paths > con.max_paths:
                    raise Unsupported('too many paths')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time limit of the verifier')
                try:
                    self.path(con, fv, ip, cx, res)
                except PathEnd:
                    pass
                except Restart:
                    pending.setdefault(None, None)
                except (Unsupported, NotSummarizable) as e:
                    if not pending:
                        raise
                for k, i in cx.loops.items():
                    if isinstance(i, LoopInst) and i.state() != i.snap:
                        if k in pending:
                            pending[k] = ip.merge_frames(pending[k],
                                                         i.state())
                        else:
                            pending[k] = i.state()
                        i.put(i.snap)
                if not cx.next_trail():
                    break
            if not pending:
                return
            for k, st in pending.items():
                if k is not None:
                    cx.loops[k].put(st)
            restarts += 1
            if restarts > 40:
                raise Unsupported('no fixpoint of the loop frames')

    def path(self, con, fv, ip, cx, res):
        base = Frame(fv, fv.module if fv else None, fv.cls if fv else None)
        if fv is None:
            raise Unsupported('no function')
        cx.frames.append(base)
        con.cur_raises = ()
        con.ghost = {}
        env = con.setup(ip)
        a = Args(env)
        for nm, f in con.pre(ip, a):
            cx.assume(f)
        con.note_inputs(ip, a)
        rs = con.raises(ip, a)
        con.cur_raises = tuple(rs)
        o = con.old(ip, a)
        con.a, con.o = a, o
        base.env.update({'%' + k: v for k, v in env.items()})
        jm = len(cx.journal)
        mark = cx._uid
        try:
            r = self.body(con, ip, fv, env)
        except PyRaise as e:
            res.exits += 1
            cls = e.cls
            cx.frames[1:] = []
            if cls in rs:
                cx.oblige(rs[cls], 'raises %s only when specified' % cls,
                          where=e.where, kind='raises')
                self.check_frame(con, ip, a, jm, mark, True)
            elif cls in con.raises_ok:
                self.check_frame(con, ip, a, jm, mark, True)
            else:
                cx.oblige(z3.BoolVal(False), 'raises no %s' % cls,
                          where=e.where, kind='raises')
            for nm, f in con.post_raise(ip, a, o, cls) \
                    if hasattr(con, 'post_raise') else []:
                cx.oblige(f, 'on %s: %s' % (cls, nm), where=e.where,
                          kind='post')
            return
        res.exits += 1
        res.exit_pcs.append(list(cx.pc))
        for exc, cond in rs.items():
            cx.oblige(z3.Not(cond) if z3.is_expr(cond) else not cond,
                      'raises %s whenever specified' % exc, kind='raises')
        for nm, f in con.post(ip, a, o, r):
            cx.oblige(f if z3.is_expr(f) else bool(f), 'post: %s' % nm,
                      kind='post')
        self.check_frame(con, ip, a, jm, mark, False)

    def body(self, con, ip, fv, env):
        if hasattr(con, 'run'):
            return con.run(ip, fv, env)
        return ip.run_body(fv, dict(env))

    def check_frame(self, con, ip, a, jm, mark, raised):
        """objects that existed before are unchanged unless in the frame"""
        cx = ip.cx
        allowed = set()
        for x in con.frame(ip, a):
            if isinstance(x, tuple):
                allowed.add((x[0].uid, x[1]))
            else:
                allowed.add(x.uid)
        first = {}
        for obj, field, oldv in cx.journal[jm:]:
            if obj.uid > mark or obj.uid in allowed:
                continue
            f = field[1] if isinstance(field, tuple) else field
            if (obj.uid, f) in allowed or field in ('meta', 'seq'):
                continue
            first.setdefault((obj.uid, field), (obj, field, oldv))
        for obj, field, oldv in first.values():
            if isinstance(field, tuple):
                new = obj.f.get(field[1], KeyError)
                same = new is oldv or (
                    z3.is_expr(new) and z3.is_expr(oldv) and new.eq(oldv))
                if not same and z3.is_expr(new) and z3.is_expr(oldv) and \
                        new.sort() == oldv.sort():
                    cx.oblige(new == oldv, 'frame: field %s unchanged' %
                              field[1], kind='frame')
                elif not same:
                    cx.oblige(z3.BoolVal(False),
                              'frame: field %s unchanged' % field[1],
                              kind='frame')
                continue
            new = getattr(obj, field)
            if new is oldv:
                continue
            nm = con.describe(obj) if hasattr(con, 'describe') else \
                self.name_of(a, obj)
            if z3.is_expr(new) and z3.is_expr(oldv) and \
                    new.sort() == oldv.sort():
                cx.oblige(new == oldv, 'frame: %s unchanged' % nm,
                          kind='frame')
            else:
                cx.oblige(z3.BoolVal(False), 'frame: %s unchanged' % nm,
                          kind='frame')

    def name_of(self, a, obj):
        for k, v in a.items():
            if v is obj:
                return k
        return 'object %d' % obj.uid
