"""Discharge of obligations: every obligation is a closed SMT problem
(hypotheses + relevant lemmas + negated goal); `unsat` means discharged."""
import hashlib
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import z3
from . import logic as L

CVC5 = '/usr/local/bin/cvc5'
for p in ('/opt/veriftools/bin/cvc5', '/usr/local/bin/cvc5', '/usr/bin/cvc5'):
    if os.path.exists(p):
        CVC5 = p
        break

Z3OLD = '/usr/bin/z3'             # z3 4.8, a different instantiation engine

STRATS = {
    'quick': [('z3', dict(mbqi=False, t=4)), ('z3-4.8', dict(t=5)),
              ('z3-4.8', dict(t=3, arith=6)),
              ('z3', dict(mbqi=True, t=5)), ('cvc5', dict(t=8)), ('z3', dict(mbqi=False, t=8, seed=7)),
              ('cvc5', dict(t=8, opt=['--full-saturate-quant'])),
              ('z3', dict(mbqi=False, t=15, seed=3))],
    # candidate invariants: most failures are real, so give up sooner
    'houdini': [('z3', dict(mbqi=False, t=3)), ('z3-4.8', dict(t=3)),
                ('z3', dict(mbqi=True, t=3)), ('cvc5', dict(t=5))],
    'init': [('z3', dict(mbqi=False, t=1.5)), ('z3-4.8', dict(t=1.5)),
             ('z3', dict(mbqi=True, t=1)), ('cvc5', dict(t=2))],
    'final': [('z3', dict(mbqi=False, t=30, seed=11)),
              ('z3-4.8', dict(t=30)), ('cvc5', dict(t=30)),
              ('z3', dict(mbqi=True, t=20, seed=5)),
              ('cvc5', dict(t=30, opt=['--full-saturate-quant']))],
    'vacuity': [('z3', dict(mbqi=False, t=2))],
}


def smt_of(ob, extra=()):
    s = z3.Solver()
    goal = z3.Not(ob.goal)
    fs = list(ob.hyps) + [goal]
    ax = L.axioms_for(fs, getattr(ob, 'skip', ()))
    for lm in ax:
        s.add(lm.formula)
    for f in fs:
        s.add(f)
    return s.to_smt2(), [lm.name for lm in ax]


def run_z3(smt, mbqi=True, t=5, seed=0, arith=None):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', int(t * 1000))
    s.set('auto_config', False)
    s.set('mbqi', mbqi)
    if seed:
        s.set('random_seed', seed)
    if arith is not None:
        s.set('arith.solver', arith)
    try:
        s.from_string(smt)
        r = s.check()
    except z3.Z3Exception as e:
        return 'error ' + str(e)[:200]
    return str(r)


def run_z3old(smt, t=5, seed=0, arith=2):
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write(smt)
        res = subprocess.run(
            [Z3OLD, 'smt.mbqi=false', 'smt.auto_config=false',
             'smt.random_seed=%d' % seed,
             'smt.arith.solver=%d' % arith, '-t:%d' % int(t * 1000), path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        out = res.stdout.decode(errors='replace').strip().splitlines()
        return out[0] if out else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'timeout'
    finally:
        os.unlink(path)


RUN = {'z3': lambda *a, **k: run_z3(*a, **k),
       'z3-4.8': lambda *a, **k: run_z3old(*a, **k),
       'cvc5': lambda *a, **k: run_cvc5(*a, **k)}


def run_cvc5(smt, t=10, opt=()):
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write('(set-logic ALL)\n' + smt)
        res = subprocess.run([CVC5, '--tlimit=%d' % (t * 1000)] + list(opt) +
                             [path], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, timeout=t + 10)
        out = res.stdout.decode(errors='replace').strip().splitlines()
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(path)


def solve(job):
    idx, smt, strat = job
    t0 = time.time()
    tried = []
    for kind, opts in STRATS[strat]:
        r = RUN[kind](smt, **opts)
        tried.append((kind, r))
        if r == 'unsat':
            return idx, 'proved', kind, time.time() - t0, tried
        if r == 'sat' and kind == 'z3':
            break
    return idx, 'failed', None, time.time() - t0, tried


class Prover(object):
    def __init__(self, workers=8):
        self.workers = workers
        self.pool = None
        self.cache = {}
        self.done = {}
        self.stats = {'solver_s': 0.0, 'z3': 0, 'z3-4.8': 0, 'cvc5': 0, 'trivial': 0}
        self.lemmas = set()

    def start(self):
        if self.pool is None:
            self.pool = mp.get_context('spawn').Pool(self.workers)

    def close(self):
        if self.pool is not None:
            self.pool.terminate()
            self.pool = None

    def prove(self, obs, strat='quick'):
        """list of (status, backend, seconds, tried) per obligation"""
        out = [None] * len(obs)
        jobs, where = [], {}
        for k, ob in enumerate(obs):
            if z3.is_true(ob.goal) or any(ob.goal.eq(h) for h in ob.hyps) or \
                    any(z3.is_false(h) for h in ob.hyps):
                out[k] = ('proved', 'trivial', 0.0, [])
                self.stats['trivial'] += 1
                continue
            smt, names = smt_of(ob)
            self.lemmas.update(names)
            sha = hashlib.sha1(smt.encode()).hexdigest()
            if sha in self.done:
                out[k] = self.done[sha]
                continue
            h = (sha, strat)
            if h in self.cache:
                out[k] = self.cache[h]
                continue
            if h in where:
                where[h].append(k)
                continue
            where[h] = [k]
            jobs.append((h, smt, strat))
        if jobs:
            self.start()
            for h, st, be, dt, tried in self.pool.imap_unordered(solve, jobs):
                self.cache[h] = (st, be, dt, tried)
                if st == 'proved':
                    self.done[h[0]] = self.cache[h]
                self.stats['solver_s'] += dt
                if be:
                    self.stats[be] += 1
                for k in where[h]:
                    out[k] = self.cache[h]
        return out
