"""python -m pyded.run --prop C01 --repo /repo --out F    (see check.py)

Verifies every contract that a property rests on: those that name it and,
transitively, the contracts their proofs use at call sites.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HINTS = os.path.join(HERE, 'contracts', 'hints.json')


def load_contracts():
    import contracts
    from contracts import base
    base.CONTRACTS[:] = []
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith('c_'):
            importlib.import_module('contracts.' + m)
    return [c() for c in base.CONTRACTS]


def load_hints():
    if os.path.exists(HINTS):
        with open(HINTS) as fh:
            return json.load(fh)
    return {}


def make(repo, workers, hints=True, deadline=None):
    from .contract import Registry, Verifier
    from .prove import Prover
    reg = Registry()
    for c in load_contracts():
        reg.add(c)
    pr = Prover(workers)
    ver = Verifier(repo, reg, pr, deadline)
    if hints:
        ver.hints = load_hints()
    return reg, pr, ver


# ------------------------------------------------------------ worker process
def worker(repo, workers, deadline, inq, outq):
    sys.setrecursionlimit(20000)
    try:
        reg, pr, ver = make(repo, workers, deadline=deadline)
        by = {c.name: c for c in reg.all}
        while True:
            job = inq.get()
            if job is None:
                break
            name, case = job
            st0 = dict(pr.stats)
            try:
                r = ver.verify(by[name], case)
                d = summary(r, pr, ver)
            except BaseException as e:
                d = dict(undecided=['%s: %s: %s' % (name, type(e).__name__, e)],
                         obls=[], used=[], inlined=[], lib=[], seconds=0,
                         trace=traceback.format_exc()[-1500:])
            d['stats'] = {k: pr.stats[k] - st0[k] for k in st0}
            d['lemmas'] = sorted(pr.lemmas)
            outq.put((job, d))
        pr.close()
    except BaseException as e:
        outq.put((None, '%s: %s' % (type(e).__name__, e)))


def summary(r, pr, ver):
    fails = []
    bad = r.failed()
    # last attempt for what is left: longer limits
    if bad and len(bad) <= 24:
        rs = pr.prove([o for o, _ in bad], 'final')
        bad = [(o, s) for (o, _), s in zip(bad, rs) if s[0] != 'proved']
    back = {}
    nbad = {id(o) for o, _ in bad}
    for o, s in r.obls:
        if id(o) not in nbad:
            k = s[1] or 'z3/cvc5 (long limits)'
            back[k] = back.get(k, 0) + 1
    for o, s in bad:
        fails.append(dict(
            name='%s%s: %s' % (r.con.short(),
                               '[%s]' % r.case if r.case else '', o.name),
            where=str(o.where), kind=o.kind if isinstance(o.kind, str)
            else 'loop invariant', answers=[list(map(str, x)) for x in s[3]],
            goal=str(o.goal)[:1500], path=[str(h)[:200]
                                           for h in o.hyps[-12:]]))
    kinds = {}
    for o, s in r.obls:
        k = o.kind if isinstance(o.kind, str) else 'loop invariant'
        kinds[k] = kinds.get(k, 0) + 1
    vac = ['%s: no exit is reachable under the contract' % r.con.name] \
        if r.vacuous else []
    if not r.obls and not r.undecided:
        vac.append('%s: no obligation was generated' % r.con.name)
    return dict(failed=fails, undecided=list(r.undecided) + vac,
                obls=len(r.obls), discharged=len(r.obls) - len(bad),
                kinds=kinds, back=back, seconds=r.seconds, paths=r.paths,
                exits=r.exits, used=sorted(getattr(r, 'used', ())),
                inlined=sorted(map(str, getattr(r, 'inlined', ()))),
                lib=sorted(map(str, getattr(r, 'lib', ()))),
                hints_failed=r.hints_failed)


class Pool(object):
    def __init__(self, repo, procs, workers, deadline):
        ctx = mp.get_context('spawn')
        self.inq, self.outq = ctx.Queue(), ctx.Queue()
        self.ps = [ctx.Process(target=worker, args=(
            repo, workers, deadline, self.inq, self.outq))
            for _ in range(procs)]
        for p in self.ps:
            p.start()

    def stop(self):
        for _ in self.ps:
            self.inq.put(None)
        t = time.time() + 5
        for p in self.ps:
            p.join(max(0.1, t - time.time()))
        for p in self.ps:
            if p.is_alive():
                p.kill()


def run_prop(a):
    t0 = time.time()
    limit = a.limit or (400 if a.tier == 'quick' else 2900)
    deadline = t0 + limit
    cons = load_contracts()
    by = {c.name: c for c in cons}
    want = [c for c in cons if a.prop in c.props]
    todo, seen, results = [], set(), {}
    pool = Pool(a.repo, a.procs, 2, deadline - 20)
    open_jobs = 0
    lemmas = set()
    stats = {}

    def add(c):
        nonlocal open_jobs
        if c.name in seen:
            return
        seen.add(c.name)
        if c.trusted:
            return
        for case in c.cases:
            pool.inq.put((c.name, case))
            open_jobs += 1
    cost = load_costs()
    for c in sorted(want, key=lambda c: -cost.get(c.name, 0)):
        add(c)
    errors = []
    while open_jobs:
        try:
            job, d = pool.outq.get(timeout=max(1, deadline - time.time()))
        except Exception:
            break
        if job is None:
            errors.append(d)
            if len(errors) >= a.procs:
                break
            continue
        open_jobs -= 1
        results[tuple(job)] = d
        lemmas.update(d['lemmas'])
        for k, v in d['stats'].items():
            stats[k] = stats.get(k, 0) + v
        if a.v:
            print('%6.1f %-70s %4d obl %3d failed %6.1fs %s' % (
                time.time() - t0, '%s[%s]' % tuple(job), d['obls'],
                len(d.get('failed', [])), d['seconds'],
                'UNDECIDED ' + d['undecided'][0][-150:]
                if d['undecided'] else ''))
            for f in d.get('failed', []):
                print('        ', f['name'][-100:], f['where'])
            sys.stdout.flush()
        for u in d['used']:
            if u in by:
                add(by[u])
    pool.stop()
    undecided = []
    for n in sorted(seen):
        c = by[n]
        if c.trusted:
            continue
        for case in c.cases:
            if (n, case) not in results:
                undecided.append('%s[%s]: not finished' % (n, case))
    failed, funcs, back, kinds = [], [], {}, {}
    obls = disch = 0
    lib, inl = set(), set()
    for (n, case), d in sorted(results.items()):
        failed += d.get('failed', [])
        undecided += ['%s' % u for u in d['undecided']]
        obls += d['obls']
        disch += d.get('discharged', 0)
        lib.update(d['lib'])
        inl.update(d['inlined'])
        for src, dst in ((d.get('back', {}), back), (d.get('kinds', {}),
                                                     kinds)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        funcs.append(dict(function=n, case=case, obligations=d['obls'],
                          discharged=d.get('discharged', 0),
                          paths=d.get('paths'), seconds=round(d['seconds'], 2),
                          undecided=d['undecided']))
    trusted = ['%s (assumed contract): %s' % (n, by[n].trusted)
               for n in sorted(seen) if by[n].trusted]
    out = dict(
        failed=failed, undecided=undecided, obligations=obls,
        discharged=disch,
        checker_cmd='cd /verif && %s -m pyded.run --prop %s --repo %s -v' % (
            sys.executable, a.prop, a.repo),
        trusted_base=TRUSTED_BASE + trusted + [
            'specification of %s as pyded/lib.py states it' % x
            for x in sorted(lib)],
        coverage=dict(
            functions_under_contract=funcs, functions_inlined=sorted(inl),
            obligations_by_kind=kinds, obligations_by_back_end=back,
            solver_seconds=round(stats.get('solver_s', 0), 1),
            lemmas_available=sorted(lemmas), undecided=undecided,
            proof_wall_s=round(time.time() - t0, 1)),
        assumptions=ASSUMPTIONS, errors=errors)
    if a.out:
        with open(a.out, 'w') as fh:
            json.dump(out, fh, indent=1, default=str)
    if a.v:
        print('%s: %d/%d obligations, %d failed, %d undecided, %.1f s' % (
            a.prop, disch, obls, len(failed), len(undecided),
            time.time() - t0))


def load_costs():
    return {}


TRUSTED_BASE = [
    'pyded: the generator of obligations (semantics of the Python subset)',
    'z3 4.x and cvc5 1.1: an answer `unsat` is taken as a proof',
]
ASSUMPTIONS = [
    'integers and floats are mathematical integers and reals (no overflow, '
    'no rounding, no NaN)',
    'partial correctness unless a loop variant is stated: termination of '
    'loops is not proved',
    'callers meet the preconditions on types (see `types_ok`/`setup` of each '
    'contract); library functions behave as pyded/lib.py specifies',
    'the graph lemmas in pyded/logic.py (proved in Lean where /verif/lean '
    'has them)',
]


# --------------------------------------------------------------- by hand
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--only')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--dump')
    ap.add_argument('--dead')
    ap.add_argument('--case')
    ap.add_argument('--no-hints', action='store_true')
    ap.add_argument('--keep')
    ap.add_argument('--write-hints', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    if a.prop and not a.only:
        return run_prop(a)
    reg, pr, ver = make(a.repo, 8, not a.no_hints)
    t0 = time.time()
    for con in reg.all:
        if a.prop and a.prop not in con.props:
            continue
        if a.only and a.only not in con.name:
            continue
        if con.trusted:
            continue
        for case in con.cases:
            if a.case and a.case != case:
                continue
            r = ver.verify(con, case)
            if a.keep or a.write_hints and not r.failed() and \
                    not r.undecided:
                hints = load_hints()
                h = r.hints()
                if a.keep and r.failed():
                    # development: drop hints about what is being looked at
                    h = {k: [x for x in v if not re.search(a.keep, x)]
                         for k, v in h.items()}
                hints.pop('%s[%s]' % (con.name, case), None)
                if h:
                    hints['%s[%s]' % (con.name, case)] = h
                with open(HINTS, 'w') as fh:
                    json.dump(hints, fh, indent=0, sort_keys=True)
            show(a, con, case, r)
    pr.close()
    print('%.1f s' % (time.time() - t0), pr.stats)


def show(a, con, case, r):
    bad = r.failed()
    print('%-60s %4d obl %3d failed %3d paths %2d exits %6.1fs' % (
        con.name + '[' + case + ']', len(r.obls), len(bad),
        r.paths, r.exits, r.seconds))
    for o, s in bad:
        print('   FAILED', o.name, o.where, s[3])
        if a.dump:
            dump(a.dump, o)
    if bad:
        for k, l in r.loops.items():
            if isinstance(l, str):
                continue
            print('   loop', l.line, 'alive', sorted(
                map(str, (l.alive_first or set()) - l.dead)),
                'DEAD', sorted(map(str, l.dead)))
    if a.dead:
        for i, o in enumerate(r.dead):
            if a.dead in o.name:
                print('   dead', o.name, o.where, o.kind[1][:2])
                dump('/tmp/w/dead%d.txt' % i, o)
    if r.vacuous:
        print('   VACUOUS', r.vac)
    elif 'proved' in getattr(r, 'vac', ()):
        print('   (some exits are infeasible)', r.vac)
    for u in r.undecided:
        print('   UNDECIDED', u)
        if hasattr(r, 'trace') and a.dump:
            print(r.trace)
    sys.stdout.flush()


def dump(path, o):
    from .prove import smt_of
    with open(path, 'w') as fh:
        fh.write('; %s %s\n' % (o.name, o.where))
        for h in o.hyps:
            fh.write(';H ' + str(h).replace('\n', '\n;   ') + '\n')
        fh.write(';G ' + str(o.goal).replace('\n', '\n;   ') + '\n')
        fh.write(smt_of(o)[0])


if __name__ == '__main__':
    main()
