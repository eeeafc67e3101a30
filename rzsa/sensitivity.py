"""Thorough tier: how discriminating the obligations of a property are.  The current source is edited in memory, one syntax-tree edit
at a time (operators, constants, arguments, statements removed, ...), inside the functions the property's obligations look at, and the
obligations are decided on each edited program.  Nothing is executed.  Edits may be harmless, so this is a measure, not a verdict."""
import os
import random
import sys
import time
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_G = {}


def _init(pid):
    from . import loader, prove, props
    sys.setrecursionlimit(12000)
    _G['ref'] = loader.Program(os.path.join(HERE, 'ref'))
    _G['pid'] = pid
    _G['cache'] = {}


def _one(job):
    from . import loader, prove, props
    path, src, desc = job
    try:
        cur = loader.Program(overrides={path: src})
        S = prove.Session(_G['ref'], cur)
        S.cache = {k: v for k, v in _G['cache'].items()}
        obls, rules, _ = props.PROPS[_G['pid']]
        st = 'EQUAL'
        for o in obls:
            if o.func not in _G['ref'].funcs:
                continue
            for f in S.check(o):
                if f.status == 'DIFF':
                    st = 'DIFF'
                elif f.status == 'UNKNOWN' and st == 'EQUAL':
                    st = 'UNKNOWN'
            if st == 'DIFF':
                break
        if st != 'DIFF':
            for r in rules:
                if any(x.status == 'DIFF' and 'compute_prefilter' not in x.construct for x in r(S)):
                    st = 'DIFF'
                    break
        _G['cache'].update({k: v for k, v in S.cache.items() if k[0] == 'ref'})
        return desc, st
    except Exception as e:
        return desc, 'UNKNOWN'


def measure(pid, seed, limit=160, wall=500):
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    from mutants import mutants
    from . import loader, prove, props, spec
    t0 = time.time()
    cur = loader.Program()
    S = prove.Session(loader.Program(os.path.join(HERE, 'ref')), cur)
    names = set()
    for o in props.PROPS[pid][0]:
        try:
            f = S.facets('cur', o, 'A', set(spec.PUBLIC) - {o.func})
            names |= set(f.visited) | {o.func}
        except Exception:
            pass
    if not names:
        names = set(cur.funcs)
    jobs = []
    for m in cur.modules.values():
        for desc, line, q, src in mutants(m.src):
            if q in names or f'{m.short}.{q}' in names:
                jobs.append((m.path, src, f'{m.short}:{line} {q}: {desc}'))
    total = len(jobs)
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:limit]
    n = {'DIFF': 0, 'UNKNOWN': 0, 'EQUAL': 0}
    silent = []
    done = 0
    pool = mp.Pool(8, _init, (pid,), maxtasksperchild=40)
    try:
        it = pool.imap_unordered(_one, jobs)
        for _ in jobs:
            try:
                desc, st = it.next(timeout=max(1, wall - (time.time() - t0)))
            except mp.TimeoutError:
                break
            done += 1
            n[st] += 1
            if st != 'DIFF' and len(silent) < 40:
                silent.append(f'{st} {desc}')
    finally:
        pool.terminate()
    return dict(sensitivity=dict(edits_possible=total, edits_decided=done, reported=n['DIFF'], undecided=n['UNKNOWN'], no_effect_on_property=n['EQUAL'],
                                 not_reported=silent))
