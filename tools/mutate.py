"""Self-test of the analyser: verdicts on AST mutants (no mutant is ever run).  usage: mutate.py [-r] OUT [module-substring]
-r: behaviour-preserving edits instead (no DIFF expected)"""
import sys, os, json, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rzsa.loader import Program
from rzsa import prove, spec
from mutants import mutants
from refactors import refactors

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')
ref = Program(REF)
base = Program()
S0 = prove.Session(ref, base)
OB = {}


def obligations():
    return [prove.Obl(q, 'ret guards fields mut io sig') for q in sorted(ref.funcs)]


def deps():
    d = {}
    for o in obligations():
        f = S0.facets('cur', o, 'A', set(spec.PUBLIC) - {o.func})
        for v in set(f.visited) | {o.func}:
            d.setdefault(v, []).append(o)
    return d


def work(job):
    path, mod, desc, line, qual, src = job
    t = time.time()
    try:
        cur = Program(overrides={path: src})
    except Exception as e:
        return (mod, line, qual, desc, 'NOPARSE', str(e), 0)
    S = prove.Session(ref, cur)
    S.cache = {k: v for k, v in S0.cache.items() if k[0] == 'ref'}
    q = qual if qual in D else mod + '.' + qual
    best, det = 'EQUAL', ''
    try:
        import signal
        signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError('slow')))
        signal.alarm(int(os.environ.get('ALARM', 60)))
        bugs0 = None
        for o in sorted(D.get(q, []) + D.get(q + '.setter', []), key=lambda o: (o.func != q, o.func.split('.')[0] != q.split('.')[0]))[:int(os.environ.get('DEEP', 4))]:
            for f in S.check(o):
                if f.status == 'DIFF':
                    best, det = 'DIFF', f'{f.obl.func}:{f.facet} {f.detail}'
                    break
                if f.status == 'UNKNOWN' and best == 'EQUAL':
                    best, det = 'UNKNOWN', f'{f.obl.func}:{f.facet} {f.detail}'
            if best == 'DIFF':
                break
            cf = S.cache.get(('cur', o.key(), 'A'))
            rf = S.cache.get(('ref', o.key(), 'A'))
            if cf and cf.bugs and len(cf.bugs) > len(rf.bugs):
                best, det = 'DIFF', 'bug ' + str(cf.bugs[0][:2])
                break
    except TimeoutError:
        best, det = 'SLOW', ''
    except Exception as e:
        import traceback
        det = traceback.format_exc()[-600:]
        best = 'CRASH'
    return (mod, line, qual, desc, best, det[:700], time.time() - t)


D = deps()

if __name__ == '__main__':
    REFAC = '-r' in sys.argv
    sys.argv = [a for a in sys.argv if a != '-r']
    out = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    jobs = []
    for name, m in base.modules.items():
        if pat and pat not in name:
            continue
        short = m.short
        for desc, line, qual, src in (refactors if REFAC else mutants)(m.src):
            jobs.append((m.path, short, desc, line, qual, src))
    if os.environ.get('PICK'): jobs = [j for j in jobs if j[2].startswith(os.environ['PICK'])]
    if os.environ.get('SKIP'):
        old = {tuple(json.loads(l)[:4]) for l in open(os.environ['SKIP'])}
        jobs = [j for j in jobs if (j[1], j[3], j[4], j[2]) not in old]
    if os.environ.get('SAMPLE'):
        import random; random.seed(7); random.shuffle(jobs); jobs = jobs[:int(os.environ['SAMPLE'])]
    print(len(jobs), 'mutants', flush=True)
    # prime ref cache
    for o in obligations():
        S0.facets('ref', o, 'A', set(spec.PUBLIC) - {o.func})
    t = time.time()
    import resource, tempfile
    J, live, n, todo = int(os.environ.get('J', '7')), {}, {}, list(jobs)[::-1]
    with open(out, 'w') as h:
        while todo or live:
            while todo and len(live) < J:
                j = todo.pop()
                fd, tmp = tempfile.mkstemp(prefix='rzmut')
                os.close(fd)
                pid = os.fork()
                if not pid:
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    try:
                        r = work(j)
                    except BaseException as e:
                        r = (j[1], j[3], j[4], j[2], 'CRASH', repr(e)[:200], 0)
                    open(tmp, 'w').write(json.dumps(r))
                    os._exit(0)
                live[pid] = (tmp, j)
            pid, st = os.wait()
            tmp, j = live.pop(pid)
            try:
                r = json.load(open(tmp))
            except ValueError:
                r = (j[1], j[3], j[4], j[2], 'DIED', str(st), 0)
            os.unlink(tmp)
            n[r[4]] = n.get(r[4], 0) + 1
            h.write(json.dumps(r) + '\n')
            h.flush()
    print(n, time.time() - t)
