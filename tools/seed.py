"""make and verify planted bugs.   python3 tools/seed.py SPECFILE [id...]

SPECFILE is a python file defining SEEDS = [dict(id, property, file, edits=[(old, new)...], needs, what, demo)], demo = python source.
Each one is applied in a scratch copy of /repo, tested there, demonstrated both ways, written to /verif/seeded/<id>, and the check of its
property (and, with ALL=1, of all properties) is run on the scratch copy through RZSA_REPO."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME='/root')


def sh(cmd, cwd, env=ENV, t=300):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def tests(copy):
    e = dict(ENV, PYTHONPATH=copy + '/src')
    return sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--timeout=300'], copy, e)


def demo(d, copy):
    e = dict(ENV, PYTHONPATH=copy + '/src')
    return sh(['bash', os.path.join(d, 'demo.sh')], copy, e)


def one(s, base):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    copy = tempfile.mkdtemp(prefix='rzseed')
    out = []
    try:
        sh(['cp', '-a', '/repo/.', copy], '/')
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        rc, o = demo(d, copy)
        if rc:
            return f'{s["id"]}: demo FAILS on clean: {o[-600:]}'
        f = copy + '/src/razorback/' + s['file']
        src = open(f, newline='').read()
        for a, b in s['edits']:
            if src.count(a) != 1:
                return f'{s["id"]}: edit matches {src.count(a)} times: {a[:60]!r}'
            src = src.replace(a, b)
        open(f, 'w', newline='').write(src)
        rc, diff = sh(['git', 'diff'], copy)
        open(d + '/patch.diff', 'w').write(diff)
        rc, o = tests(copy)
        if rc:
            return f'{s["id"]}: tests FAIL: {o[-500:]}'
        rc, o = demo(d, copy)
        if rc == 0:
            return f'{s["id"]}: demo passes with the bug'
        line = o.strip().splitlines()[-1][:100] if o.strip() else ''
        props = [s['property']]
        if os.environ.get('ALL'):
            props = ['C%02d' % i for i in range(1, 34)]
        res = []
        for p in props:
            e = dict(os.environ, RZSA_REPO=copy, RZSA_EVIDENCE=copy)
            rc, o = sh(['timeout', '900', 'python3', '-m', 'rzsa.check', p], V, e, 1000)
            if rc == 1:
                v = [l.strip() for l in o.splitlines() if 'violated:' in l]
                res.append(p + '! ' + '; '.join(x[10:70] for x in v[:2]))
            elif p == s['property'] or rc:
                u = [l.strip() for l in o.splitlines() if 'undecided:' in l]
                res.append(f'{p} MISSED rc={rc} ' + '; '.join(x[:80] for x in u[:3]))
        return f'{s["id"]} [{line}] -> ' + ' | '.join(res)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    from concurrent.futures import ThreadPoolExecutor
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    seeds = [s for s in seeds if not want or s['id'] in want]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda s: one(s, None), seeds):
            print(r, flush=True)


if __name__ == '__main__':
    main()
