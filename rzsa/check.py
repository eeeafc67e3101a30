"""Decide one property on the current tree.   python3 -m rzsa.check C01"""
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TimeUp(BaseException):
    pass


def known_findings():
    "known-findings.txt: 'finding: property=<id> key=<rule>|<construct> <what fails>' lines suppress, 'fixed:' lines do not"
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                pid, key, what = line[9:].split(' ', 2)
                out[(pid.split('=', 1)[1], key.split('=', 1)[1].replace('%20', ' '))] = what
    return out


def where(loc):
    if not loc:
        return ''
    return f'{loc[0]}:{loc[1]}' + (f' ({loc[2]})' if len(loc) > 2 else '')


def run(pid, tier='quick', repo=None, wall=480, share=120):
    """-> dict: items (one per obligation facet and per rule instance), in a form that can be written out"""
    t0 = time.time()
    sys.setrecursionlimit(12000)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    from . import loader, prove, props, flow
    ref = loader.Program(os.path.join(HERE, 'ref'))
    cur = loader.Program()
    S = prove.Session(ref, cur)
    obls, rules, minimum = props.PROPS[pid]
    obls = obls + props.support(S, obls, props.DEPTH.get(pid, 2))
    items = []
    left = lambda: wall - (time.time() - t0)

    def alarm(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)

    def guarded(f, default):
        try:
            signal.alarm(max(1, int(min(share, left()))))
            return f()
        except TimeUp:
            return default('time limit reached')
        except loader.AnalysisBroken as e:
            return default(f'anchor: {e}')
        except Exception as e:
            return default('analyser: ' + traceback.format_exc()[-400:])
        finally:
            signal.alarm(0)
    seen = set()
    for o in obls:
        if o.func not in ref.funcs:
            # an operation inherited from outside the repository: nothing to analyse
            continue
        k = (o.key(), tuple(o.facets), id(o.project))
        if k in seen:
            continue
        seen.add(k)
        gone = False
        try:
            cur.func(o.func)
        except loader.AnalysisBroken as e:
            gone = not prove.private_name(o.func)
            # a method inherited from a base class instead?
            if '.' in o.func and o.func.split('.')[0] in cur.classes:
                c, a = o.func.split('.', 1)
                gone = gone and cur.lookup(c, a.split('.')[0]) is None
                if cur.lookup(c, a.split('.')[0]) is not None:
                    items.append(dict(kind='obligation', name=f'{o.func}:present', status='UNKNOWN', detail='inherited', at=''))
                    continue
        if gone:
            items.append(dict(kind='obligation', name=f'{o.func}:present', status='DIFF', detail='public operation no longer present', at='',
                              rule='operation present'))
            continue
        res = guarded(lambda: S.check(o), lambda why: [prove.Finding(o, f, 'UNKNOWN', why) for f in o.facets])
        for f in res:
            items.append(dict(kind='obligation', name=f'{o.func}:{f.facet}', status=f.status, detail=f.detail, at=where(f.loc), boundary=f.cfg,
                              rule=FACETS.get(f.facet, f.facet)))
    # what the value graph abstracts from, in the functions these obligations went through
    reached = set()
    for k, f in S.cache.items():
        if k[0] == 'cur':
            reached |= set(f.visited) | {f.qual}
    reached = {q for q in reached if q in cur.funcs}
    if reached:
        rules = list(rules) + [lambda S, r=r: r(S, reached) for r in flow.LIFETIME if r not in rules]
    for r in rules:
        res = guarded(lambda: r(S), lambda why: None)
        if res is None:
            items.append(dict(kind='rule', name=f'{r.__name__}', status='UNKNOWN', detail='rule not decided', at='', rule=r.__name__))
            continue
        for x in res:
            items.append(dict(kind='rule', name=f'{x.rule}|{x.construct}', status=x.status, detail=x.detail, at=where(x.loc), rule=x.rule))
    visited = set()
    for k, f in S.cache.items():
        if k[0] == 'cur':
            visited |= set(f.visited) | {f.qual}
    return dict(items=items, functions=sorted(visited), files=[os.path.relpath(p, loader.REPO) for p in cur.files], wall=time.time() - t0,
                rules=[(r.__name__, (r.__doc__ or '').strip()) for r in rules if r.__doc__] + [(r.__name__, r.__doc__.strip()) for r in flow.LIFETIME if reached])


FACETS = {'ret': 'the value returned is the specified one', 'guards': 'the inputs refused are the specified ones',
          'fields': 'the attributes set have the specified values', 'mut': 'nothing else of the caller is changed',
          'io': 'the file and console operations are the specified ones', 'sig': 'parameters and defaults are the specified ones',
          'bugs': 'no operation that cannot succeed'}


def main(argv):
    from . import loader
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        r = run(pid, tier)
    except loader.AnalysisBroken as e:
        print(f'analysis broken: {e}')
        return 2
    items = r['items']
    known = known_findings()
    viol, kn = [], []
    for it in items:
        if it['status'] == 'DIFF':
            (kn if (pid, it['name']) in known else viol).append(it)
    und = [i for i in items if i['status'] == 'UNKNOWN']
    ok = [i for i in items if i['status'] == 'EQUAL']
    mins = minima().get(pid, 0)
    print(f'{pid}: {len(r["functions"])} functions of {len(r["files"])} files analysed; {len(items)} obligations and rule instances: '
          f'{len(ok)} hold, {len(viol)} violated, {len(kn)} known, {len(und)} undecided ({time.time()-t0:.1f} s)')
    for i in und:
        print(f'  undecided: {i["name"]} {i["at"]} {i["detail"][:600]}')
    for i in kn:
        print(f'KNOWN-FINDING: property={pid} {known[(pid, i["name"])]}')
    extra = {}
    if tier == 'thorough':
        from . import sensitivity
        extra = sensitivity.measure(pid, seed)
    out = os.environ.get('RZSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    rep = f'evidence/{pid}.report.txt'
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(explanation='Abstract interpretation of the current source into normalised value graphs; each obligation compares one facet '
                            'of a public function with its specification for all inputs (hold = proved equal by rewriting, violated = the two value '
                            'graphs differ at a named construct, undecided = neither); each rule instance is read off the value graph directly.',
                            obligations=sum(i['kind'] == 'obligation' for i in items), discharged=len([i for i in ok if i['kind'] == 'obligation']),
                            rule_instances=sum(i['kind'] == 'rule' for i in items), rule_instances_holding=len([i for i in ok if i['kind'] == 'rule']),
                            undecided=[i['name'] for i in und], functions_analysed=len(r['functions']), functions=r['functions'], files=r['files'],
                            minimum_instances=mins, rules=[f'{a}: {b}' for a, b in r['rules']],
                            samples=[dict(name=i['name'], rule=i['rule'], at=i['at'], status=i['status']) for i in items[:12]], **extra),
              assumptions=['semantics of numpy, dask and scipy operations as modelled in rzsa/ext.py', 'callers pass values of the documented kinds',
                           'attributes of analysed classes are not monkey-patched'])
    with open(os.path.join(out, f'{pid}.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    with open(os.path.join(out, f'{pid}.report.txt'), 'w') as h:
        for i in items:
            h.write(f'{i["status"]:8} {i["name"]}  [{i.get("rule","")}]  {i["at"]}  {i["detail"]}\n')
    if viol:
        for i in viol[:20]:
            print(f'  violated: {i["name"]} at {i["at"]}: {i["rule"]}\n      {i["detail"][:600]}')
        print(f'VIOLATION property={pid} replay={rep}')
        return 1
    if len(items) < mins // 2:
        print(f'analysis broken: {len(items)} instances, at least {mins} expected')
        return 2
    return 0


def minima():
    p = os.path.join(HERE, 'rzsa', 'minima.json')
    return json.load(open(p)) if os.path.exists(p) else {}


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
