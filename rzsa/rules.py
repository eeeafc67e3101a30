"""Direct rules: necessary conditions of a property, read off the value graph of the current source alone
(or of the current source against the operations the specification allows).  Each examines every instance and
returns one Result per instance."""
from .terms import *
from . import terms as T
from .prove import Obl, muts, bugs, external, root_of, origin, changed, private_name
from .diff import Differ, EQ, DF, UN
from .loader import AnalysisBroken
from . import spec, norm as N


class Result:
    def __init__(self, rule, construct, status, detail='', loc=None):
        self.rule, self.construct, self.status, self.detail, self.loc = rule, construct, status, detail, loc


def facets(S, func, consts=None, which='cur'):
    o = Obl(func, '', consts=consts or {})
    return S.facets(which, o, 'A', set(spec.PUBLIC) - {func})


def each(S, names=None):
    for q in sorted(names or S.cur.funcs):
        try:
            yield q, facets(S, q)
        except AnalysisBroken:
            continue


def walk(t, into=lambda n: True):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        yield x
        if into(x):
            todo.extend(x.args)


def mentions(t, pred):
    return next((n for n in walk(t) if pred(n)), None)


def here(f, loc=None):
    return loc or f.loc


# ---------------------------------------------------------------------- C01
def same_channel_map(S):
    "every synchronous signal built from others takes the calibrations of exactly the channels it takes the data of, in the same order"
    rule = 'data and calibrations are indexed by the same channel map'
    names = ['SyncSignal.select', 'SyncSignal.extract_i', 'SyncSignal.extract_t', 'SignalSet.merge', 'SignalSet.extract_t',
             'SignalSet.select_channels', 'SignalSet.select_runs', 'SignalSet.__getitem__', 'SignalSet.join']
    out = []

    def erase(t):
        if isinstance(t, tuple):
            return tuple(erase(x) for x in t)
        if not isinstance(t, Node):
            return t
        if t.op == 'idx' and isinstance(t.args[1], Node) and t.args[1].op == 'slice' and t.args[0].op == 'idx' \
                and t.args[0].args[0].op == 'attr' and t.args[0].args[0].args[1] == 'data':
            return erase(t.args[0])
        if t.op == 'attr' and t.args[1] in ('data', 'calibrations'):
            return mk('attr', erase(t.args[0]), 'channels')
        return mk(t.op, *[erase(a) for a in t.args])
    for q, f in each(S, names):
        k = 0
        for n in walk(f.ret):
            if n.op == 'new' and n.args[0] == 'SyncSignal':
                kv = dict(n.args[1])
                if 'data' not in kv or 'calibrations' not in kv:
                    continue
                k += 1
                a, b = N.norm(erase(kv['data'])), N.norm(erase(kv['calibrations']))
                a, b = renorm(a), renorm(b)
                st = EQ if a is b else Differ(norm=N.norm, vocab=f.vocab()).compare(a, b).s
                # `calibrations` of the whole signal next to `[x[a:b] for x in data]`
                out.append(Result(rule, f'{q}#{k}', EQ if st == EQ else UN if st == UN else DF,
                                  '' if st == EQ else f'data {show(a)[:200]}  calibrations {show(b)[:200]}', here(f)))
    return out


def renorm(t):
    "[s[k] for k<len(s)] = s, after the slices were erased"
    if isinstance(t, tuple):
        return tuple(renorm(x) for x in t)
    if not isinstance(t, Node):
        return t
    a = [renorm(x) for x in t.args]
    t = mk(t.op, *a)
    if t.op == 'map':
        try:
            n, c, body, bv = open_map(t)
        except Exception:
            return t
        if c is TRUE and body.op == 'idx' and body.args[1] is bv and n is length(body.args[0]):
            return body.args[0]
    return t


# ---------------------------------------------------------------------- C03
# operations whose documented effect is to change the object they are called on
MUTATORS = {'Inventory.append', 'Inventory.extend', 'TagsBase.__setitem__', 'TagsBase.__delitem__', 'TagsBase.__setattr__',
            'TagsBase.__delattr__', 'SignalSet.tags.setter', 'TagsBase.__init__', 'Tags.__init__', 'SignalSet.__init__',
            'SyncSignal.__init__', 'Inventory.__init__', 'Huber.__init__', 'Thomson.__init__', 'BoundedInfluenceStep.__init__',
            'Weights.__init__', 'Thomson.__call__', 'BoundedInfluenceStep.__call__', 'CoefficientOfDeterminationFilter.__init__',
            'BaseArrayProxy.__init__', 'FileArrayProxy.__init__', 'BinaryFileArray_1D.__init__', 'PluginGroup.__init__', 'cli.path'}
SCALAR = {'num', 'int', 'str', 'bool', 'none'}


def operands_unchanged(S):
    "no function changes in place an object it was given, other than the operations documented to do so on their own object"
    out = []
    rule = 'no in-place change of an object received from the caller'
    for q, f in each(S):
        try:
            r = facets(S, q, which='ref')
            old = {changed(x) for x, *_ in r.mut if external(origin(x))}
            oldroots = {origin(x).dig for x, *_ in r.mut if external(origin(x))}
        except AnalysisBroken:
            r, old, oldroots = None, set(), set()
        if r is None and q not in S.ref.funcs:
            continue        # a helper: seen through the functions that call it
        bad = None
        for x, how, e, loc in f.mut:
            if not external(origin(x)) or changed(x) in old:
                continue
            if how == 'inplace' and x.op == 'sym' and kind(x) in SCALAR:
                continue
            st = UN if (how == 'inplace' and kind(x) is None and x.op == 'sym') or f.error or e.cond is FALSE else DF
            if q in MUTATORS and origin(x).op == 'sym' and str(origin(x).args[0]).startswith('self:'):
                st = UN
            if bad is None or st == DF:
                bad = Result(rule, f'{q}: {show(x)[:80]} {how}', st, f'{show(x)[:200]} changed by {how}', loc)
        # attributes set on objects that are not the function's own
        if r is not None:
            for (o, a), v in f.fields.items():
                if external(o) and (o, a) not in r.fields and not (q in MUTATORS and str(root_of(o).args[0]).startswith('self:')):
                    if isinstance(a, str) and a.startswith('_') and str(root_of(o).args[0]).startswith('self:'):
                        continue        # a private cache: observable only through other results
                    bad = bad if bad and bad.status == DF else Result(rule, f'{q}: {show(o)[:80]}.{a}', DF, f'{show(o)[:200]}.{a} set', f.loc)
        out.append(bad or Result(rule, q, EQ, '', f.loc))
    return out


# ---------------------------------------------------------------------- C26
def refusing(S, memo={}):
    "the classes whose constructor refuses some arguments"
    r = memo.get(id(S))
    if r is None:
        import ast
        r = memo[id(S)] = set()
        for c in S.ref.classes:
            for name in ('__init__', '__setitem__', 'update'):
                m = S.ref.lookup(c, name)
                if m and m[0] == 'method' and any(isinstance(n, (ast.Assert, ast.Raise)) for n in ast.walk(m[1].node)):
                    r.add(c)
    return r


def refused_without_damage(S):
    "no operation changes an object of the caller and then refuses the call on the same path"
    rule = 'a refused call leaves its object as it was'
    out = []

    def damages(f):
        done, depth = [], 0
        for e in f.events:
            if e.kind == 'try':
                depth += 1
            elif e.kind == 'endtry':
                depth -= 1
            elif e.kind == 'mutate' and isinstance(e.data.args[0], Node) and external(origin(e.data.args[0])):
                done.append((e, e.data.args[0], str(e.data.args[1])))
            elif e.kind == 'setattr' and external(e.data.args[0]):
                done.append((e, e.data.args[0], '.' + str(e.data.args[1])))
            elif e.kind in ('assert', 'raise') and depth == 0 and done:
                fail = and_(e.cond, not_(e.data)) if e.kind == 'assert' else e.cond
                for m, x, how in done:
                    if N.norm(and_(m.cond, fail)) is not FALSE:
                        yield x, how, m, e
            elif e.kind == 'new' and depth == 0 and done and e.data.args[0] in refusing(S):
                for m, x, how in done:
                    if m.kind == 'setattr' and N.norm(and_(m.cond, e.cond)) is not FALSE:
                        yield x, how, m, e
    for q, f in each(S):
        if q not in S.ref.funcs or q.endswith('__init__'):
            continue
        try:
            old = {(changed(x), PUT.get(how, how)) for x, how, m, e in damages(facets(S, q, which='ref'))}
        except AnalysisBroken:
            continue
        bad = None
        for x, how, m, e in damages(f):
            if (changed(x), PUT.get(how, how)) not in old and not f.error:
                bad = Result(rule, f'{q}: {show(x)[:80]} {how}', DF, f'{show(x)[:120]} is changed before the call is refused at line {e.loc[1] if e.loc else "?"}', m.loc)
                break
        out.append(bad or Result(rule, q, EQ, '', f.loc))
    return out


PUT = {repr(x): 'put' for x in ('setitem', 'update', 'setdefault')}

# ---------------------------------------------------------------------- C11
ORIGIN = {'start', 'stop', 'interval', 'starts', 'stops', 'intervals'}


def time_origin(S):
    "Fourier coefficients and transfer functions do not read the absolute start time; times returned add it exactly once"
    rule = 'no information flow from the start time'
    out = []

    def flow(q, term, what):
        n = mentions(term, lambda n: n.op == 'attr' and n.args[1] in ORIGIN and kindof(n.args[0]) in ('SyncSignal', 'SignalSet', None))
        out.append(Result(rule, f'{q}:{what}', EQ if n is None else DF, '' if n is None else f'{what} reads {show(n)[:200]}', facets(S, q).loc))
    for q in ('SyncSignal.fourier_coefficients', 'SignalSet.fourier_coefficients'):
        f = facets(S, q)
        flow(q, f.ret, 'coefficients and window geometry')
    from .props import only
    f = facets(S, 'utils.impedance')
    flow('utils.impedance', only('ImpedanceResult', 'impedance', 'error', 'transfer_mag')(f.ret), 'impedance, error, remote transfer')
    f = facets(S, 'utils.prefilter_values')
    v = f.ret
    if v.op == 'seq' and len(v.args) == 2 or v.op == 'seq':
        flow('utils.prefilter_values', v.args[0][0] if isinstance(v.args[0], tuple) else v.args[0], 'values')
    return out


def kindof(n):
    k = kind(n)
    return k[1] if isinstance(k, tuple) and k and k[0] == 'obj' else None


# ---------------------------------------------------------------------- C13
def state_reset(S):
    "on iteration 0 the value returned and the state left behind do not depend on the state found"
    rule = 'state written before it is read on iteration 0'
    out = []
    for q in ('Huber.__call__', 'Thomson.__call__', 'BoundedInfluenceStep.__call__'):
        try:
            fi = S.cur.func(q)
        except AnalysisBroken:
            continue
        full = facets(S, q)
        state = {a for (o, a) in full.fields if o.op == 'sym' and str(o.args[0]).startswith('self:')}
        p = fi.params()
        f = facets(S, q, {p[1]: const(0)}) if len(p) > 1 else full
        bad = None
        for what, t in [('returned weight', f.ret)] + [(f'state {a}', v) for (o, a), v in f.fields.items()]:
            t = N.norm(t)
            n = mentions(reads_only(t), lambda n: n.op == 'attr' and n.args[1] in state and n.args[0].op == 'sym')
            # dstore(s, k, v) keeps the other entries of s: what matters is reading an entry
            r = next((x for x in walk(t) if x.op in ('lookup', 'getor', 'kwget') and attr_in(x, state)), None)
            if what == 'returned weight' and n is not None or r is not None:
                bad = Result(rule, f'{q}:{what}', DF, f'on iteration 0 the {what} reads {show(r if r is not None else n)[:200]} left by an earlier estimate', f.loc)
        for g, loc in f.guards:
            n = mentions(N.norm(g), lambda n: n.op == 'attr' and n.args[1] in state and n.args[0].op == 'sym')
            if n is not None and bad is None:
                bad = Result(rule, f'{q}:guard', UN, f'on iteration 0 the check {show(g)[:150]} reads {show(n)[:100]}', loc)
        out.append(bad or Result(rule, f'{q} (state: {", ".join(sorted(state)) or "none"})', EQ, '', f.loc))
    return out


def reads_only(t):
    return t


def attr_in(x, state):
    y = x.args[0]
    while isinstance(y, Node) and y.op == 'dstore':
        if y.args[1] is x.args[1]:
            return False
        y = y.args[0]
    return isinstance(y, Node) and y.op == 'attr' and y.args[1] in state


# ---------------------------------------------------------------------- C14
SOURCES = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk', '.iterdir', '.glob', '.rglob'}
SINKS = {'sorted', 'set', 'len', 'redmin', 'redmax', 'any', 'all', 'in', 'union', 'sum', 'mean', 'countersum'}
AMBIENT = {'random', 'rand', 'randn', 'randint', 'shuffle', 'choice', 'permutation', 'time', 'time_ns', 'now', 'utcnow', 'today', 'uuid4',
           'urandom', 'getrandbits', 'default_rng', 'perf_counter', 'monotonic', 'id', 'hash', 'getpid', 'random_sample', 'uniform', 'normal'}


def callname(n):
    if n.op == 'call' and n.args and isinstance(n.args[0], Node):
        return str(n.args[0])
    if n.op == 'mcall':
        return str(n.args[0])
    return ''


PASS = {'arr', 'listof', 'view', 'reversed', 'keys', 'items', 'values', 'concat', 'flatten', 'astype', 'T', 'unzip'}


def ties(k):
    "a sort key that is the same for different elements"
    if k.op in ('len', 'abs', 'trunc', 'floor', 'ceil', 'const', 'truthy', 'in', 'isinstance'):
        return k is not NONE
    if k.op == 'mcall' and str(k.args[0]).split('.')[-1] in ('lower', 'upper', 'casefold', 'strip', 'count', 'startswith', 'endswith'):
        return True
    if k.op == 'idx' and k.args[0].op == 'sym' and k.args[1].op in ('const', 'slice'):
        return True
    if k.op == 'seq':
        return all(ties(x) for x in k.args if isinstance(x, Node))
    return False


def disorder(t):
    """where a value comes to depend on the iteration order of a set or a directory listing.  Each term has a status: (its own order is
    arbitrary, its contents depend on an arbitrary order); sorting, counting or making a set of a sequence of arbitrary order forgets it, taking
    an element of it by position does not."""
    memo, found = {}, []

    def source(n):
        if n.op == 'setseq':
            return 'iteration order of a set'
        if n.op == 'call' and any(str(n.args[0]).strip("'") == s or show(n).startswith(f'call({s},') for s in SOURCES if s[0] != '.'):
            return 'order of a directory listing'
        if n.op == 'mcall' and str(n.args[0]).strip("'") in ('iterdir', 'glob', 'rglob'):
            return 'order of a directory listing'

    def kids(n):
        st = list(n.args)
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Node):
                yield x

    def note(n, why):
        if not any(m is n for m, _ in found):
            found.append((n, why))

    def go(n):
        r = memo.get(n)
        if r is None:
            memo[n] = (False, False, None, frozenset(), frozenset())
            r = memo[n] = rule(n)
        return r

    def rule(n):
        """-> own order arbitrary, contents arbitrary, why, indices into arbitrary orders, indices used otherwise"""
        if n.op == 'bv':
            return False, False, None, frozenset(), frozenset([n])
        if n.op == 'idx' and n.args[1].op == 'bv':
            o, i, w, u, raw = go(n.args[0])
            return (i, i, w, u | {n.args[1]}, raw) if o else (i, i, w, u, raw | {n.args[1]})
        ks = [(k, go(k)) for k in kids(n)]
        u = frozenset().union(*[k[3] for _, k in ks]) if ks else frozenset()
        raw = frozenset().union(*[k[4] for _, k in ks]) if ks else frozenset()
        o, i = any(k[0] for _, k in ks), any(k[1] for _, k in ks)
        w = next((k[2] for _, k in ks if k[2]), None)
        src = source(n)
        if src:
            return True, i, src, u, raw
        if n.op in ('map', 'fmap', 'dmap', 'lam'):
            bv = mk('bv', n.args[0])
            body = [go(x) for x in n.args[2:]]
            inner = any(b[0] or b[1] for b in body)
            mine = bv in u
            if mine and bv in raw - go(n.args[1])[4]:
                note(n, w or 'iteration order of a set')
                return False, True, w, u - {bv}, raw - {bv}
            return mine, inner, w, u - {bv}, raw - {bv}
        if n.op == 'idx':
            c = go(n.args[0])
            if c[0]:
                note(n, w)
                return False, True, w, u, raw
            return c[1], c[1] or go(n.args[1])[1], w, u, raw
        if n.op == 'lookup':
            d = go(n.args[0])
            own = d[0] and n.args[0].op in ('dgroup', 'attr')
            return own, d[1], w, u, raw
        if n.op == 'sorted' and ties(n.args[1]):
            # equal keys: the order they came in remains
            return o, i, w, u, raw
        if n.op in SINKS:
            return False, i and n.op != 'len', w if i else None, u, raw
        if n.op in ('dgroup',) or n.op in PASS:
            return o, i, w, u, raw
        if n.op == 'ite':
            c = go(n.args[0])
            if c[0]:
                note(n, w)
            return any(go(x)[0] for x in n.args[1:]), i or c[0], w, u, raw
        if n.op == 'seq':
            return False, o or i, w, u, raw
        if o:
            note(n, w)
        return False, o or i, w, u, raw
    r = go(t)
    if r[0] or r[1]:
        note(t, r[2] or 'iteration order of a set')
    return found


def order_independent(S):
    "nothing ordered is built from the iteration order of a set or of a directory listing, and nothing reads a clock or a random source"
    rule = 'no order taken from a set or a directory listing'
    out = []
    for q, f in each(S):
        try:
            r = facets(S, q, which='ref')
        except AnalysisBroken:
            r = None
        terms = [('result', f.ret)] + [(str(a), v) for (o, a), v in f.fields.items()]
        bad = None

        both = lambda x: [n for t in ([x.ret] + list(x.fields.values()) if x else []) if isinstance(t, Node) for n in disorder(t)]
        old = both(r)
        known = {n.dig for n, _ in old}
        kind_ = lambda n: (n.op, n.args[0] if n.args and isinstance(n.args[0], str) else '')
        here_ = {n.dig for n, _ in both(f)} if old else ()
        spare = [kind_(n) for n, _ in old if n.dig not in here_]
        for w, t in terms:
            if not isinstance(t, Node):
                continue
            for n, why in disorder(t):
                if n.dig in known:
                    continue
                if kind_(n) in spare:       # the confirmed place, written otherwise
                    spare.remove(kind_(n))
                    st = UN
                else:
                    st = DF if r is not None else UN
                if bad is None or st == DF:
                    bad = Result(rule, f'{q}:{w}', st, f'{w} depends on the {why}: {show(n)[:200]}', f.loc)
        for e in f.events:
            if e.kind == 'extcall':
                nm = str(e.data.args[0]).strip("'")
                last = nm.split('.')[-1]
                if last in AMBIENT and nm.split('.')[0] in ('random', 'time', 'datetime', 'uuid', 'os', 'secrets') or nm.startswith('numpy.random.') \
                        or nm in ('builtins.id', 'builtins.hash'):
                    if not q.endswith('__hash__'):
                        bad = Result(rule, f'{q}:{nm}', DF, f'call of {nm}', e.loc)
        out.append(bad or Result(rule, q, EQ, '', f.loc))
    return out


# ---------------------------------------------------------------------- C16
def contained_failures(S):
    "with silent_fail, a failing frequency raises nothing, and no frequency sees the outcome of another"
    rule = 'a failing frequency is contained'
    out = []
    q = 'utils.impedance'
    f = facets(S, q, {'silent_fail': TRUE})
    risky = ('SignalSet.fourier_coefficients', 'mestimator.transfer_function', 'utils.transfer_function_real_prob')
    stack = []
    n = 0
    for e in f.events:
        if e.kind == 'try':
            stack.append(cval(e.data))
        elif e.kind == 'endtry':
            stack.pop()
        elif e.kind == 'ccall' and any(e.data.args[0] == r for r in risky):
            n += 1
            ok = 'all' in stack
            out.append(Result(rule, f'{q}: call of {e.data.args[0]} #{n}', EQ if ok else DF,
                              '' if ok else f'{e.data.args[0]} called where some of its failures are not caught: they would abort every frequency', e.loc))
    for g, loc in f.guards:
        raised = mentions(g, lambda n: n.op == 'raised')
        if raised is not None and N.norm(g) is not TRUE:
            out.append(Result(rule, f'{q}: re-raise', DF, f'raises although silent_fail is set: unless {show(g)[:200]}', loc))
    for x in walk(f.ret):
        if x.op in ('fold', 'acc', 'gloop', 'foldat', 'loopat'):
            if not mentions(facets(S, q, {'silent_fail': TRUE}, 'ref').ret, lambda n: n.op == x.op):
                out.append(Result(rule, f'{q}: state carried between frequencies', UN, f'{show(x)[:200]}', f.loc))
                break
    return out


# ---------------------------------------------------------------------- C19
WRITES = {'mkdir', 'makedirs', 'write', 'remove', 'unlink', 'rmdir', 'rename', 'touch', 'write_text', 'write_bytes', 'save', 'savez', 'savetxt',
          'tofile', 'memmap', 'rmtree', 'move', 'copyfile', 'copy2', 'copytree', 'truncate', 'writelines', 'symlink', 'symlink_to', 'chmod',
          'chdir', 'system', 'popen', 'Popen', 'check_call', 'check_output', 'putenv', 'utime', 'mkstemp', 'mkdtemp', 'NamedTemporaryFile'}


def filesystem_effects(S):
    "the only write to the file system is the directory made by the command line when asked to create it and it does not exist"
    rule = 'nothing is written, except by the explicit create option'
    out = []
    for q, f in each(S):
        if q not in S.ref.funcs:
            continue
        bad = None
        n = 0
        for e in f.events:
            if e.kind != 'extcall':
                continue
            nm = str(e.data.args[0]).strip("'")
            last = nm.split('.')[-1]
            if last == 'open' or last == 'fdopen':
                n += 1
                mode = e.data.args[2] if len(e.data.args) > 2 else const('r')
                mode = next((x for x in walk(seq(*e.data.args[1:])) if x.op == 'const' and isinstance(cval(x), str) and set(cval(x)) & set('wax+')
                             and set(cval(x)) <= set('rwaxbt+')), None)
                if mode is not None:
                    bad = Result(rule, f'{q}: open for writing', DF, f'file opened with mode {cval(mode)!r}', e.loc)
            elif last in WRITES and (nm.startswith('.') or nm.split('.')[0] in ('os', 'shutil', 'pathlib', 'numpy', 'tempfile', 'subprocess', 'builtins')):
                if last == 'copy2' and nm.startswith('.'):
                    continue
                n += 1
                c = e.cond
                if last in ('mkdir', 'makedirs') and q.startswith('cli.'):
                    created = mentions(c, lambda n: n.op in ('lookup', 'sym', 'idx', 'getor') and 'create' in show(n))
                    missing = mentions(c, lambda n: n.op == 'not' and 'exists' in show(n.args[0]) or n.op == 'not' and 'is_dir' in show(n.args[0]))
                    okc = implied(c, lambda n: 'create' in show(n) and n.op != 'not')
                    if created is not None and okc and missing is not None:
                        continue
                    bad = Result(rule, f'{q}: {last}', DF if created is None or not okc else UN, f'directory created when {show(c)[:200]}', e.loc)
                    continue
                bad = Result(rule, f'{q}: {nm}', DF, f'{nm} called', e.loc)
        out.append(bad or Result(rule, f'{q} ({n} file operations)', EQ, '', f.loc))
    return out


def implied(c, pred):
    return any(pred(x) for x in (c.args if c.op == 'and' else (c,)))


def files_closed(S):
    "every file opened is opened by a with statement, or closed in a finally clause"
    rule = 'files are closed on every path'
    import ast
    out = []
    for m in S.cur.modules.values():
        tree = m.tree
        opens = {}
        managed = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = ast.unparse(n.func)
                if nm == 'open' or nm.split('.')[-1] == 'open' and nm.split('.')[0] in ('io', 'os', 'gzip', 'codecs', 'pathlib') or nm.endswith('.open'):
                    opens[n] = nm
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    for x in ast.walk(it.context_expr):
                        managed.add(x)
        for n, nm in opens.items():
            st, why = EQ, ''
            if n not in managed:
                fn = enclosing(tree, n)
                src = ast.unparse(fn) if fn is not None else ''
                other = any(isinstance(x, ast.Try) and any('.close()' in ast.unparse(y) for y in x.finalbody) for x in ast.walk(fn or tree)) \
                    or 'enter_context' in src or 'closing' in src
                # `f = open(...)` followed by `with f:`
                other = other or any(isinstance(x, (ast.With,)) and any(isinstance(it.context_expr, ast.Name) for it in x.items) for x in ast.walk(fn or tree))
                ret = any(isinstance(x, ast.Return) and x.value is n for x in ast.walk(fn or tree))
                st = UN if other or ret else DF
                why = f'{nm} is not closed when an exception is raised in between'
            out.append(Result(rule, f'{m.short}: {nm} in {getattr(enclosing(tree, n), "name", "<module>")}', st, why, (m.relpath, n.lineno, m.short)))
    return out


def enclosing(tree, node):
    import ast
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is node for x in ast.walk(n)):
            if best is None or any(x is n for x in ast.walk(best)):
                best = n
    return best


# ---------------------------------------------------------------------- C22
FORCE = {'compute', 'persist', 'fromfile', 'loadtxt', 'asarray', 'array', 'asanyarray', 'ascontiguousarray', 'copy', 'tolist', 'to_numpy',
         'memmap', 'frombuffer', 'load', '__array__'}
LAZY = ['SignalSet.__init__', 'SignalSet.select_channels', 'SignalSet.select_runs', 'SignalSet.__getitem__', 'SignalSet.join', 'SignalSet.merge',
        'SignalSet.extract_t', 'SignalSet.merge_consecutive_runs', 'SyncSignal.__init__', 'SyncSignal.select', 'SyncSignal.extract_i',
        'SyncSignal.extract_t', 'Inventory.__init__', 'Inventory.append', 'Inventory.extend', 'Inventory.filter', 'Inventory.pack',
        'Inventory.select_channels', 'Inventory.select_runs', 'Inventory.extract_t', 'Inventory.extract_groups', 'Inventory._join_merge',
        'Tags.__or__', 'io.ats.load_ats', 'io.ats.load_ats_from', 'io.ats.read_ats_sample', 'io.binary_file_array.to_dask_array',
        'BinaryFileArray_1D.__init__', 'FileArrayProxy.__init__', 'BaseArrayProxy.__init__']


def lazy(S):
    "building, selecting, cutting and merging signals never reads or converts the samples"
    rule = 'no read or conversion of the samples'
    out = []
    for q, f in each(S, LAZY):
        bad = None
        r = facets(S, q, which='ref') if q in S.ref.funcs else None
        old = {str(e.data.args[0]) for e in r.events if e.kind == 'extcall'} if r else set()
        for e in f.events:
            if e.kind == 'extcall':
                nm = str(e.data.args[0])
                last = nm.strip("'").split('.')[-1]
                if last in FORCE and nm not in old and (touches_samples(e.data) or any(map(deferred, e.data.args[1:]))):
                    bad = Result(rule, f'{q}: {last}', DF, f'{nm} applied to {show(e.data)[:200]}', e.loc)
        for t in [f.ret] + list(f.fields.values()):
            if not isinstance(t, Node) or bad:
                continue
            for n in walk(t):
                if n.op == 'arr' and samples(n.args[0]) or n.op == 'mcall' and str(n.args[0]).strip("'").split('.')[-1] in FORCE and samples(n.args[1]) \
                        or n.op == 'call' and str(n.args[0]).split('.')[-1] in FORCE and any(isinstance(a, Node) and (samples(a) or deferred(a)) for a in n.args[1:]):
                    bad = Result(rule, f'{q}: conversion', DF, f'samples converted: {show(n)[:200]}', f.loc)
                    break
        out.append(bad or Result(rule, q, EQ, '', f.loc))
    return out


def samples(t):
    "term designating sample values: an element of a signal's data"
    while t.op in ('idx', 'slice') and isinstance(t.args[0], Node):
        if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'data' and t.args[1].op != 'slice':
            return True
        if t.op == 'idx' and t.args[0].op == 'sym' and str(t.args[0].args[0]) == 'SyncSignal.__init__:data':
            return True
        t = t.args[0]
    if t.op in ('map', 'fmap'):
        n, c, b, bv = open_map(t)
        return samples(b)
    if t.op == 'ite':
        return samples(t.args[1]) or samples(t.args[2])
    if t.op in ('astype', 'neg', 'abs'):
        return samples(t.args[0])
    if t.op == 'call' and str(t.args[0]) == 'astype' or t.op == 'mcall' and str(t.args[0]).split('.')[-1] in ('astype', 'ravel', 'reshape', 'copy', 'rechunk'):
        return samples(t.args[1])
    if t.op == 'attr' and t.args[1] == 'data':
        return kindof(t.args[0]) == 'SyncSignal'
    return False


def deferred(t):
    "term built on the deferred array of a file"
    return isinstance(t, Node) and any(n.op in ('ccall', 'call', 'mcall') and n.args and any(x in str(n.args[0]) for x in ('to_dask_array', 'from_array'))
                                       for n in walk(t))


def touches_samples(d):
    return any(isinstance(a, Node) and any(samples(n) for n in [a] + (list(a.args) if a.op in ('args', 'seq') else []) if isinstance(n, Node)) for a in d.args[1:])


# ---------------------------------------------------------------------- C31
def conformance(S):
    "no operation that cannot succeed; every public operation is there with the parameters its users pass"
    rule = 'no operation that cannot succeed'
    from .prove import sig
    out = []
    for q in sorted(S.cur.funcs):
        try:
            f, r = facets(S, q), facets(S, q, which='ref')
        except AnalysisBroken:      # a new helper: judged inside its callers
            continue
        res, loc = bugs(r, f)
        for inst in spec.instances(q) if res.s != DF and q in S.ref.funcs else ():
            a, b = bugs(facets(S, q, inst, 'ref'), facets(S, q, inst))
            if a.s == DF:
                res, loc = a, b
                break
        out.append(Result(rule, q, res.s, '; '.join(f'{show(b)[:200]}' for a, b in res.pairs[:1]), loc))
        for k, d, c, l in f.bugs:
            if k == 'typeerror' and res.s == EQ:
                out.append(Result(rule, f'{q}: {show(d)[:80]}', DF, f'operation not supported by its operands: {show(d)[:150]}', l))
    out += view_sums(S) + names_defined(S)
    for q in spec.PUBLIC:
        if q not in S.ref.funcs or private_name(q):
            continue
        try:
            fi = S.cur.func(q)
        except AnalysisBroken as e:
            out.append(Result('public operation present', q, DF, str(e), None))
            continue
        res = sig(S.ref.func(q), fi)
        out.append(Result('public operation present, same parameters', q, res.s, '; '.join(f'{show(a)} -> {show(b)}' for a, b in res.pairs[:1]),
                          (fi.module.relpath, fi.node.lineno, q)))
    return out


def names_defined(S):
    "every name read in any scope is a local of it or of an enclosing one, a name of the module or a builtin"
    import builtins
    import symtable
    out = []
    for m in S.cur.modules.values():
        if any(b not in S.cur.modules for b in m.globals.get('*', [])):
            continue
        known = set(m.globals) | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__spec__', '__package__'}
        for b in m.globals.get('*', []):
            known |= set(S.cur.modules[b].globals)
        top = symtable.symtable(m.src, m.relpath, 'exec')
        known |= {x.get_name() for x in top.get_symbols() if x.is_assigned() or x.is_imported() or x.is_namespace()}
        todo, bad = [top], []
        scopes = 0
        while todo:
            t = todo.pop()
            scopes += 1
            known |= {x.get_name() for x in t.get_symbols() if x.is_declared_global() and x.is_assigned()}
            bad += [(x.get_name(), t) for x in t.get_symbols() if x.is_referenced() and (x.is_global() or t is top) and x.get_name() not in known]
            todo += t.get_children()
        bad = [(n, t) for n, t in bad if n not in known]
        for n, t in bad:
            out.append(Result('no undefined name', f'{m.relpath} {n}', DF, f'{n} is read in {t.get_name()} and defined nowhere', (m.relpath, t.get_lineno(), t.get_name())))
        if not bad:
            out.append(Result('no undefined name', f'{m.relpath} ({scopes} scopes)', EQ, '', (m.relpath, 1, '')))
    return out


def view_sums(S):
    "d.items() + e.items(): dictionary views have no +"
    import ast
    out = []

    def view(x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('items', 'keys', 'values') and not x.args and not x.keywords
    for q, fi in sorted(S.cur.funcs.items()):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and (view(n.left) and view(n.right)):
                out.append(Result('operands support the operation', q, DF, f'sum of two dictionary views: {ast.unparse(n)[:120]}', (fi.module.relpath, n.lineno, q)))
    return out
