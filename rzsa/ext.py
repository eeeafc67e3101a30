"""Models of builtins, numpy, itertools, functools ... as term constructors."""
from .terms import *
from . import terms as T

MUTABLE_CLASSES = {'Inventory'}
# methods that add to the content of a container of the project: their own obligations say that this is what they do
GROW = {'Inventory.append': 'append', 'Inventory.extend': 'extend'}


def content(t):
    "what a container given by its constructor holds"
    if isinstance(t, Node) and t.op == 'new' and t.args[0] in MUTABLE_CLASSES and len(t.args[1]) == 1:
        return t.args[1][0][1]
    return None


def with_content(t, x):
    return mk('new', t.args[0], ((t.args[1][0][0], x),))


def grown(t, more):
    c = content(t)
    if c is None:
        return mk('grown', t, more)
    return with_content(t, concat(c, more))


CCALL_EFFECTS = {}

# properties kept as observers on symbolic instances
OBS = {
    'SyncSignal': {'data', 'calibrations', 'sampling_rate', 'start', 'size'},
    'SignalSet': {'signals', 'tags', 'nb_channels'},
    'Tags': {'indices'}, 'TagsBase': {'indices'},
    'Inventory': set(),
}
NOEXPAND = {'SignalSet', 'Tags'}

ATTRKIND.update({
    ('SyncSignal', 'data'): seqk('array'), ('SyncSignal', 'calibrations'): seqk('func'),
    ('SyncSignal', 'sampling_rate'): 'num', ('SyncSignal', 'start'): 'num', ('SyncSignal', 'size'): 'int',
    ('SyncSignal', '_data'): seqk('array'),
    ('SignalSet', 'signals'): seqk(objk('SyncSignal')), ('SignalSet', 'tags'): objk('Tags'),
    ('SignalSet', 'nb_channels'): 'int',
    ('Tags', 'indices'): ('set', 'int'), ('Tags', '[]'): seqk('int'),
    ('TagsBase', 'indices'): ('set', 'int'), ('TagsBase', '[]'): seqk('int'),
    ('TagsBase', '_tags'): ('dict', seqk('int')), ('Tags', '_tags'): ('dict', seqk('int')),
    ('Inventory', '_content'): seqk(objk('SignalSet')),
    ('Inventory', '[]'): objk('SignalSet'),
    ('Weights', '_weights'): seqk(None), ('Weights', '[]'): None,
    ('ImpedanceResult', 'impedance'): 'array', ('ImpedanceResult', 'error'): 'array',
    ('ImpedanceResult', 'transfer_mag'): 'array',
    ('BaseArrayProxy', 'shape'): seqk('int'), ('BinaryFileArray_1D', 'shape'): seqk('int'),
    ('FileArrayProxy', 'shape'): seqk('int'),
})
CALLKIND.update({
    'SignalSet.select_channels': objk('SignalSet'), 'SignalSet.select_runs': objk('SignalSet'),
    'SignalSet.join': objk('SignalSet'), 'SignalSet.merge': objk('SignalSet'),
    'SignalSet.extract_t': objk('SignalSet'), 'SignalSet.merge_consecutive_runs': objk('SignalSet'),
    'SignalSet._reorder_data': objk('SignalSet'),
    'SignalSet.fourier_coefficients': seqk(), 'SyncSignal.fourier_coefficients': seqk(),
    'SyncSignal.select': objk('SyncSignal'), 'SyncSignal.extract_i': objk('SyncSignal'),
    'SyncSignal.extract_t': objk('SyncSignal'),
    'Inventory.extract_t': objk('Inventory'), 'Inventory.select_channels': objk('Inventory'),
    'Inventory.select_runs': objk('Inventory'), 'Inventory.filter': objk('Inventory'),
    'Inventory.extract_groups': objk('Inventory'), 'Inventory.pack': objk('SignalSet'),
    'Inventory._join_merge': objk('SignalSet'),
    'fourier_transform.time_to_freq': seqk(), 'fourier_transform.discrete_window': seqk('int'),
    'mestimator.transfer_function': seqk(), 'mestimator.transfer_error': 'array',
    'mestimator.merge_invalid_indices': 'array', 'mestimator.m_estimate': seqk(),
    'mestimator.chain_m_estimate': seqk(),
    'io.ats.load_ats': objk('SyncSignal'), 'io.ats.read_ats_sample': seqk(), 'io.ats.read_ats_header': ('dict', None),
    'utils._impedance': objk('ImpedanceResult'), 'utils.impedance': objk('ImpedanceResult'),
    'utils.apply_prefilter': seqk('array'), 'utils.prefilter_values': seqk(),
    'utils.transfer_function_real_prob': seqk(),
    'fourier_transform.slepian': 'array',
    'weights.vnorm': 'array', 'weights.mad_scale': 'num', 'weights.median_absolute_deviation': 'num',
    'Tags.filter': seqk('str'),
})


def canon_ext(d):
    for a, b in (('scipy.linalg', 'linalg'), ('numpy.linalg', 'linalg')):
        if d.startswith(a):
            return d
    return d


def observers(interp, cname):
    cache = interp.__dict__.setdefault('_obs', {})
    if cname in cache:
        return cache[cname]
    from .interp import Interp
    shared = interp.prog.__dict__.setdefault('_observers', {})
    if cname not in shared:
        out = {}
        for c in interp.prog.mro(cname):
            for nm, fi in c.getters.items():
                sub_ = Interp(interp.prog, (), budget=2000)
                sub_._obs = {k: {} for k in interp.prog.classes}
                o = mk('sym', 'self:' + cname)
                SYMKIND[o] = objk(cname)
                try:
                    v, st = sub_.run(fi, {fi.params()[0]: o})
                except Exception:
                    continue
                if st is not None and v.op == 'attr' and v.args[0] is o and v.args[1] not in c.getters and \
                        not [e for e in sub_.events if e.kind not in ('line',)]:
                    out.setdefault(v.args[1], nm)
        shared[cname] = out
    cache[cname] = shared[cname]
    return shared[cname]


def is_observer(interp, cname, name):
    for c in interp.prog.mro(cname):
        if name in OBS.get(c.name, ()):
            return not (interp.callchain and interp.callchain[-1] == f'{c.name}.{name}')
    return False


# ------------------------------------------------------------------ sets, dicts

def mkset(s):
    if s.op == 'set':
        return s
    if is_set(s):
        return s
    if s.op == 'setseq':
        return s.args[0]
    if s.op in ('sorted', 'reversed'):
        return mkset(s.args[0])
    if s.op == 'concat':
        return mkunion([mkset(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], mkset(s.args[1]), mkset(s.args[2]))
    if s.op == 'seq':
        return mk('set', seq(*sorted(set(s.args), key=lambda n: n.dig)))
    if s.op == 'flatten':
        # order of the pieces does not matter
        x = s.args[0]
        if x.op == 'map':
            n, c, body, bv = open_map(x)
            b = members(body)
            if b is not body:
                return mkset(flatten(close_map(n, b, bv)))
    return mk('set', s)


def members(x):
    "a sequence of the members of x, in any order and number"
    if x.op == 'setseq':
        return members(of_set(x.args[0]))
    if x.op in ('sorted', 'reversed', 'listof'):
        return members(x.args[0]) if is_seq(x.args[0]) or x.args[0].op in ('setseq', 'sorted') else x
    if x.op == 'ite':
        a, b = members(x.args[1]), members(x.args[2])
        if a is not x.args[1] or b is not x.args[2]:
            return ite(x.args[0], a, b)
    return x


def of_set(s):
    if s.op == 'set':
        return s.args[0]
    if s.op == 'ite':
        a, b = of_set(s.args[1]), of_set(s.args[2])
        if a.op != 'setseq' and b.op != 'setseq':
            return ite(s.args[0], a, b)
    return mk('setseq', s)


def set_as_seq(s):
    if s.op == 'set':
        return s.args[0]
    return mk('setseq', s)


def mkunion(xs):
    out = []
    for x in xs:
        if x.op == 'union':
            out.extend(x.args)
        else:
            out.append(x)
    out = [x for x in out if not (x.op == 'set' and x.args[0].op == 'seq' and not x.args[0].args)]
    out = sorted(set(out), key=lambda n: n.dig)
    if not out:
        return mk('set', seq())
    if len(out) == 1:
        return out[0]
    return mk('union', *out)


def union_of(s):
    "union of the collections in sequence s"
    if s.op == 'seq':
        return mkunion([mkset(x) for x in s.args])
    if s.op == 'concat':
        return mkunion([union_of(x) for x in s.args])
    if s.op in ('map', 'fmap'):
        n, c, body, bv = open_map(s)
        if is_set(body):
            body = set_as_seq(body)
        return mkset(flatten(close_map(n, body, bv, c)))
    return mkset(flatten(s))


def mkall(s):
    if s.op == 'seq':
        return and_(*[truthy(x) for x in s.args])
    if s.op == 'concat':
        return and_(*[mkall(x) for x in s.args])
    if s.op in ('map', 'fmap'):
        n, c, body, bv = open_map(s)
        b = or_(not_(c), truthy(body))
        if b is TRUE:
            return TRUE
        if b.op == 'and':
            return and_(*[mk('all', close_map(n, x, bv)) for x in b.args])
        return mk('all', close_map(n, b, bv))
    return mk('all', s)


def mkany(s):
    if s.op == 'seq':
        return or_(*[truthy(x) for x in s.args])
    if s.op in ('map', 'fmap'):
        n, c, body, bv = open_map(s)
        return not_(mkall(close_map(n, not_(and_(c, truthy(body))), bv)))
    if s.op == 'concat':
        return or_(*[mkany(x) for x in s.args])
    return mk('any', s)


def mksum(s, start=ZERO):
    if s.op == 'seq':
        r = start
        for x in s.args:
            r = add(r, x)
        return r
    if s.op == 'concat':
        r = start
        for x in s.args:
            r = add(r, mksum(x))
        return r
    if s.op in ('map', 'fmap'):
        n, c, body, bv = open_map(s)
        if c is TRUE and not occurs(bv, body):
            return add(start, mul(n, body))
        r = start
        for mono, co in to_poly(body).items():
            free = mk('const', co)
            dep = ONE
            for b, e in mono:
                if occurs(bv, b):
                    dep = mul(dep, power(b, e))
                else:
                    free = mul(free, power(b, e))
            if dep is ONE:
                cnt = n if c is TRUE else length(close_map(n, ONE, bv, c))
                r = add(r, mul(free, cnt))
            else:
                r = add(r, mul(free, mk('sum', close_map(n, dep, bv, c))))
        return r
    if s.op == 'arr':
        return mksum(s.args[0], start)
    return add(start, mk('sum', s))


def redmm(op, s):
    if s.op == 'seq':
        return (vmin if op == 'min' else vmax)(*s.args) if s.args else mk('opaque', 'min of empty')
    if s.op == 'set' and s.args[0].op == 'seq' and s.args[0].args:
        return redmm(op, s.args[0])
    if s.op == 'concat':
        return (vmin if op == 'min' else vmax)(*[redmm(op, x) for x in s.args])
    if s.op == 'arr':
        return redmm(op, s.args[0])
    if s.op == 'flatten' and s.args[0].op == 'map':
        n, c, body, bv = open_map(s.args[0])
        return mk('red' + op, close_map(n, redmm(op, body), bv))
    if s.op == 'map':
        n, c, body, bv = open_map(s)
        # min(x + c) = c + min(x)
        free, dep = ZERO, ZERO
        for mono, co in to_poly(body).items():
            t = mk('const', co)
            for b, e in mono:
                t = mul(t, power(b, e))
            if occurs(bv, t):
                dep = add(dep, t)
            else:
                free = add(free, t)
        if free is not ZERO and dep is not ZERO:
            return add(free, mk('red' + op, close_map(n, dep, bv)))
        if body.op == 'seq' or kind(body) == 'array':
            pass
    return mk('red' + op, s)


def dict_literal(d):
    "list of (str, Node) if d is a literal dict with constant string keys"
    if d.op != 'dict':
        return None
    out = []
    for k, v in d.args:
        if not (is_const(k) and isinstance(cval(k), str)):
            return None
        out.append((cval(k), v))
    return out


def dict_store(d, k, v):
    if d.op == 'dict':
        allc = all(is_const(kk) for kk, _ in d.args) and is_const(k)
        items = list(d.args)
        for i, (kk, _) in enumerate(items):
            if kk is k:
                items[i] = (k, v)
                return mk('dict', *items)
        if allc or not items:
            items.append((k, v))
            return mk('dict', *items)
    if d.op == 'dstore' and d.args[1] is k:
        return dict_store(d.args[0], k, v)
    if d.op == 'dstore' and is_const(k) and is_const(d.args[1]):
        # commute independent constant keys into a canonical order
        if d.args[1].dig > k.dig:
            return mk('dstore', dict_store(d.args[0], k, v), d.args[1], d.args[2])
    if d.op == 'ite':
        # the key was just given a first value, on one of the paths: overwritten
        c, x, y = d.args
        if x.op == 'dstore' and x.args[0] is y and x.args[1] is k:
            return dict_store(y, k, v)
        if y.op == 'dstore' and y.args[0] is x and y.args[1] is k:
            return dict_store(x, k, v)
    return mk('dstore', d, k, v)


def dict_update(d, e):
    if d.op == 'dict' and not d.args:
        return e
    if e.op == 'dict':
        for k, v in e.args:
            d = dict_store(d, k, v)
        return d
    return mk('dmerge', d, e)


def lookup(d, k):
    op = d.op
    if op == 'dict':
        for kk, v in reversed(d.args):
            if kk is k:
                return v
    if op == 'dstore':
        if d.args[1] is k:
            return d.args[2]
        if is_const(k) and is_const(d.args[1]):
            return lookup(d.args[0], k)
    if op == 'dmerge' and is_const(k):
        b = dict_literal(d.args[1])
        if b is not None:
            for kk, v in b:
                if kk == cval(k):
                    return v
            return lookup(d.args[0], k)
    if op == 'dmerge':
        return ite(contains(d.args[1], k), lookup(d.args[1], k), lookup(d.args[0], k))
    if op == 'dmap':
        # {X[k]: k}  ->  position in X
        n, c, key, val, bv = open_dmap(d)
        if c is TRUE and val is bv and key.op == 'idx' and key.args[1] is bv and not occurs(bv, key.args[0]) \
                and n is length(key.args[0]):
            return mk('position', key.args[0], k)
        if c is TRUE:
            # the value is a function of the key: look it up directly
            v2 = subst(val, {key: k})
            if not occurs(bv, v2):
                return v2
    if op == 'ite':
        return ite(d.args[0], lookup(d.args[1], k), lookup(d.args[2], k))
    return mk('lookup', d, k)


def lookup_or(d, k, dflt):
    "d[k] if k in d else dflt"
    if d.op == 'dict':
        for a, b in d.args:
            if a is k:
                return b
        if not d.args:
            return dflt
    if d.op == 'dstore' and d.args[1] is k:
        return d.args[2]
    if d.op == 'dstore' and is_const(k) and is_const(d.args[1]):
        return lookup_or(d.args[0], k, dflt)
    r = mk('getor', d, k, dflt)
    kk = kind(dflt)
    if kk is not None and kk != 'none':
        SYMKIND[r] = kk
    return r


def contains(coll, x):
    if coll.op == 'seq':
        return or_(*[T.eq(x, y) for y in coll.args])
    if coll.op == 'set':
        return contains(coll.args[0], x)
    if coll.op == 'setseq':
        return contains(coll.args[0], x)
    if coll.op in ('sorted', 'keys', 'reversed'):
        return contains(coll.args[0], x)
    if coll.op == 'concat':
        return or_(*[contains(y, x) for y in coll.args])
    if coll.op == 'dict':
        return or_(*[T.eq(x, k) for k, _ in coll.args])
    if coll.op == 'dmerge':
        return or_(contains(coll.args[0], x), contains(coll.args[1], x))
    if coll.op == 'ite':
        return T.ite(coll.args[0], contains(coll.args[1], x), contains(coll.args[2], x))
    if coll.op == 'map' and coll.args[2].op == 'bv' and kind(x) == 'int':
        n = coll.args[1]
        if coll.args[2] is mk('bv', coll.args[0]):
            return and_(T.le(ZERO, x), T.lt(x, n))
    return mk('in', x, coll)


def keys_of(d):
    if d.op == 'dict':
        return seq(*[k for k, _ in d.args])
    if d.op == 'dmap':
        n, c, key, val, bv = open_dmap(d)
        return close_map(n, key, bv, c)
    if d.op == 'opaque':
        return d
    return mk('keys', d)


def items_of(d):
    if d.op == 'dict':
        return seq(*[seq(k, v) for k, v in d.args])
    if d.op == 'dmap':
        n, c, key, val, bv = open_dmap(d)
        return close_map(n, seq(key, val), bv, c)
    ks = keys_of(d)
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    key = index(ks, bv)
    return close_map(length(ks), seq(key, lookup(d, key)), bv)


def values_of(d):
    if d.op == 'dict':
        return seq(*[v for _, v in d.args])
    if d.op == 'dmap':
        n, c, key, val, bv = open_dmap(d)
        return close_map(n, val, bv, c)
    ks = keys_of(d)
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    return close_map(length(ks), lookup(d, index(ks, bv)), bv)


def dict_from_pairs(s):
    if s.op == 'seq' and all(x.op == 'seq' and len(x.args) == 2 for x in s.args):
        d = mk('dict')
        for x in s.args:
            d = dict_store(d, x.args[0], x.args[1])
        return d
    if s.op == 'concat':
        d = mk('dict')
        for x in s.args:
            d = dict_update(d, dict_from_pairs(x))
        return d
    if s.op in ('map', 'fmap'):
        n, c, body, bv = open_map(s)
        k, v = index(body, ZERO), index(body, ONE)
        # items(d) -> d
        if c is TRUE and k.op == 'idx' and k.args[0].op == 'keys' and k.args[1] is bv and v is lookup(k.args[0].args[0], k):
            return k.args[0].args[0]
        return close_dmap(n, k, v, bv, c)
    if s.op == 'ite':
        return ite(s.args[0], dict_from_pairs(s.args[1]), dict_from_pairs(s.args[2]))
    return mk('dictof', s)


# ------------------------------------------------------------------ arrays

def arr(x):
    "array made from a python sequence (or identity on arrays)"
    if kind(x) in ('array', 'num', 'int') and x.op != 'ite':
        return x
    if x.op == 'arr':
        return x
    if x.op == 'ite':
        return ite(x.args[0], arr(x.args[1]), arr(x.args[2]))
    # [[v]*b]*a
    if x.op == 'repeat' and x.args[0].op == 'seq' and len(x.args[0].args) == 1:
        inner = x.args[0].args[0]
        if inner.op == 'repeat' and inner.args[0].op == 'seq' and len(inner.args[0].args) == 1:
            v = inner.args[0].args[0]
            if v.op in ('nan', 'const'):
                return mk('fill', seq(x.args[1], inner.args[1]), v)
        if inner.op in ('nan', 'const'):
            return mk('fill', x.args[1], inner)
    if x.op == 'map' and not occurs(mk('bv', x.args[0]), x.args[2]):
        v = x.args[2]
        if v.op in ('nan', 'const'):
            return mk('fill', x.args[1], v)
        if v.op == 'map' and not occurs(mk('bv', v.args[0]), v.args[2]) and v.args[2].op in ('nan', 'const'):
            return mk('fill', seq(x.args[1], v.args[1]), v.args[2])
        if v.op == 'repeat' and v.args[0].op == 'seq' and len(v.args[0].args) == 1 and v.args[0].args[0].op in ('nan', 'const'):
            return mk('fill', seq(x.args[1], v.args[1]), v.args[0].args[0])
    return mk('arr', x)


def conj(x):
    if x.op == 'conj':
        return x.args[0]
    if is_num_const(x) or x.op == 'abs':
        return x
    if x.op == 'I':
        return neg(x)
    if x.op == 'poly':
        r = ZERO
        for mono, c in x.args[0]:
            t = mk('const', c)
            for b, e in mono:
                t = mul(t, power(conj(b), e))
            r = add(r, t)
        return r
    if x.op == 'matmul':
        return matmul(*[conj(a) for a in x.args])
    if kind(x) in ('num', 'int', 'bool'):
        return x
    if x.op == 'ite':
        return ite(x.args[0], conj(x.args[1]), conj(x.args[2]))
    if x.op == 'idx' and x.args[0].op != 'T':
        return mk('conj', x)
    return mk('conj', x)


def transpose(x):
    if x.op == 'T':
        return x.args[0]
    if x.op == 'conj':
        return conj(transpose(x.args[0]))
    if x.op == 'ite':
        return ite(x.args[0], transpose(x.args[1]), transpose(x.args[2]))
    if x.op == 'matmul':
        return matmul(*[transpose(a) for a in reversed(x.args)])
    if kind(x) in ('num', 'int'):
        return x
    if x.op == 'poly':
        # scalar factor
        if len(x.args[0]) == 1:
            (mono, c), = x.args[0]
            arrs = [(b, e) for b, e in mono if kind(b) not in ('num', 'int')]
            if len(arrs) == 1 and arrs[0][1] == 1:
                t = mk('const', c)
                for b, e in mono:
                    t = mul(t, transpose(b) if b is arrs[0][0] else power(b, e))
                return t
    return mk('T', x)


def matmul(*xs):
    out, coef = [], ONE
    for x in xs:
        if x.op == 'matmul':
            out.extend(x.args)
            continue
        if x.op == 'poly' and len(x.args[0]) == 1:
            (mono, c), = x.args[0]
            sc = [(b, e) for b, e in mono if kind(b) in ('num', 'int') or b.op == 'I']
            rest = [(b, e) for b, e in mono if not (kind(b) in ('num', 'int') or b.op == 'I')]
            if rest:
                coef = mul(coef, mk('const', c))
                for b, e in sc:
                    coef = mul(coef, power(b, e))
                r = ONE
                for b, e in rest:
                    r = mul(r, power(b, e))
                out.append(r)
                continue
        out.append(x)
    m = mk('matmul', *out)
    return m if coef is ONE else mul(coef, m)


def vabs(x):
    if is_num_const(x):
        return const(abs(cval(x)))
    if x.op == 'abs' or x.op == 'len':
        return x
    if x.op == 'poly':
        p = dict(x.args[0])
        if len(p) == 1:
            (mono, c), = p.items()
            t = mk('const', abs(c))
            for b, e in mono:
                if b.op == 'I':
                    continue
                t = mul(t, power(vabs(b), e))
            return t
        items = sorted(p.items(), key=lambda mc: T._mono_key(mc[0]))
        if items[0][1] < 0:
            return mk('abs', neg(x))
    return mk('abs', x)


def shape(x):
    if x.op == 'fill':
        return x.args[0] if x.args[0].op == 'seq' else seq(x.args[0])
    if x.op in ('conj', 'abs', 'real', 'imag', 'exp'):
        return shape(x.args[0])
    if x.op == 'T':
        return mk('reversed', shape(x.args[0]))
    return mk('shape', x)


def fill(shp, v):
    if shp.op == 'seq' and len(shp.args) == 1:
        shp = shp.args[0]
    return mk('fill', shp, v)


# ------------------------------------------------------------------ operators

def _dunder(interp, a, name, b, st):
    k = kind(a)
    if isinstance(k, tuple) and k[0] == 'obj' and k[1] in interp.prog.classes:
        m = interp.prog.lookup(k[1], name)
        if m:
            from .interp import Args
            return interp.call_method(a, name, Args(pos=[b]), st)
    return None


def percent(interp, a, b):
    "'..%s..' % (x, ..) as pieces"
    import re
    fmt = cval(a) if a.op == 'const' else None
    if not isinstance(fmt, str):
        return None
    parts = re.split(r'(%.)', fmt)
    if b.op != 'seq' or sum(p == '%s' for p in parts) != len(b.args) or any(p.startswith('%') and p not in ('%s', '%%') for p in parts if len(p) == 2 and p[0] == '%'):
        return None
    xs = list(b.args)
    return interp.fstr([mk('fmtval', xs.pop(0), -1, '') if p == '%s' else const(p.replace('%%', '%')) for p in parts])


def braces(interp, fmt, pos, kw):
    "'..{}..'.format(..) as pieces, where no conversion or format is asked for"
    import string
    try:
        fs = list(string.Formatter().parse(fmt))
    except ValueError:
        return None
    parts, auto = [], 0
    for lit, name, spec, conv in fs:
        parts.append(const(lit))
        if name is None:
            continue
        if spec or conv:
            return None
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit() and int(name) < len(pos):
            parts.append(mk('fmtval', pos[int(name)], -1, ''))
        elif name in kw:
            parts.append(mk('fmtval', kw[name], -1, ''))
        else:
            return None
    return interp.fstr(parts)


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor', 'Div': 'truediv',
          'MatMult': 'matmul', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'Pow': 'pow'}


def binop(interp, op, a, b, st):
    ka, kb = kind(a), kind(b)
    oa = isinstance(ka, tuple) and ka[0] == 'obj'
    ob = isinstance(kb, tuple) and kb[0] == 'obj'
    if oa or ob:
        r = None
        if oa:
            r = _dunder(interp, a, f'__{DUNDER[op]}__', interp.freeze(b, st), st) if op in DUNDER else None
        if r is None and ob and op in DUNDER:
            r = _dunder(interp, b, f'__r{DUNDER[op]}__', interp.freeze(a, st), st)
        if r is not None:
            return r
        return mk('call', 'op.' + op, a, b)
    sa = isinstance(ka, tuple) and ka[0] == 'seq'
    sb = isinstance(kb, tuple) and kb[0] == 'seq'
    if op == 'Add':
        if (sa and sb) or (sa and kb is None) or (sb and ka is None):
            r = concat(a, b)
            if interp is not None and st is not None:
                return interp.newref(st, r, 'list') if False else r
            return r
        if ka == 'str' or kb == 'str':
            return mk('strcat', interp.freeze(a, st), interp.freeze(b, st))
        if a.op == 'lv' and ka is None or b.op == 'lv' and kb is None:
            return mk('plus', a, b)
    if op == 'Mult' and (sa or sb):
        # the same elements again: what is done to one in place is seen in all
        s, n = (a, b) if sa else (b, a)
        n = interp.freeze(n, st)
        if is_num_const(n) and s.op == 'seq' and cval(n) * len(s.args) <= 32:
            return seq(*(s.args * int(cval(n))))
        return mk('repeat', s, n)
    a, b = interp.freeze(a, st), interp.freeze(b, st)
    isset_a = isinstance(ka, tuple) and ka[0] == 'set'
    isset_b = isinstance(kb, tuple) and kb[0] == 'set'
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        if isset_a or isset_b:
            return mk('sdiff', a, b)
        return sub(a, b)
    if op == 'Mult':
        if ka == 'str' or kb == 'str':
            return mk('strmul', a, b)
        return mul(a, b)
    if op == 'Div':
        return div(a, b)
    if op == 'FloorDiv':
        return vfloor(div(a, b))
    if op == 'Mod':
        if ka == 'str' or (ka is None and a.op in ('fstr', 'strcat')):
            return percent(interp, a, b) or mk('strmod', a, b)
        return vmod(a, b)
    if op == 'Pow':
        return vpow(a, b)
    if op == 'MatMult':
        return matmul(a, b)
    if op == 'BitOr':
        if isset_a or isset_b:
            return mkunion([a, b])
        if isinstance(ka, tuple) and ka[0] == 'dict':
            return dict_update(a, b)
        return or_(truthy_el(a), truthy_el(b))
    if op == 'BitAnd':
        if isset_a or isset_b:
            return mk('inter', *sorted((a, b), key=lambda n: n.dig))
        return and_(truthy_el(a), truthy_el(b))
    return mk('call', 'op.' + op, a, b)


def truthy_el(a):
    return a


def vfloor(x):
    return T.floor(x)


def vmod(a, b):
    if is_num_const(a) and is_num_const(b) and cval(b):
        return const(cval(a) % cval(b))
    return sub(a, mul(b, T.floor(div(a, b))))


def vpow(a, b):
    if is_num_const(b):
        return power(a, cval(b))
    if is_num_const(a) and cval(a) > 0:
        p = to_poly(b)
        c = p.pop((), 0)
        if Fraction(c).denominator == 1 and p:
            # one form: without constant, the first term counted up
            m = min(p, key=T._mono_key)
            up = T.from_poly({k: v if p[m] > 0 else -v for k, v in p.items()})
            return mul(const(Fraction(cval(a)) ** int(c)), power(mk('pow', a, up), 1 if p[m] > 0 else -1))
    return mk('pow', a, b)


def invert(v):
    k = kind(v)
    if k == 'bool' or v.op in ('lt0', 'le0', 'eq0', 'not', 'and', 'or', 'eq'):
        return not_(v)
    return mk('not', v)


def compare(interp, n, a, b, st):
    if n == 'Eq' or n == 'NotEq':
        if _numlike(a) and _numlike(b) or (kind(a) == 'array' or kind(b) == 'array'):
            r = veq(a, b)
        else:
            r = T.eq(a, b)
        return r if n == 'Eq' else not_(r)
    if n == 'Is' or n == 'IsNot':
        if b is NONE or a is NONE:
            r = isnone(a if b is NONE else b)
        elif is_const(a) and is_const(b):
            r = const(a is b)
        else:
            r = T.eq(a, b) if kind(a) == 'bool' and kind(b) == 'bool' else mk('is', *sorted((a, b), key=lambda x: x.dig))
        return r if n == 'Is' else not_(r)
    if n in ('In', 'NotIn'):
        if kind(b) == 'str':
            r = mk('instr', a, b)
        else:
            k = kind(b)
            bb = b
            if isinstance(k, tuple) and k[0] == 'obj':
                if interp.prog.lookup(k[1], '__contains__'):
                    bb = b
                elif k[1] in ('Tags', 'TagsBase'):
                    bb = b
                else:
                    bb = iterable(interp, b, st)
            r = contains(bb, a)
        return r if n == 'In' else not_(r)
    ka, kb = kind(a), kind(b)
    if isinstance(ka, tuple) and ka[0] == 'set':
        if n == 'LtE':
            return mk('issubset', a, b)
        if n == 'GtE':
            return mk('issubset', b, a)
    if n == 'Lt':
        return T.lt(a, b)
    if n == 'LtE':
        return T.le(a, b)
    if n == 'Gt':
        return T.lt(b, a)
    if n == 'GtE':
        return T.le(b, a)
    return mk('call', 'cmp.' + n, a, b)


def _numlike(a):
    return kind(a) in ('int', 'num') or is_num_const(a)


def veq(a, b):
    if is_const(a) and is_const(b):
        return T.eq(a, b)
    if kind(a) in ('array', 'num', 'int') and kind(b) in ('array', 'num', 'int'):
        d = sub(a, b)
        if d is ZERO:
            return TRUE
        items = sorted(to_poly(d).items(), key=lambda mc: T._mono_key(mc[0]))
        lead = next((c for m, c in items if m != ()), items[0][1])
        if is_num_const(d):
            return const(cval(d) == 0)
        return iszero(from_poly({m: c / lead for m, c in items}))
    return T.eq(a, b)


# ------------------------------------------------------------------ attributes, indexing

METHODS = {
    'append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'index', 'count', 'copy', 'remove', 'clear', 'items', 'keys',
    'values', 'get', 'update', 'setdefault', 'add', 'union', 'issubset', 'issuperset', 'intersection', 'difference',
    'discard', 'join', 'format', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'dot', 'conj', 'conjugate',
    'transpose', 'sum', 'min', 'max', 'mean', 'any', 'all', 'reshape', 'astype', 'flatten', 'ravel', 'rechunk', 'tolist',
    'read', 'seek', 'readline', 'readlines', 'write', 'close', 'match', 'group', 'groups', 'exists', 'is_dir', 'is_file',
    'mkdir', 'resolve', 'absolute', 'parse', 'load', 'compute', 'indices', 'std', 'replace', 'difference_update',
    'symmetric_difference', 'popitem', 'rstrip', 'lstrip', 'encode', 'decode', 'search', 'fullmatch', 'unlink', 'rmdir',
    'rename', 'touch', 'write_text', 'write_bytes', 'read_text', 'iterdir', 'glob', 'open', 'fill', 'put', 'resize', 'itemset',
    'take', 'cumsum', 'squeeze', 'argsort', 'item', 'nonzero', 'round', 'clip', 'prod', 'persist', 'tobytes', 'tofile',
}


def value_attr(interp, o, name, st):
    k = kind(o)
    if name == 'T':
        return transpose(interp.freeze(o, st))
    if name == 'shape':
        return shape(interp.freeze(o, st))
    if name == 'ndim':
        return ndim(interp.freeze(o, st))
    if name == 'real':
        return real(interp.freeze(o, st))
    if name == 'imag':
        return mk('imag', interp.freeze(o, st))
    if name == 'flat':
        return mk('flat', interp.freeze(o, st))
    if name == '__class__':
        return type_of(o)
    if o.op == 'partial' or o.op == 'unbound':
        return mk('attr', o, name)
    if isinstance(k, tuple) and k[0] == 'obj' and k[1] == 'Tags':
        return lookup(o, const(name))
    return None


def real(x):
    if kind(x) in ('num', 'int') or x.op == 'abs':
        return x
    return mk('real', x)


def ndim(x):
    if x.op == 'fill':
        return const(len(x.args[0].args)) if x.args[0].op == 'seq' else ONE
    if x.op in ('abs', 'conj', 'real', 'imag', 'T', 'exp'):
        return ndim(x.args[0])
    r = mk('ndim', x)
    SYMKIND[r] = 'int'
    return r


def type_of(o):
    k = kind(o)
    if o.op == 'new':
        return mk('cls', o.args[0])
    if isinstance(k, tuple) and k[0] == 'obj':
        return mk('cls', k[1])
    if k in ('int', 'str', 'bool'):
        return mk('ext', 'builtins.' + k)
    return mk('typeof', o)


def is_view_index(i):
    if i.op == 'slice':
        return True
    if i.op == 'seq':
        return all(x.op == 'slice' or x is NONE or kind(x) == 'int' or is_num_const(x) for x in i.args)
    return False


def getitem(interp, o, i, st):
    k = kind(o)
    key = ('item', o, i)
    if key in st.heap:
        return st.heap[key]
    if o.op == 'upd' and o.args[1] == '':
        if o.args[2] is i:
            return o.args[3]
        if is_const(i) and is_const(o.args[2]):
            return getitem(interp, o.args[0], i, st)
    if isinstance(k, tuple):
        if k[0] == 'obj':
            if k[1] in ('Tags', 'TagsBase'):
                return lookup(o, i)
            from .interp import Args
            if k[1] in interp.prog.classes and interp.prog.lookup(k[1], '__getitem__'):
                return interp.call_method(o, '__getitem__', Args(pos=[i]), st)
            return index(o, i)
        if k[0] == 'dict':
            return lookup(o, i)
    if o.op in ('dstore', 'dmerge', 'dict', 'dmap'):
        return lookup(o, i)
    if is_const(i) and isinstance(cval(i), str):
        return lookup(o, i)
    return is_num_const(i) and cval(i) in (0, -1) and only(o, st) or vindex(o, i)


def vindex(o, i):
    if o.op == 'shape' and i is ZERO:
        return length(o.args[0])
    if o.op == 'reversed' and o.args[0].op == 'shape' and is_num_const(i) and cval(i) in (0, 1):
        return vindex(o.args[0], const(1 - int(cval(i))))
    if o.op == 'ite':
        return ite(o.args[0], vindex(o.args[1], i), vindex(o.args[2], i))
    if o.op == 'arr' and i.op not in ('seq',):
        x = o.args[0]
        if i.op == 'slice':
            return arr(index(x, i)) if i.args[2] is NONE else mk('idx', o, i)
        if kind(i) == 'int':
            return index(x, i)
        return mk('idx', o, i)
    if o.op == 'unzip':
        x = o.args[0]
        n, c, row, bv = as_elems(x)
        if kind(i) == 'int' or is_num_const(i):
            return close_map(n, index(row, i), bv, c)
    if i.op == 'seq' and len(i.args) == 1 and False:
        return vindex(o, i.args[0])
    if i.op == 'seq' and len(i.args) == 2 and i.args[0].op != 'slice' and i.args[0] is not NONE and kind(i.args[0]) == 'int' \
            and kind(i.args[1]) == 'int':
        return vindex(vindex(o, i.args[0]), i.args[1])
    if i.op == 'seq' and len(i.args) == 2 and whole(i.args[0]) and (i.args[1].op in ('bv', 'bv?') or is_num_const(i.args[1]) and cval(i.args[1]) >= 0):
        # a column of every other column
        atoms = {x for m in to_poly(o) for x, e in m if x.op != 'I'}
        steps = {every(y) and every(y)[2] for x in atoms for y in (x.args[1:] if x.op == 'ite' else (x,))}
        if len(steps) == 1 and None not in steps:
            if o.op == 'idx':
                x, a, k = every(o)
                return vindex(x, seq(i.args[0], add(a, mul(k, i.args[1]))))
            to = {x: vindex(x, i) for x in atoms}
            r = ZERO
            for m, c in to_poly(o).items():
                if any(e != 1 for _, e in m):
                    return index(o, i)
                p = const(c)
                for x, e in m:
                    p = mul(p, to.get(x, x))
                r = add(r, p)
            return r
    if o.op == 'idx' and o.args[1].op == 'seq' and len(o.args[1].args) == 2 and whole(o.args[1].args[0]) \
            and is_num_const(i) and is_num_const(o.args[1].args[1]):
        # an element of a column
        return vindex(vindex(o.args[0], i), o.args[1].args[1])
    # slice of slice with plain bounds kept as is
    return index(o, i)


def whole(i):
    return i.op == 'slice' and all(x is NONE for x in i.args)


def every(x):
    "x is y[:, a::s]  ->  y, a, s"
    if x.op == 'idx' and x.args[1].op == 'seq' and len(x.args[1].args) == 2 and whole(x.args[1].args[0]):
        c = x.args[1].args[1]
        if c.op == 'slice' and c.args[1] is NONE and (c.args[0] is NONE or is_num_const(c.args[0]) and cval(c.args[0]) >= 0) and \
                (c.args[2] is NONE or is_num_const(c.args[2]) and cval(c.args[2]) > 0):
            return x.args[0], ZERO if c.args[0] is NONE else c.args[0], ONE if c.args[2] is NONE else c.args[2]


# ------------------------------------------------------------------ iteration

def iterable(interp, v, st):
    v = interp.val(v, st)
    k = kind(v)
    if v.op == 'arr':
        return interp.val(v.args[0], st)
    if isinstance(k, tuple):
        if k[0] == 'seq':
            return v
        if k[0] == 'dict':
            return keys_of(interp.freeze(v, st))
        if k[0] == 'set':
            return mk('setseq', interp.freeze(v, st))
        if k[0] == 'obj':
            if k[1] in ('Tags', 'TagsBase'):
                return mk('keys', v)
            if k[1] in interp.prog.classes:
                ci = interp.prog.classes[k[1]]
                if ci.is_namedtuple:
                    names = getattr(ci, 'annots', [])
                    return seq(*[interp.getattr(v, n, st) for n in names])
                m = interp.prog.lookup(k[1], '__iter__')
                if m and m[0] == 'method':
                    from .interp import Args
                    return iterable(interp, interp.call_method(v, '__iter__', Args(), st), st)
    if v.op == 'ite':
        a, b = iterable(interp, v.args[1], st), iterable(interp, v.args[2], st)
        return ite(v.args[0], a, b)
    if v.op in ('dstore', 'dmerge', 'dict', 'dmap'):
        return keys_of(v)
    return v


def zip_(xs):
    fams = [as_elems(x) for x in xs]
    if any(f[1] is not TRUE for f in fams):
        fams = [(length(x), TRUE, None, None) if f[1] is not TRUE else f for x, f in zip(xs, fams)]
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    lens = [f[0] for f in fams]
    n = vmin(*lens) if lens else ZERO
    finite = [l for l in lens if l.op != 'inf']
    n = vmin(*finite) if finite else mk('inf')
    els = [subst(f[2], {f[3]: bv}) if f[2] is not None else index(x, bv) for x, f in zip(xs, fams)]
    return close_map(n, seq(*els), bv)


def range_(a, b=None, step=None):
    if b is None:
        a, b = ZERO, a
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    if step is not None and step is not ONE:
        n = T.ceil(div(sub(b, a), step))
        return close_map(n, add(a, mul(bv, step)), bv)
    return close_map(sub(b, a), add(a, bv), bv)


def map_call(interp, f, xs, st):
    "map(f, *xs)"
    from .interp import Args
    if len(xs) == 1:
        src = xs[0]
        pieces = src.args if src.op == 'concat' else (src,)
        out = []
        for p in pieces:
            if p.op == 'seq':
                out.append(seq(*[interp.call(f, Args(pos=[x]), st) for x in p.args]))
            else:
                n, c, el, bv = as_elems(p)
                interp.binders.append((n, bv, c))
                try:
                    s2 = st.clone()
                    if c is not TRUE:
                        s2.facts += (c,)
                    v = interp.freeze(interp.call(f, Args(pos=[el]), s2), s2)
                finally:
                    interp.binders.pop()
                out.append(close_map(n, v, bv, c))
        return concat(*out)
    z = zip_(xs)
    if z.op == 'seq':
        return seq(*[interp.call(f, Args(pos=list(x.args)), st) for x in z.args])
    n, c, el, bv = as_elems(z)
    interp.binders.append((n, bv, c))
    try:
        s2 = st.clone()
        v = interp.freeze(interp.call(f, Args(pos=[index(el, const(i)) for i in range(len(xs))]), s2), s2)
    finally:
        interp.binders.pop()
    return close_map(n, v, bv, c)


def filter_call(interp, f, src, st):
    from .interp import Args
    if src.op == 'seq':
        out = []
        for x in src.args:
            c = truthy(interp.freeze(interp.call(f, Args(pos=[x]), st) if f is not NONE else x, st))
            out.append(ite(c, seq(x), seq()))
        return concat(*out)
    n, c, el, bv = as_elems(src)
    with interp.under_binder(n, bv, c):
        s2 = st.clone()
        cc = truthy(interp.freeze(interp.call(f, Args(pos=[el]), s2) if f is not NONE else el, s2))
    return close_map(n, el, bv, and_(c, cc))


def sort_key(interp, f, st):
    if f is None or f is NONE:
        return NONE
    bv = fresh_bv()
    from .interp import Args
    s2 = st.clone()
    return bv, (lambda el: interp.freeze(interp.call(f, Args(pos=[el]), s2), s2))


def sorted_(interp, src, key, rev, st):
    from .interp import Args
    if is_set(src):
        src = mk('setseq', src)
    if src.op == 'setseq' and src.args[0].op == 'set' and src.args[0].args[0].op in ('keys', 'seq', 'setseq'):
        src = src.args[0].args[0]           # nothing twice in it
    if key is None or key is NONE:
        kl = NONE
    else:
        n, c, el, bv = as_elems(src)
        s2 = st.clone()
        hole = mk('sym', '<el>')
        k = kind(el)
        if k is not None:
            hole = mk('sym', '<el:%s>' % (k,))
            SYMKIND[hole] = k
        interp.quiet += 1
        try:
            v = interp.freeze(interp.call(key, Args(pos=[hole]), s2), s2)
        finally:
            interp.quiet -= 1
        kl = v if v is not hole else NONE
        xs = {x for x in nodes(el) if x.op == 'idx' and x.args[1] is bv and not occurs(bv, x.args[0]) and length(x.args[0]) is n} \
            if src.op == 'map' and kl is not NONE else ()
        if len(xs) == 1:
            # what is made of each element, sorted: made of each of the sorted elements
            x = xs.pop()
            h = mk('sym', '<el>') if kind(x) is None else mk('sym', '<el:%s>' % (kind(x),))
            if kind(x) is not None:
                SYMKIND[h] = kind(x)
            one = subst(el, {x: h})
            if not occurs(bv, one) and not occurs(h, el):
                r = mk('sorted', x.args[0], subst(kl, {hole: one}), rev if rev is not None else FALSE)
                return close_map(n, subst(one, {h: index(r, bv)}), bv)
    r = mk('sorted', src, kl, rev if rev is not None else FALSE)
    return r


# ------------------------------------------------------------------ methods

def call_method(interp, o, name, args, st):
    from .interp import Args
    o_ = interp.val(o, st)
    k = kind(o_)
    F = lambda x: interp.freeze(x, st)
    pos = [a for a in args.pos if isinstance(a, Node)]
    star = [a for a in args.pos if isinstance(a, tuple)]
    isref = o.op == 'ref'
    kk = k[0] if isinstance(k, tuple) else k
    if o_.op == 'ite' and kk is None and not isref:
        return interp.branch(o_.args[0], lambda s: interp.call(interp.getattr(o_.args[1], name, s), args, s),
                             lambda s: interp.call(interp.getattr(o_.args[2], name, s), args, s), st)

    def ext_mutate(how, new=None):
        interp.event('mutate', st, seq(o if isref else F(o_), const(how), *[F(p) for p in pos]))
        if isref:
            if new is not None:
                st.heap[o] = new
        elif new is not None:
            if o_.op == 'attr':
                st.heap[('attr', o_.args[0], o_.args[1])] = new
            interp.replace_alias(o, new, st)

    # ---- lists
    if name == 'append' and pos:
        ext_mutate('append', concat(o_ if kk == 'seq' else mk('listof', o_), seq(pos[0])))
        return NONE
    if name == 'extend' and pos:
        ext_mutate('extend', concat(o_ if kk == 'seq' else mk('listof', o_), iterable(interp, pos[0], st)))
        return NONE
    if name in ('insert',) and len(pos) == 2:
        x = F(o_)
        if pos[0] is ZERO:
            ext_mutate('insert', concat(seq(pos[1]), x))
        else:
            ext_mutate('insert', concat(index(x, slice_(NONE, pos[0], NONE)), seq(pos[1]), index(x, slice_(pos[0], NONE, NONE))))
        return NONE
    if name == 'sort' and kk in ('seq', None, 'array'):
        ext_mutate('sort', sorted_(interp, F(o_), args.kw.get('key'), args.kw.get('reverse'), st))
        return NONE
    if name == 'reverse' and kk in ('seq', None):
        ext_mutate('reverse', mk('reversed', F(o_)))
        return NONE
    if name == 'pop':
        x = F(o_)
        if kk == 'set':
            ext_mutate('pop', mk('setpop', x))
            if x.op == 'set' and x.args[0].op == 'seq' and len(x.args[0].args) == 1:
                return x.args[0].args[0]
            return mk('anyof', x)
        if kk == 'seq':
            i = pos[0] if pos else const(-1)
            if i is const(-1):
                ext_mutate('pop', index(x, slice_(NONE, const(-1), NONE)))
            else:
                ext_mutate('pop', mk('delitem', x, F(i)))
            return index(x, F(i))
        if kk == 'dict' or kk is None:
            ext_mutate('pop', mk('delitem', x, F(pos[0])) if pos else mk('opaque', 'pop'))
            if len(pos) > 1:
                return mk('getor', x, F(pos[0]), F(pos[1]))
            return lookup(x, F(pos[0])) if pos else mk('anyof', x)
    if name in ('remove', 'clear', 'popitem', 'discard', 'fill', 'put', 'resize', 'itemset', 'difference_update'):
        if kk in ('seq', 'set', 'dict', None, 'array'):
            ext_mutate(name, mk('mut', name, F(o_), *[F(p) for p in pos]))
            return NONE
    if name == 'index' and kk == 'seq':
        return mk('position', F(o_), F(pos[0]))
    if name == 'copy':
        if kk in ('seq', 'set', 'dict'):
            return interp.newref(st, o_, {'seq': 'list'}.get(kk, kk))
        if kk in ('array', None):
            return F(o_)
    # ---- dicts
    if name == 'items':
        return items_of(F(o_))
    if name == 'keys':
        return keys_of(F(o_))
    if name == 'values':
        return values_of(F(o_))
    if name == 'get' and kk in ('dict', None, 'obj'):
        key = F(pos[0])
        d = F(pos[1]) if len(pos) > 1 else NONE
        lit = o_ if o_.op == 'dict' else None
        if lit is not None:
            for a, b in lit.args:
                if a is key:
                    return b
            if is_const(key) and all(is_const(a) for a, _ in lit.args):
                return d
        if o_.op == 'dstore' and o_.args[1] is key:
            return o_.args[2]
        r = lookup(F(o_), key)
        if r.op == 'position' and len(pos) == 1:
            return r
        return mk('getor', F(o_), key, d)
    if name == 'update' and kk in ('dict', None):
        new = o_
        for p in pos:
            v = interp.val(p, st)
            kv = kind(v)
            if isinstance(kv, tuple) and kv[0] == 'seq':
                v = dict_from_pairs(F(v))
            new = dict_update(new, F(v))
        for kw, v in args.kw.items():
            new = dict_store(new, const(kw), F(v))
        for d in args.starkw:
            new = dict_update(new, F(d))
        ext_mutate('update', new)
        return NONE
    if name == 'setdefault':
        key, d = F(pos[0]), pos[1] if len(pos) > 1 else NONE
        x = mk('setdefault', F(o_), key, F(d))
        ext_mutate('setdefault', x)
        r = lookup(x, key)
        return r
    # ---- sets
    if kk == 'set' or (name in ('union', 'issubset', 'issuperset', 'intersection', 'difference', 'add', 'symmetric_difference')
                       and kk in (None, 'seq')):
        if name == 'add':
            ext_mutate('add', mkunion([o_, mkset(seq(F(pos[0])))]))
            return NONE
        if name == 'update':
            ext_mutate('update', mkunion([F(o_)] + [mkset(F(iterable(interp, p, st))) for p in pos]
                                         + [union_of(F(s[1])) for s in star]))
            return NONE
        if name == 'union':
            return mkunion([F(o_)] + [mkset(F(iterable(interp, p, st))) for p in pos]
                           + [union_of(F(s[1])) for s in star])
        if name in ('issubset', 'issuperset') and len(pos) == 1:
            a, b = mkset(F(o_)), mkset(F(iterable(interp, pos[0], st)))
            if name == 'issuperset':
                a, b = b, a
            return issubset(a, b)
        if name == 'intersection':
            return mk('inter', *sorted([F(o_)] + [mkset(F(iterable(interp, p, st))) for p in pos], key=lambda n: n.dig))
        if name == 'difference' and len(pos) == 1:
            return mk('sdiff', F(o_), mkset(F(iterable(interp, pos[0], st))))
    if o_.op == 'call' and o_.args[0] == 're.compile':
        interp.event('extcall', st, seq(const('re.' + name), interp.args_term(args, st)))
        r = mk('mcall', name, F(o_), interp.args_term(args, st))
        if name == 'sub':
            SYMKIND[r] = 'str'
        return r
    # ---- strings
    if kk == 'str' and name in ('join', 'format', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace',
                                'rstrip', 'lstrip', 'encode', 'index', 'count'):
        if name == 'lower' and is_const(o_):
            return const(cval(o_).lower())
        if name == 'join' and pos:
            return mk('strjoin', F(o_), F(iterable(interp, pos[0], st)))
        if name == 'format' and is_const(o_) and not star and not args.starkw:
            r = braces(interp, cval(o_), [F(p) for p in pos], {k: F(v) for k, v in args.kw.items()})
            if r is not None:
                return r
        r = mk('mcall', 'str.' + name, F(o_), interp.args_term(args, st))
        if name in ('lower', 'upper', 'strip', 'replace', 'format', 'rstrip', 'lstrip'):
            SYMKIND[r] = 'str'
        if name == 'split':
            SYMKIND[r] = seqk('str')
        if name in ('startswith', 'endswith'):
            SYMKIND[r] = 'bool'
        return r
    # ---- arrays
    if name == 'dot' and len(pos) == 1:
        return matmul(F(o_), F(pos[0]))
    if name in ('conj', 'conjugate'):
        return conj(F(o_))
    if name == 'transpose' and not pos:
        return transpose(F(o_))
    if name in ('sum', 'min', 'max', 'mean', 'any', 'all', 'prod', 'std', 'cumsum', 'argsort', 'round', 'clip', 'squeeze',
                'nonzero', 'ravel', 'take'):
        if not (kk == 'obj') and name in ('ravel', 'squeeze'):
            r = npcall(interp, name, Args([F(o_)] + list(args.pos), args.kw, None, args.starkw), st)
            interp.view_of(o, r, mk('call', name, mk('hole')), st)
            return r
        if not (kk == 'obj'):
            return npcall(interp, name, Args([F(o_)] + list(args.pos), args.kw, None, args.starkw), st)
    if name == 'reshape':
        a = args_as_tuple(interp, args, st)
        r = mk('call', 'reshape', F(o_), a)
        if ('view', o_) in st.heap or isref:
            root, p = st.heap.get(('view', o_), (o, mk('hole')))
            st.heap[('view', r)] = (root, mk('call', 'reshape', p, a))
        return r
    if name in ('astype', 'flatten', 'tolist', 'rechunk', 'persist'):
        if name == 'rechunk' or name == 'tolist':
            interp.event('extcall', st, seq(const('.' + name), F(o_)))
            return F(o_)
        if name == 'persist':
            interp.event('extcall', st, seq(const('.' + name), F(o_)))
        r = mk('call', name, F(o_), interp.args_term(args, st))
        return r
    if name == 'indices' and len(pos) == 1:
        r = mk('sliceidx', F(o_), F(pos[0]))
        SYMKIND[r] = seqk('int')
        return r
    if k == 'file' or (o_.op == 'call' and o_.args[0] == 'open'):
        c = st.heap.get(('fileseq', o_), 0)
        st.heap[('fileseq', o_)] = c + 1
        interp.event('extcall', st, seq(const('.' + name), F(o_), *[F(p) for p in pos]))
        r = mk('mcall', 'file.' + name, F(o_), interp.args_term(args, st), c)
        if name == 'readlines':
            SYMKIND[r] = seqk('str')
        if name == 'readline':
            SYMKIND[r] = 'str'
        return r
    interp.event('extcall', st, seq(const('.' + name), F(o_), interp.args_term(args, st)))
    r = mk('mcall', name, F(o_), interp.args_term(args, st))
    if name in ('exists', 'is_dir', 'is_file'):
        SYMKIND[r] = 'bool'
    return r


def issubset(a, b):
    "a <= b as a condition on the elements"
    s = a.args[0] if a.op == 'set' else None
    if s is not None:
        if s.op == 'seq':
            return and_(*[contains(b, x) for x in s.args])
    n, c, el, bv = as_elems(s if s is not None else mk('setseq', a))
    return mkall(close_map(n, contains(b, el), bv, c))


def args_as_tuple(interp, args, st):
    pos = [a for a in args.pos if isinstance(a, Node)]
    if len(pos) == 1:
        v = interp.freeze(interp.val(pos[0], st), st)
        return v if is_seq(v) else seq(v)
    return seq(*[interp.freeze(p, st) for p in pos])


# ------------------------------------------------------------------ function calls

def call(interp, dotted, args, st):
    "call of an external (non project) function"
    F = lambda x: interp.freeze(x, st)
    name = dotted
    if name.startswith('builtins.'):
        if name[9:].startswith('str.') and len(args.pos) and isinstance(args.pos[0], Node) and name[13:] != 'maketrans':
            from .interp import Args
            rest = Args(pos=args.pos[1:], kw=args.kw, starkw=args.starkw)
            o = F(args.pos[0])
            SYMKIND.setdefault(o, 'str')
            return call_method(interp, o, name[13:], rest, st)
        f = BUILTINS.get(name[9:])
        if f is not None:
            r = f(interp, args, st)
            if r is not None:
                return r
        interp.event('extcall', st, seq(const(name), interp.args_term(args, st)))
        if name[9:] in _EXC:
            return mk('exc', name[9:], interp.args_term(args, st))
        return mk('call', name[9:], interp.args_term(args, st))
    f = EXT.get(name)
    if f is not None:
        r = f(interp, args, st)
        if r is not None:
            return r
    head = name.split('.')[0]
    if head in ('numpy', 'scipy', 'dask', 'math', 'cmath'):
        return npcall(interp, name, args, st)
    if name == 'os.path.getsize':
        return mk('attr', call(interp, 'os.stat', args, st), 'st_size')
    interp.event('extcall', st, seq(const(name), interp.args_term(args, st)))
    return mk('call', name, interp.args_term(args, st))


_EXC = {'ValueError', 'TypeError', 'IndexError', 'KeyError', 'Exception', 'RuntimeError', 'NotImplementedError', 'AssertionError',
        'AttributeError', 'StopIteration', 'OSError', 'IOError', 'FileNotFoundError', 'ZeroDivisionError', 'ArithmeticError',
        'LookupError', 'BaseException', 'UserWarning', 'RuntimeWarning'}


def _pos(args):
    return [a for a in args.pos if isinstance(a, Node)]


def b_len(i, a, st):
    v = i.val(_pos(a)[0], st)
    k = kind(v)
    if isinstance(k, tuple) and k[0] == 'obj' and k[1] in i.prog.classes:
        if k[1] in ('Tags', 'TagsBase'):
            return length(mk('keys', v))
        m = i.prog.lookup(k[1], '__len__')
        if m and m[0] == 'method':
            from .interp import Args
            return i.call_method(v, '__len__', Args(), st)
    v = i.freeze(v, st)
    return vlen(v)


def vlen(v):
    if v.op in ('arr', 'conj', 'abs', 'real', 'imag', 'setseq'):
        return vlen(v.args[0])
    if v.op == 'ite':
        return ite(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    if v.op == 'fill':
        return v.args[0].args[0] if v.args[0].op == 'seq' else v.args[0]
    if v.op == 'call' and v.args[0] in ('empty',):
        s = v.args[1]
        return s.args[0] if s.op == 'seq' else s
    if v.op in ('dict', 'dmap'):
        return length(keys_of(v)) if v.op == 'dmap' else const(len(v.args))
    if v.op == 'keys':
        return mk('len', v)
    if v.op == 'T':
        return vindex(shape(v.args[0]), ONE)
    return length(v)


def b_range(i, a, st):
    p = [i.freeze(x, st) for x in _pos(a)]
    if any(isinstance(x, tuple) for x in a.pos):
        return None
    return range_(*p)


def b_enumerate(i, a, st):
    p = _pos(a)
    src = i.iterable(p[0], st)
    start = a.kw.get('start', p[1] if len(p) > 1 else ZERO)
    pieces = src
    if src.op == 'seq':
        return seq(*[seq(add(start, const(j)), x) for j, x in enumerate(src.args)])
    n, c, el, bv = as_elems(src)
    if c is not TRUE:
        n, c, el, bv = length(src), TRUE, None, fresh_bv()
        SYMKIND[bv] = 'int'
        el = index(src, bv)
    return close_map(n, seq(add(start, bv), el), bv)


def b_zip(i, a, st):
    if a.pos and all(isinstance(x, tuple) for x in a.pos) and len(a.pos) == 1:
        src = i.freeze(i.iterable(a.pos[0][1], st), st)
        return unzip(src)
    xs = []
    for x in a.pos:
        if isinstance(x, tuple):
            return mk('call', 'zip', i.args_term(a, st))
        xs.append(i.iterable(x, st))
    return zip_(xs)


def unzip(src):
    if src.op in ('map', 'fmap'):
        n, c, body, bv = open_map(src)
        if body.op == 'seq':
            return seq(*[close_map(n, x, bv, c) for x in body.args])
    r = mk('unzip', src)
    SYMKIND[r] = seqk()
    return r


def b_map(i, a, st):
    p = _pos(a)
    if len(p) != len(a.pos):
        return None
    xs = [i.iterable(x, st) for x in p[1:]]
    return map_call(i, p[0], xs, st)


def b_filter(i, a, st):
    p = _pos(a)
    return filter_call(i, p[0], i.freeze(i.iterable(p[1], st), st), st)


def b_sorted(i, a, st):
    p = _pos(a)
    return sorted_(i, i.freeze(i.iterable(p[0], st), st), a.kw.get('key'), a.kw.get('reverse'), st)


def b_reversed(i, a, st):
    s = i.iterable(_pos(a)[0], st)
    if s.op == 'seq':
        return seq(*reversed(s.args))
    if s.op == 'map':
        n, c, b, bv = open_map(s)
        return close_map(n, subst(b, {bv: sub(sub(n, ONE), bv)}), bv)
    return mk('reversed', s)


def b_sum(i, a, st):
    p = _pos(a)
    s = i.freeze(i.iterable(p[0], st), st)
    start = p[1] if len(p) > 1 else a.kw.get('start', ZERO)
    sv = i.val(start, st)
    if is_seq(sv):
        return concat(sv, flatten(s))
    if sv.op == 'call' and 'Counter' in str(sv.args[0]):
        return mk('countersum', s)
    return mksum(s, i.freeze(sv, st))


def _minmax(op):
    def f(i, a, st):
        p = _pos(a)
        if len(p) != len(a.pos):
            parts = []
            for x in a.pos:
                parts.append(i.freeze(x[1], st) if isinstance(x, tuple) else seq(i.freeze(x, st)))
            return redmm(op, concat(*parts))
        if len(p) == 1:
            s = i.freeze(i.iterable(p[0], st), st)
            if a.kw.get('key') is not None:
                return None
            if 'default' in a.kw:
                d = i.freeze(a.kw['default'], st)
                return ite(lt(ZERO, length(s)), redmm(op, s), d)
            return redmm(op, s)
        if a.kw:
            return None
        return (vmin if op == 'min' else vmax)(*[i.freeze(x, st) for x in p])
    return f


def b_abs(i, a, st):
    return vabs(i.freeze(i.val(_pos(a)[0], st), st))


def b_int(i, a, st):
    p = _pos(a)
    if not p:
        return ZERO
    v = i.freeze(i.val(p[0], st), st)
    if len(p) > 1:
        return None
    return trunc(v)


def trunc(v):
    k = kind(v)
    if k == 'int':
        return v
    if is_num_const(v):
        return const(int(cval(v)))
    if v.op in ('floor', 'ceil', 'round', 'trunc', 'len'):
        return v
    if v.op == 'ite':
        return ite(v.args[0], trunc(v.args[1]), trunc(v.args[2]))
    if v.op == 'call' and v.args[0] in ('op.round',):
        return v
    r = mk('trunc', v)
    return r


def b_float(i, a, st):
    p = _pos(a)
    v = i.freeze(i.val(p[0], st), st)
    if is_const(v) and isinstance(cval(v), str):
        try:
            return const(float(cval(v)))
        except ValueError:
            return None
    if kind(v) in ('num', 'int', 'array') or v.op in ('nan', 'inf'):
        return v
    SYMKIND.setdefault(v, 'num')
    return v


def b_tuple(i, a, st):
    p = _pos(a)
    if not p:
        return seq()
    v = i.val(p[0], st)
    k = kind(v)
    if i.mayraise is not None:
        c = not_iterable(v)
        if c is not None:
            i.mayraise.append(('exact', 'TypeError', c))
    if k in ('int', 'num', 'none') or (is_const(v) and k != 'str'):
        if i.mayraise is None:
            i.event('typeerror', st, v)
        return mk('opaque', 'tuple of scalar')
    return as_seq(i.iterable(v, st))


def not_iterable(v):
    k = kind(v)
    if k in ('int', 'num', 'none', 'bool'):
        return TRUE
    if isinstance(k, tuple) or k in ('str', 'array'):
        return FALSE
    if v.op in ('seq', 'map', 'concat'):
        return FALSE
    r = mk('scalar', v)
    SYMKIND[r] = 'bool'
    return r


def as_seq(v):
    "sequence object with the elements of v"
    if is_seq(v) or v.op == 'seq':
        return v
    if v.op == 'sym' or v.op in ('lv', 'acc'):
        return v
    if v.op == 'ite':
        return ite(v.args[0], as_seq(v.args[1]), as_seq(v.args[2]))
    if v.op == 'getor' and is_seq(mk('lookup', v.args[0], v.args[1])):
        r = mk('getor', v.args[0], v.args[1], as_seq(v.args[2]))
        if is_seq(r.args[2]):
            SYMKIND[r] = kind(r.args[2])
        return r
    r = mk('listof', v)
    SYMKIND[r] = seqk()
    return r


def b_list(i, a, st):
    p = _pos(a)
    if not p:
        return i.newref(st, seq(), 'list')
    s = as_seq(i.iterable(p[0], st))
    return i.newref(st, s, 'list')


def b_set(i, a, st):
    p = _pos(a)
    if not p:
        return i.newref(st, mk('set', seq()), 'set')
    return i.newref(st, mkset(i.freeze(i.iterable(p[0], st), st)), 'set')


def b_frozenset(i, a, st):
    p = _pos(a)
    if not p:
        return mk('set', seq())
    return mkset(i.freeze(i.iterable(p[0], st), st))


def b_dict(i, a, st):
    d = mk('dict')
    for p in _pos(a):
        v = i.val(p, st)
        k = kind(v)
        if isinstance(k, tuple) and k[0] == 'seq':
            d = dict_update(d, dict_from_pairs(i.freeze(v, st)))
        else:
            d = dict_update(d, i.freeze(v, st))
    for k, v in a.kw.items():
        d = dict_store(d, const(k), v)
    for x in a.starkw:
        d = dict_update(d, x)
    return i.newref(st, d, 'dict')


def b_isinstance(i, a, st):
    v, c = _pos(a)
    v = i.val(v, st)
    c = i.val(c, st)
    k = kind(v)
    cs = c.args if c.op == 'seq' else (c,)
    names = set()
    for x in cs:
        if x.op == 'cls':
            names.add(x.args[0])
        elif x.op == 'ext':
            names.add(x.args[0].replace('builtins.', ''))
        else:
            names.add(None)
    if isinstance(k, tuple) and k[0] == 'obj' and None not in names:
        if any(n in i.prog.classes and i.prog.is_subclass(k[1], n) for n in names):
            return TRUE
        if v.op == 'new':
            return FALSE
    if k in ('str', 'int', 'bool') and None not in names:
        if k in names or (k == 'str' and 'basestring' in names):
            return TRUE
        if not names & {'numbers.Number', 'object', 'numpy.integer'}:
            return FALSE
    if v.op == 'slice':
        return const('slice' in names)
    if isinstance(k, tuple) and k[0] == 'seq' and names <= {'str', 'int', 'slice', 'float', 'dict'}:
        return FALSE
    if v.op == 'seq' and 'tuple' in names:
        return TRUE
    v = i.freeze(v, st)
    return or_(*[mk('isinstance', v, n) for n in sorted(str(n) for n in names)])


def b_hasattr(i, a, st):
    v, n = _pos(a)
    v = i.val(v, st)
    k = kind(v)
    if n is const('__getitem__'):
        if isinstance(k, tuple) and k[0] in ('seq', 'dict') or k in ('array', 'str'):
            return TRUE
        if k in ('int', 'num', 'none', 'bool') or isinstance(k, tuple) and k[0] == 'set':
            return FALSE
    if isinstance(k, tuple) and k[0] == 'obj' and k[1] in i.prog.classes and is_const(n):
        if i.prog.lookup(k[1], cval(n)):
            return TRUE
    return mk('hasattr', i.freeze(v, st), n)


def b_getattr(i, a, st):
    p = _pos(a)
    v = i.val(p[0], st)
    n = p[1]
    k = kind(v)
    if is_const(n):
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] in i.prog.classes and i.prog.lookup(k[1], cval(n)):
            return i.getattr(v, cval(n), st)
        if len(p) == 2:
            return i.getattr(v, cval(n), st)
        c = mk('hasattr', i.freeze(v, st), n)
        if isinstance(k, tuple) and k[0] in ('dict', 'seq'):
            return p[2]
        got = mk('attr', v, cval(n))
        cands = [cn for cn in i.prog.classes if i.prog.lookup(cn, cval(n))]
        if len(cands) == 1 and k is None:
            # the only class that has it: dispatch as a method of that class
            m = i.prog.lookup(cands[0], cval(n))
            if m[0] == 'method':
                got = mk('bsel', cands[0], v, cval(n))
                got = mk('attr', mk('cast', cands[0], v), cval(n))
                SYMKIND[got.args[0]] = objk(cands[0])
                got = mk('bmeth', got.args[0], cval(n))
            if m[0] == 'getter':
                cst = mk('cast', cands[0], v)
                SYMKIND[cst] = objk(cands[0])
                got = mk('attr', cst, cval(n))
        return ite(c, got, p[2])
    return mk('call', 'getattr', i.args_term(a, st))


def b_callable(i, a, st):
    v = i.val(_pos(a)[0], st)
    if v.op in ('clo', 'func', 'cls', 'bmeth', 'lam'):
        return TRUE
    if v is NONE or kind(v) in ('int', 'num', 'str', 'array', 'bool') or isinstance(kind(v), tuple) and kind(v)[0] in ('seq', 'dict'):
        return FALSE
    if kind(v) == 'func':
        return TRUE
    return mk('callable', i.freeze(v, st))


def b_all(i, a, st):
    return mkall(i.freeze(i.iterable(_pos(a)[0], st), st))


def b_any(i, a, st):
    return mkany(i.freeze(i.iterable(_pos(a)[0], st), st))


def b_next(i, a, st):
    p = _pos(a)
    s = i.freeze(i.iterable(p[0], st), st)
    if len(p) > 1:
        some = lt(ZERO, length(s))
        if s.op == 'fmap':
            n, c, body, bv = open_map(s)
            some = mkany(close_map(n, c, bv))
        return ite(some, index(s, ZERO), i.freeze(p[1], st))
    return only(s, st) or index(s, ZERO)


def only(s, st):
    "the one element of a set known to have just one: no order among them"
    while s.op in ('listof', 'sorted'):
        s = s.args[0]
    if s.op == 'setseq' and eq(length(s.args[0]), ONE) in st.facts:
        return mk('anyof', s.args[0])


def b_iter(i, a, st):
    return i.iterable(_pos(a)[0], st)


def b_type(i, a, st):
    return type_of(i.val(_pos(a)[0], st))


def b_print(i, a, st):
    i.event('extcall', st, seq(const('builtins.print'), i.args_term(a, st)))
    return NONE


def b_divmod(i, a, st):
    x, y = [i.freeze(i.val(v, st), st) for v in _pos(a)]
    return seq(vfloor(div(x, y)), vmod(x, y))


def b_str(i, a, st):
    p = _pos(a)
    if not p:
        return const('')
    v = i.freeze(i.val(p[0], st), st)
    if kind(v) == 'str':
        return v
    r = mk('str', v)
    SYMKIND[r] = 'str'
    return r


def b_bool(i, a, st):
    return truthy(i.freeze(i.val(_pos(a)[0], st), st))


def b_slice(i, a, st):
    p = []
    for x in a.pos:
        if isinstance(x, tuple):
            t = i.freeze(x[1], st)
            return slice_(index(t, ZERO), index(t, ONE), index(t, const(2)))
        p.append(i.freeze(x, st))
    if len(p) == 1:
        return slice_(NONE, p[0], NONE)
    return slice_(p[0], p[1], p[2] if len(p) > 2 else NONE)


def b_round(i, a, st):
    p = [i.freeze(i.val(x, st), st) for x in _pos(a)]
    if len(p) == 1:
        return p[0] if kind(p[0]) == 'int' else mk('round', p[0])
    return mk('call', 'round', *p)


def b_pow(i, a, st):
    p = [i.freeze(i.val(x, st), st) for x in _pos(a)]
    return vpow(p[0], p[1]) if len(p) == 2 else None


def b_open(i, a, st):
    p = [i.freeze(x, st) for x in _pos(a)]
    mode = p[1] if len(p) > 1 else i.freeze(a.kw.get('mode', const('r')), st)
    t = mk('call', 'open', p[0], mode)
    SYMKIND[t] = 'file'
    i.event('extcall', st, seq(const('builtins.open'), p[0], mode))
    return t


BUILTINS = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter,
    'sorted': b_sorted, 'reversed': b_reversed, 'sum': b_sum, 'min': _minmax('min'), 'max': _minmax('max'), 'abs': b_abs,
    'int': b_int, 'float': b_float, 'tuple': b_tuple, 'list': b_list, 'set': b_set, 'frozenset': b_frozenset, 'dict': b_dict,
    'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr, 'callable': b_callable, 'all': b_all,
    'any': b_any, 'next': b_next, 'iter': b_iter, 'type': b_type, 'print': b_print, 'divmod': b_divmod, 'str': b_str,
    'bool': b_bool, 'slice': b_slice, 'round': b_round, 'pow': b_pow, 'open': b_open,
}


def x_chain(i, a, st):
    parts = []
    for x in a.pos:
        if isinstance(x, tuple):
            parts.append(flatten(iterated(i, i.freeze(x[1], st), st)))
        else:
            parts.append(i.iterable(x, st))
    return concat(*parts)


def iterated(i, x, st):
    "the sequence of what iterating each element gives"
    k = kind(x)
    if x.op in ('map', 'fmap') and isinstance(k, tuple) and isinstance(k[1], tuple) and k[1][0] == 'obj':
        n, c, el, bv = open_map(x)
        return close_map(n, i.freeze(i.iterable(el, st), st), bv, c)
    return x


def x_chain_from(i, a, st):
    return flatten(iterated(i, i.freeze(i.iterable(_pos(a)[0], st), st), st))


def x_product(i, a, st):
    parts = []
    for x in a.pos:
        if isinstance(x, tuple):
            parts.append(i.freeze(x[1], st))
        else:
            parts.append(seq(i.freeze(i.iterable(x, st), st)))
    r = mk('product', concat(*parts))
    SYMKIND[r] = seqk(seqk())
    return r


def x_starmap(i, a, st):
    from .interp import Args
    f, s = _pos(a)
    src = i.iterable(s, st)
    if src.op == 'seq':
        return seq(*[i.call(f, Args(pos=list(x.args) if x.op == 'seq' else [('*', x)]), st) for x in src.args])
    n, c, el, bv = as_elems(src)
    with i.under_binder(n, bv, c):
        s2 = st.clone()
        v = i.freeze(i.call(f, Args(pos=list(el.args) if el.op == 'seq' else [('*', el)]), s2), s2)
    return close_map(n, v, bv, c)


def x_reduce(i, a, st):
    from .interp import Args, Frame
    p = _pos(a)
    f, src = p[0], i.iterable(p[1], st)
    if len(p) > 2:
        acc = p[2]
    else:
        src = i.freeze(src, st)
        acc = index(src, ZERO)
        src = index(src, slice_(ONE, NONE, NONE))
    if src.op == 'seq':
        for x in src.args:
            acc = i.call(f, Args(pos=[acc, x]), st)
        return acc
    pieces = src.args if src.op == 'concat' else (src,)
    for pc in pieces:
        if pc.op == 'seq':
            for x in pc.args:
                acc = i.call(f, Args(pos=[acc, x]), st)
            continue
        n, c0, el, bv = as_elems(pc)
        init = i.freeze(i.val(acc, st), st)
        # tuple accumulators are reduced component-wise
        if init.op == 'seq' and f.op in ('clo', 'func', 'lam'):
            lvs = []
            for x in init.args:
                Frame._n += 1
                lv = mk('lv', Frame._n)
                if kind(x) not in (None, 'none'):
                    SYMKIND[lv] = kind(x) if not is_seq(x) else seqk()
                lvs.append(lv)
            with i.under_binder(n, bv, c0, lvs):
                s2 = st.clone()
                v = i.freeze(i.call(f, Args(pos=[seq(*lvs), el]), s2), s2)
            if v.op == 'seq' and len(v.args) == len(lvs):
                res = []
                ok = True
                for lv, x0, x1 in zip(lvs, init.args, v.args):
                    d = {y for y in nodes(x1) if y in lvs}
                    if not d:
                        res.append(mk('last', n, x0, subst(x1, {bv: sub(n, ONE)})))
                    elif d == {lv}:
                        res.append(i.recurrence(x1, lv, x0, n, c0, bv, st)[1] if x1 is not lv else x0)
                    else:
                        ok = False
                if ok:
                    acc = seq(*res)
                    continue
            # growing sequence:  c + [c[-1] + x]
        Frame._n += 1
        lv = mk('lv', Frame._n)
        k = kind(init)
        if k not in (None, 'none'):
            SYMKIND[lv] = k if not (isinstance(k, tuple) and k[0] == 'seq') else seqk(k[1])
        with i.under_binder(n, bv, c0, [lv]):
            s2 = st.clone()
            v = i.freeze(i.call(f, Args(pos=[lv, el]), s2), s2)
        r = prefix_pattern(v, lv, init, n, c0, bv)
        if r is not None:
            acc = r
            continue
        if v is lv:
            acc = init
        else:
            d = {y for y in nodes(v) if y is lv}
            if not d:
                acc = mk('last', n, init, subst(v, {bv: sub(n, ONE)}))
            else:
                acc = i.recurrence(v, lv, init, n, c0, bv, st)[1]
    return acc


def prefix_pattern(v, lv, init, n, c0, bv):
    "c + [c[-1] + d(k)]  with init [x0]   ->  [x0 + sum(d(j) for j<i) for i in range(n+1)]"
    if c0 is not TRUE or init.op != 'seq' or len(init.args) != 1:
        return None
    if v.op == 'concat' and len(v.args) == 2 and v.args[0] is lv and v.args[1].op == 'seq' and len(v.args[1].args) == 1:
        step = v.args[1].args[0]
        lastv = index(lv, const(-1))
        d = sub(step, lastv)
        if occurs(lv, d):
            return None
        return psums(init.args[0], d, n, bv)
    return None


def psums(x0, d, n, bv):
    "running sums, length n+1"
    i = fresh_bv()
    SYMKIND[i] = 'int'
    b2 = fresh_bv()
    SYMKIND[b2] = 'int'
    return close_map(add(n, ONE), add(x0, mksum(close_map(i, subst(d, {bv: b2}), b2))), i)


def x_accumulate(i, a, st):
    from .interp import Args
    p = _pos(a)
    src = i.freeze(i.iterable(p[0], st), st)
    f = p[1] if len(p) > 1 else a.kw.get('func')
    if f is not None and not (f.op == 'ext' and f.args[0] == 'operator.add'):
        return None
    init = a.kw.get('initial')
    n, c, el, bv = as_elems(src)
    if c is not TRUE:
        return None
    if init is not None and init is not NONE:
        return psums(i.freeze(init, st), el, n, bv)
    r = psums(ZERO, el, n, bv)
    return index(r, slice_(ONE, NONE, NONE))


def x_cumsum(i, a, st):
    src = i.freeze(i.iterable(_pos(a)[0], st), st)
    n, c, el, bv = as_elems(src)
    if c is not TRUE or a.kw:
        return None
    return arr(index(psums(ZERO, el, n, bv), slice_(ONE, NONE, NONE)))


def x_counter(i, a, st):
    return mk('call', 'Counter', *[i.freeze(i.iterable(x, st), st) for x in _pos(a)])


def x_partial(i, a, st):
    from .interp import Args
    if not a.pos or not isinstance(a.pos[0], Node):
        return None
    r = mk('call', 'functools.partial', i.args_term(a, st))
    i.partials[r] = (i.val(a.pos[0], st), Args(list(a.pos[1:]), dict(a.kw), None, list(a.starkw)))
    return r


def x_defaultdict(i, a, st):
    f = i.val(a.pos[0], st) if a.pos and isinstance(a.pos[0], Node) else NONE
    d = {'builtins.list': seq(), 'builtins.int': ZERO, 'builtins.float': ZERO, 'builtins.dict': mk('dict'), 'builtins.set': mkset(seq()),
         'builtins.str': const('')}.get(f.args[0] if f.op == 'ext' else None)
    if d is None and f.op == 'clo':
        from .interp import Args
        i.quiet += 1
        try:
            d = i.freeze(i.call(f, Args(), st), st)
        finally:
            i.quiet -= 1
    if d is None or len(a.pos) > 1 or a.kw or a.starkw:
        return None
    r = i.newref(st, mk('dict'), 'dict')
    st.heap[('ddef', r)] = d
    return r


def x_attrgetter(i, a, st):
    from .interp import Args
    names = [cval(x) if isinstance(x, Node) and x.op == 'const' else None for x in a.pos]
    if len(names) == 1 and isinstance(names[0], str) and '.' not in names[0] and not a.kw:
        return i.lambda_of('lambda x: x.' + names[0], st)
    return None


def x_itemgetter(i, a, st):
    vals = [cval(x) if isinstance(x, Node) and x.op == 'const' else None for x in a.pos]
    if len(vals) >= 1 and all(isinstance(v, (int, str)) for v in vals) and not a.kw:
        body = ', '.join(f'x[{v!r}]' for v in vals)
        return i.lambda_of('lambda x: ' + (f'({body})' if len(vals) > 1 else body), st)
    return None


FLAGS = {'IGNORECASE': 'i', 'I': 'i', 'MULTILINE': 'm', 'M': 'm', 'DOTALL': 's', 'S': 's', 'VERBOSE': 'x', 'X': 'x', 'ASCII': 'a', 'A': 'a',
         'UNICODE': '', 'U': '', 'NOFLAG': ''}


def re_flags(v):
    "the letters of a combination of flags, or the term itself"
    if v is None or v is ZERO:
        return ''
    out = set()
    for x in nodes(v):
        if x.op == 'ext' and str(x.args[0]).split('.')[-1] in FLAGS:
            out |= set(FLAGS[str(x.args[0]).split('.')[-1]])
        elif x.op not in ('or', 'poly', 'ext') or x.op == 'ext':
            return v
    return ''.join(sorted(out))


def re_compile(p, fl):
    if p.op == 'call' and p.args[0] == 're.compile' and fl == '':
        return p
    return mk('call', 're.compile', mk('args', seq(p) if fl == '' else seq(p, const(fl) if isinstance(fl, str) else fl)))


def x_re(name, n):
    "functions of re: methods of the compiled expression"
    def f(i, a, st):
        F = lambda x: i.freeze(x, st)
        pos = list(a.pos)
        if any(not isinstance(x, Node) for x in pos) or a.starkw or not pos:
            return None
        kw = dict(a.kw)
        fl = kw.pop('flags', None)
        i.event('extcall', st, seq(const('re.' + name), i.args_term(a, st)))
        if name == 'compile':
            fl = pos[1] if len(pos) == 2 else fl
            return None if kw or len(pos) > 2 else re_compile(F(pos[0]), re_flags(F(fl) if fl is not None else None))
        if len(pos) > n + 1:
            fl = pos.pop()
        from .interp import Args
        rest = Args(pos[1:], kw)
        r = mk('mcall', name, re_compile(F(pos[0]), re_flags(F(fl) if fl is not None else None)), i.args_term(rest, st))
        if name == 'sub':
            SYMKIND[r] = 'str'
        return r
    return f


EXT = {
    're.compile': x_re('compile', 1), 're.match': x_re('match', 1), 're.search': x_re('search', 1), 're.fullmatch': x_re('fullmatch', 1),
    're.findall': x_re('findall', 1), 're.finditer': x_re('finditer', 1), 're.split': x_re('split', 2), 're.sub': x_re('sub', 3),
    'functools.partial': x_partial,
    'collections.defaultdict': x_defaultdict, 'operator.attrgetter': x_attrgetter, 'operator.itemgetter': x_itemgetter,
    'itertools.chain': x_chain, 'itertools.chain.from_iterable': x_chain_from, 'itertools.product': x_product,
    'itertools.starmap': x_starmap, 'functools.reduce': x_reduce, 'itertools.accumulate': x_accumulate,
    'numpy.cumsum': x_cumsum, 'collections.Counter': x_counter,
}


# ------------------------------------------------------------------ numpy

SIG = {
    'delete': (('arr', 'obj', 'axis'), (None, None, NONE)),
    'isclose': (('a', 'b', 'rtol', 'atol', 'equal_nan'), (None, None, const(1e-5), const(1e-8), FALSE)),
    'allclose': (('a', 'b', 'rtol', 'atol', 'equal_nan'), (None, None, const(1e-5), const(1e-8), FALSE)),
    'norm': (('x', 'ord', 'axis', 'keepdims'), (None, NONE, NONE, FALSE)),
    'sum': (('a', 'axis', 'dtype', 'out', 'keepdims'), (None, NONE, NONE, NONE, FALSE)),
    'mean': (('a', 'axis'), (None, NONE)), 'std': (('a', 'axis'), (None, NONE)),
    'max': (('a', 'axis'), (None, NONE)), 'min': (('a', 'axis'), (None, NONE)),
    'interp': (('x', 'xp', 'fp', 'left', 'right', 'period'), (None, None, None, NONE, NONE, NONE)),
    'angle': (('z', 'deg'), (None, FALSE)),
    'solve': (('a', 'b'), (None, None)),
    'loadtxt': (('fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols'),
                (None, const('float'), const('#'), NONE, NONE, ZERO, NONE)),
    'interp1d': (('x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'),
                 (None, None, const('linear'), const(-1), None, NONE, None, FALSE)),
    'fromfile': (('file', 'dtype', 'count', 'sep', 'offset'), (None, None, const(-1), const(''), ZERO)),
    'frombuffer': (('buffer', 'dtype', 'count', 'offset'), (None, None, const(-1), ZERO)),
    'dpss': (('M', 'NW', 'Kmax', 'sym', 'norm', 'return_ratios'), (None, None, NONE, TRUE, NONE, FALSE)),
    'as_strided': (('x', 'shape', 'strides', 'subok', 'writeable'), (None, NONE, NONE, FALSE, TRUE)),
    'sliding_window_view': (('x', 'window_shape', 'axis'), (None, None, NONE)),
    'gammaincinv': (('a', 'y'), (None, None)),
    'union1d': (('ar1', 'ar2'), (None, None)),
    'einsum': ((), ()),
    'from_array': (('x', 'chunks', 'name', 'lock', 'asarray', 'fancy'), (None, None, NONE, FALSE, NONE, TRUE)),
    'unique': (('ar',), (None,)),
    'nanmedian': (('a', 'axis'), (None, NONE)), 'median': (('a', 'axis'), (None, NONE)),
}

REALFN = {'nanmedian', 'median', 'norm'}


def npcall(interp, dotted, args, st):
    name = dotted.split('.')[-1]
    F = lambda x: interp.freeze(interp.val(x, st), st)
    pos = []
    star = False
    for a in args.pos:
        if isinstance(a, tuple):
            star = True
            pos.append(mk('star', F(a[1])))
        else:
            pos.append(F(a))
    kw = {k: F(v) for k, v in args.kw.items()}
    if '.' in dotted:
        interp.event('extcall', st, seq(const(dotted), *pos))
        if 'out' in kw and kw['out'] is not NONE:
            tgt, cur = args.kw['out'], kw['out']
            interp.event('mutate', st, seq(tgt if tgt.op == 'ref' else cur, const('out=')))
            r = npcall(interp, dotted, type(args)(args.pos, {k: v for k, v in args.kw.items() if k not in ('out', 'where')}, None, args.starkw), st)
            if 'where' in kw:
                r = mk('call', 'where', kw['where'], r, cur)
            if tgt.op == 'seq':
                return r
            interp.overwrite(tgt, r, st)
            return tgt if tgt.op == 'ref' else r
        if pos and (name in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'shuffle', 'put_along_axis') or dotted.endswith('.at')):
            tgt = args.pos[0]
            interp.event('mutate', st, seq(tgt if isinstance(tgt, Node) and tgt.op == 'ref' else pos[0], const(name)))
            if isinstance(tgt, Node):
                interp.overwrite(tgt, mk('call', dotted.split('.', 1)[-1], *pos, *[mk('kw', k, v) for k, v in sorted(kw.items())]), st)
            return NONE
    f = NP.get(name)
    if f is not None and not star:
        r = f(interp, pos, dict(kw), st)
        if r is not None:
            return r
    if name == 'hstack' or name == 'concatenate':
        pass
    sig = SIG.get(name)
    extra = {}
    if sig and sig[0]:
        names, defs = sig
        out = list(pos)
        for j, nm in enumerate(names):
            if j < len(out):
                continue
            if nm in kw:
                while len(out) < j:
                    out.append(defs[len(out)] or mk('dflt', names[len(out)]))
                out.append(kw.pop(nm))
        # pad with defaults
        while len(out) < len(names):
            d = defs[len(out)]
            out.append(d if d is not None else mk('dflt', names[len(out)]))
        # strip trailing defaults
        while out and len(out) > 1 and (out[-1] is defs[len(out) - 1] or out[-1].op == 'dflt') and len(out) > 1:
            out.pop()
        pos = out
    kws = [mk('kw', k, v) for k, v in sorted(kw.items())]
    r = mk('call', name, *pos, *kws)
    if name in REALFN:
        SYMKIND[r] = 'num'
    if name in ('compute',):
        SYMKIND[r] = seqk()
    return r


def n_array(i, p, kw, st):
    x = p[0]
    if 'ndmin' in kw or 'order' in kw:
        return None
    copy = kw.get('copy', TRUE)
    dt = kw.get('dtype', p[1] if len(p) > 1 else None)
    v = arr(x)
    if v.op == 'sym' and kind(v) is None:
        v = mk('arr', v)
    if dt is not None and dt is not NONE:
        v = astype(v, dt)
    if copy is FALSE:
        return v
    return i.newref(st, v, 'array')


def astype(v, dt):
    if dt.op == 'ext':
        dt = const(dt.args[0].split('.')[-1])
    return mk('astype', v, dt)


def n_asarray(i, p, kw, st):
    if len(p) > 1 or 'dtype' in kw:
        return astype(arr(p[0]), p[1] if len(p) > 1 else kw['dtype'])
    return arr(p[0]) if kind(p[0]) is not None or p[0].op != 'sym' else mk('arr', p[0])


def n_alloc(v):
    def f(i, p, kw, st):
        shp = p[0] if p else kw.get('shape')
        shp = i.val(shp, st)
        dt = kw.get('dtype', p[1] if len(p) > 1 else None)
        c = fill(shp, v) if v is not None else mk('call', 'empty', shp if not (shp.op == 'seq' and len(shp.args) == 1) else shp.args[0])
        if v is None and shp is ZERO:
            c = mk('arr', seq())
        if dt is not None and not (v is None and shp is ZERO):
            nm = dt.args[0].split('.')[-1] if dt.op == 'ext' else (cval(dt) if is_const(dt) else None)
            if nm == 'bool' and v in (ZERO, ONE):
                c = fill(shp, const(v is ONE))
            elif nm not in ('float', 'float64', 'complex', 'complex128'):
                c = astype(c, dt)
        return i.newref(st, c, 'array')
    return f


def n_full(i, p, kw, st):
    shp = p[0] if p else kw['shape']
    v = p[1] if len(p) > 1 else kw['fill_value']
    return i.newref(st, fill(shp, v), 'array')


def n_like(v):
    def f(i, p, kw, st):
        x = p[0]
        s = shape(x)
        if s.op == 'seq' and len(s.args) == 1:
            s = s.args[0]
        vv = v
        if v == 'full':
            vv = p[1]
        if v is None:
            return i.newref(st, mk('call', 'empty', s), 'array')
        return i.newref(st, mk('fill', s, vv), 'array')
    return f


def n_tile(i, p, kw, st):
    x, reps = p[0], p[1] if len(p) > 1 else kw['reps']
    if x.op in ('nan', 'const') or kind(x) in ('num', 'int'):
        return i.newref(st, fill(reps, x), 'array')
    return None


def n_arange(i, p, kw, st):
    kw.pop('dtype', None)
    if kw:
        return None
    return mk('arr', range_(*p))


def n_un(op):
    return lambda i, p, kw, st: mk(op, p[0]) if len(p) == 1 and not kw else None


def n_where(i, p, kw, st):
    if len(p) == 1:
        r = mk('call', 'nonzero', p[0])
        SYMKIND[r] = seqk('array')
        return r
    c, a, b = p
    return where(c, a, b)


def where(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    n = not_(c)
    if n.dig < c.dig:
        c, a, b = n, b, a
    return mk('where', c, a, b)


def n_reduce(op):
    def f(i, p, kw, st):
        ax = kw.pop('axis', p[1] if len(p) > 1 else NONE)
        if kw:
            return None
        x = p[0]
        if ax is NONE or (ax is ZERO and kind(x) != 'array'):
            if op == 'sum':
                if x.op == 'arr' or is_seq(x):
                    return mksum(x.args[0] if x.op == 'arr' else x)
                r = mk('call', 'sum', x)
                SYMKIND[r] = 'num'
                return npsum(x)
            if op in ('min', 'max'):
                return redmm(op, x)
            if op == 'all':
                return mkall(x.args[0]) if x.op == 'arr' else (mkall(x) if is_seq(x) else mk('all', x))
            if op == 'any':
                return mkany(x.args[0]) if x.op == 'arr' else (mkany(x) if is_seq(x) else not_(mk('all', not_(x))))
        if op == 'sum':
            return mk('call', 'sum', x, ax)
        return mk('call', op, x, ax)
    return f


def npsum(x):
    "sum of an array: pull scalar factors out"
    if x.op == 'poly' and len(x.args[0]) == 1:
        (mono, c), = x.args[0]
        sc, rest = mk('const', c), ONE
        for b, e in mono:
            if kind(b) in ('num', 'int'):
                sc = mul(sc, power(b, e))
            else:
                rest = mul(rest, power(b, e))
        if rest is not ONE:
            r = mk('call', 'sum', rest)
            SYMKIND[r] = 'num'
            return mul(sc, r)
    r = mk('call', 'sum', x)
    SYMKIND[r] = 'num'
    return r


def n_clip(i, p, kw, st):
    lo = p[1] if len(p) > 1 else kw.get('a_min', NONE)
    hi = p[2] if len(p) > 2 else kw.get('a_max', NONE)
    x = p[0]
    if lo is not NONE:
        x = vmax(x, lo)
    if hi is not NONE:
        x = vmin(x, hi)
    return x


def n_cat(i, p, kw, st):
    ax = kw.pop('axis', p[1] if len(p) > 1 else ZERO)
    if kw or ax is not ZERO:
        return None
    return mk('cat', arr_list(p[0]))


def arr_list(x):
    if x.op == 'arr':
        return x.args[0]
    return x


def n_hstack(i, p, kw, st):
    return mk('cat', arr_list(p[0])) if not kw else None


def n_stack(i, p, kw, st):
    return None if kw else arr(p[0])


def n_solve(i, p, kw, st):
    kw.pop('check_finite', None)
    kw.pop('overwrite_a', None)
    if kw:
        return None
    r = mk('call', 'solve', p[0], p[1])
    return r


def n_nonzero(i, p, kw, st):
    r = mk('call', 'nonzero', p[0])
    SYMKIND[r] = seqk('array')
    return r


def n_diff(i, p, kw, st):
    if len(p) != 1 or kw:
        return None
    x = p[0]
    return sub(vindex(x, slice_(ONE, NONE, NONE)), vindex(x, slice_(NONE, const(-1), NONE)))


def n_fromiter(i, p, kw, st):
    return mk('arr', i.iterable(p[0], st))


def n_concat_id(i, p, kw, st):
    return p[0]


def n_logical(f):
    return lambda i, p, kw, st: f(*p)


def n_interp1d(i, p, kw, st):
    return None


NP = {
    'array': n_array, 'asarray': n_asarray, 'asanyarray': n_asarray, 'ascontiguousarray': n_asarray,
    'zeros': n_alloc(ZERO), 'ones': n_alloc(ONE), 'empty': n_alloc(None), 'full': n_full, 'tile': n_tile,
    'zeros_like': n_like(ZERO), 'ones_like': n_like(ONE), 'empty_like': n_like(None), 'full_like': n_like('full'),
    'arange': n_arange, 'exp': n_un('exp'), 'log': n_un('log'), 'cos': n_un('cos'), 'sin': n_un('sin'),
    'sqrt': lambda i, p, kw, st: power(p[0], '1/2') if len(p) == 1 else None,
    'square': lambda i, p, kw, st: power(p[0], 2),
    'conj': lambda i, p, kw, st: conj(p[0]), 'conjugate': lambda i, p, kw, st: conj(p[0]),
    'transpose': lambda i, p, kw, st: transpose(arr(p[0])) if len(p) == 1 and not kw else None,
    'dot': lambda i, p, kw, st: matmul(p[0], p[1]), 'matmul': lambda i, p, kw, st: matmul(p[0], p[1]),
    'abs': lambda i, p, kw, st: vabs(p[0]), 'absolute': lambda i, p, kw, st: vabs(p[0]),
    'fabs': lambda i, p, kw, st: vabs(p[0]),
    'real': lambda i, p, kw, st: real(p[0]), 'imag': n_un('imag'),
    'floor': lambda i, p, kw, st: T.floor(p[0]), 'ceil': lambda i, p, kw, st: T.ceil(p[0]),
    'round': lambda i, p, kw, st: (p[0] if kind(p[0]) == 'int' else mk('round', p[0])) if len(p) == 1 else None,
    'rint': lambda i, p, kw, st: mk('round', p[0]), 'trunc': lambda i, p, kw, st: trunc(p[0]),
    'minimum': lambda i, p, kw, st: vmin(*p) if not kw else None, 'maximum': lambda i, p, kw, st: vmax(*p) if not kw else None,
    'clip': n_clip, 'where': n_where, 'nonzero': n_nonzero, 'flatnonzero': lambda i, p, kw, st: index(n_nonzero(i, p, kw, st), ZERO),
    'sum': n_reduce('sum'), 'min': n_reduce('min'), 'max': n_reduce('max'), 'amin': n_reduce('min'), 'amax': n_reduce('max'),
    'all': n_reduce('all'), 'any': n_reduce('any'),
    'concatenate': n_cat, 'hstack': n_hstack, 'stack': n_stack, 'solve': n_solve, 'fromiter': n_fromiter,
    'true_divide': lambda i, p, kw, st: div(p[0], p[1]), 'divide': lambda i, p, kw, st: div(p[0], p[1]),
    'multiply': lambda i, p, kw, st: mul(p[0], p[1]), 'add': lambda i, p, kw, st: add(p[0], p[1]),
    'subtract': lambda i, p, kw, st: sub(p[0], p[1]), 'power': lambda i, p, kw, st: vpow(p[0], p[1]),
    'negative': lambda i, p, kw, st: neg(p[0]),
    'shape': lambda i, p, kw, st: shape(p[0]), 'ndim': lambda i, p, kw, st: ndim(p[0]),
    'size': lambda i, p, kw, st: mk('attr', p[0], 'size'),
    'diff': n_diff, 'logical_not': lambda i, p, kw, st: not_(p[0]), 'logical_and': n_logical(and_),
    'logical_or': n_logical(or_), 'isnan': n_un('isnan'), 'deg2rad': lambda i, p, kw, st: mul(p[0], div(mk('pi'), const(180))),
    'radians': lambda i, p, kw, st: mul(p[0], div(mk('pi'), const(180))),
    'log2': n_un('log2'), 'divmod': lambda i, p, kw, st: seq(vfloor(div(p[0], p[1])), vmod(p[0], p[1])),
}

EXTCONST = {
    'numpy.pi': mk('pi'), 'math.pi': mk('pi'), 'numpy.nan': mk('nan'), 'numpy.NaN': mk('nan'), 'math.nan': mk('nan'),
    'numpy.inf': mk('inf'), 'math.inf': mk('inf'), 'numpy.newaxis': NONE,
}
SYMKIND[mk('pi')] = 'num'
SYMKIND[mk('I')] = 'num'


def canon_ext_value(dotted):
    return EXTCONST.get(dotted)


def _install():
    # extra normalisation on rebuild
    REBUILD.update({
        'idx': vindex, 'len': vlen, 'matmul': matmul, 'conj': conj, 'T': transpose, 'abs': vabs, 'arr': arr,
        'all': lambda s: mkall(s) if s.op in ('seq', 'map', 'fmap', 'concat') else mk('all', s),
        'set': lambda s: mkset(s), 'union': lambda *xs: mkunion(list(xs)), 'lookup': lookup, 'trunc': trunc,
        'sum': lambda s: mksum(s), 'where': where, 'shape': shape, 'in': lambda x, c: contains(c, x),
        'redmin': lambda s: redmm('min', s), 'redmax': lambda s: redmm('max', s), 'unzip': unzip,
        'real': real, 'getor': lookup_or, 'pow': vpow,
    })


_install()
