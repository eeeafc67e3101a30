"""Comparison of two normal forms: EQUAL / DIFF (with the smallest differing pair) / UNKNOWN.

DIFF is answered only when the difference sits at positions the theory understands:
different constants, different inputs, different polynomials over the same atoms,
different orderings in min/max/comparison terms (all weak orders enumerated), a boolean
condition with another truth table, or a different rigid operator.  Anything else is UNKNOWN.
"""
import itertools
import math
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from . import norm as N

EQ, DF, UN = 'EQUAL', 'DIFF', 'UNKNOWN'


class R:
    __slots__ = ('s', 'pairs')

    def __init__(self, s, pairs=()):
        self.s, self.pairs = s, tuple(pairs)

    def __repr__(self):
        return f'{self.s}{[(show(a), show(b)) for a, b in self.pairs]}'


EQUAL = R(EQ)


def join(rs):
    "conjunction of children comparisons"
    pairs, st = [], EQ
    for r in rs:
        if r.s == UN:
            st = UN
            pairs += r.pairs
        elif r.s == DF:
            if st == EQ:
                st = DF
            pairs += r.pairs
    return R(st, pairs[:6])


def rigid(rs):
    "children of a constructor: one difference suffices"
    df = [p for r in rs if r.s == DF for p in r.pairs]
    if any(r.s == DF for r in rs):
        return R(DF, df[:6])
    return join(rs)


# operators that denote different functions whatever their (common) operands
DISJOINT = [
    {'floor', 'ceil', 'trunc', 'round'}, {'min', 'max'}, {'redmin', 'redmax'}, {'lt0', 'le0', 'eq0'},
    {'union', 'inter', 'sdiff'}, {'real', 'imag'}, {'exp', 'log'}, {'floordiv', 'mod'},
]
# commutative: children compared as sets
COMM = {'min', 'max', 'union', 'inter', 'and', 'or'}
# children order is irrelevant inside these: a pure permutation is not a difference
ORDERLESS = {'set', 'setseq', 'sorted', 'redmin', 'redmax', 'sum', 'anyof'}
# operators never to be looked into
BLACK = {'opaque', 'noreturn', 'unbound', 'loopvar', 'loopret', 'loopretval', 'loopbrk', 'loopexit'}
EXITS = {'loopvar', 'loopret', 'loopretval', 'loopbrk', 'loopexit'}
BOOLS = {'lt0', 'le0', 'eq0', 'and', 'or', 'not', 'eq', 'isnone', 'in', 'truthy', 'all', 'any', 'isinstance', 'cmp',
         'hasattr', 'callable', 'raised', 'issubset', 'exctype'}


def simple(n):
    "an independent input of the function"
    if n.op in ('sym', 'bv', 'bv?', 'acc'):
        return True
    if n.op in ('attr',):
        return simple(n.args[0])
    if n.op in ('idx', 'lookup'):
        return simple(n.args[0]) and (simple(n.args[1]) or n.args[1].op == 'const')
    return n.op in ('I', 'pi', 'nan', 'inf')


def atoms(p):
    out = set()
    for m, c in to_poly(p).items():
        for b, e in m:
            out.add(b)
    return out


# operators whose presence on one side only may be a matter of spelling (another loop form, another data structure)
WEAK = {'fold', 'gloop', 'flatten', 'concat', 'fmap', 'filterseq', 'store', 'dstore', 'dmap', 'last', 'loopat', 'foldat', 'setseq',
        'sorted', 'reversed', 'repeat', 'acc', 'lv', 'loopout', 'listof', 'lam', 'view', 'arr', 'where', 'astype', 'T', 'rcall',
        'partialfn', 'einsum', 'apply', 'items', 'keys', 'values', 'getor', 'lookup'}
PLAIN = {'const', 'sym', 'bv', 'bv?', 'poly', 'lt0', 'le0', 'eq0', 'and', 'or', 'not', 'ite', 'seq', 'idx', 'slice', 'len', 'map',
         'isnone', 'truthy', 'eq', 'exctype', 'I', 'pi', 'nan', 'inf', 'args', 'kw', 'set', 'dict', 'all', 'in', 'isinstance', 'floor', 'ceil'}
# library functions pairwise different on the same arguments
DISTINCT = [
    {'mean', 'median', 'sum', 'prod', 'max', 'min', 'std', 'var', 'cumsum', 'cumprod', 'argmax', 'argmin', 'argsort', 'sort', 'any', 'all'},
    {'zeros', 'ones', 'empty'}, {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'log10', 'log2', 'abs', 'angle', 'real', 'imag', 'conj',
                                 'arcsin', 'arctan', 'exp2', 'log1p', 'expm1', 'sign'},
    {'inv', 'pinv', 'det'}, {'union1d', 'intersect1d', 'setdiff1d', 'setxor1d', 'concatenate'}, {'floor', 'ceil', 'rint', 'trunc', 'round'},
    {'hanning', 'hamming', 'blackman', 'bartlett'}, {'triu', 'tril'}, {'maximum', 'minimum'}, {'isclose', 'equal'},
]


# what an operation does that the operations around it cannot undo: family -> operations that may stand for one another.
# An operation of a family nothing of which occurs on the other side is a difference however it is written.
KIN = {
    'tolerance': 'isclose allclose',
    'rounding': 'round around rint fix floor ceil trunc floordiv mod int long op.floordiv op.mod divmod astype round_ int_',
    'order': 'sorted sort argsort unique setseq set reversed lexsort union inter sdiff union1d intersect1d setdiff1d setxor1d flip flipud fliplr '
             'fromkeys partition argpartition searchsorted nonzero where in1d isin bincount',
    'reduction': 'sum mean median max min prod std var average percentile quantile cumsum cumprod redmin redmax argmax argmin ptp norm dot vdot einsum '
                 'matmul count_nonzero len fold gloop trapz nansum nanmean nanmedian nanmax nanmin nanstd trace any all anyof',
    'nan': 'nan_to_num nansum nanmean nanmedian nanmax nanmin nanstd nanvar nanpercentile isnan isfinite isinf nan',
    'modulus': 'abs fabs absolute hypot norm conj conjugate real imag angle sqrt max min maximum minimum sign square ite lt0 le0 where vdot dot matmul arctan2 atan2 arctan atan phase',
    'part': 'real imag conj conjugate angle abs view vdot real_if_close arctan2 atan2 arctan atan phase',
    'clip': 'clip max min maximum minimum ite where lt0 le0 fmin fmax',
    'isdir': 'is_dir isdir', 'isfile': 'is_file isfile', 'exists': 'exists lexists access stat',
    'case': 'lower upper casefold title capitalize swapcase str.lower str.upper str.casefold str.title str.capitalize str.swapcase',
    'strip': 'strip lstrip rstrip str.strip str.lstrip str.rstrip split rsplit str.split str.rsplit removeprefix removesuffix str.removeprefix str.removesuffix '
             'partition rpartition match search idx',
    'permutation': 'roll flip flipud fliplr rot90 shuffle permutation reversed idx sorted sort argsort take concat',
    'inverse': 'inv pinv solve lstsq linalg.inv linalg.pinv linalg.solve linalg.lstsq qr svd cholesky rcall',
    'detrend': 'detrend diff gradient cumsum filtfilt lfilter convolve',
    'listing': 'iterdir listdir scandir os.listdir os.scandir walk os.walk glob glob.glob rglob iglob glob.iglob samefile',
    'file state': 'getmtime getctime getatime getsize stat lstat os.stat os.lstat',
    'glob': 'fnmatch fnmatchcase filter fnmatch.filter fnmatch.fnmatch fnmatch.fnmatchcase translate fnmatch.translate match search fullmatch glob rglob',
    'ceiling': 'nextafter spacing finfo',
    'short float': 'float32 float16 single half complex64 csingle',
    'short int': 'int32 int16 int8 uint8 uint16 uint32 intc short ushort uintc',
}
KIN = {k: frozenset(v.split()) for k, v in KIN.items()}
# members that may also be there for show (a sort of something sorted, the length of something, ...): never evidence by themselves
MEEK = frozenset('len idx int where ite lt0 le0 gloop fold concat in1d isin nonzero view astype nan set setseq sorted fromkeys sort max min abs real split rsplit '
                 'str.split str.rsplit match search stat access union inter sdiff all any anyof searchsorted argsort take norm dot vdot einsum matmul sqrt '
                 'maximum minimum sum conj rcall reversed union1d isin bincount fmin fmax square str.strip strip isfinite isnan isinf floor ceil trunc '
                 'floordiv mod op.floordiv op.mod divmod finfo count_nonzero redmin redmax long int_'.split())
FAM = {}
for _f, _v in KIN.items():
    for _o in _v:
        FAM.setdefault(_o, set()).add(_f)
# nothing but the functions of the argument makes up for the argument of a complex number
KIN['angle'] = frozenset('angle arctan2 atan2 arctan atan phase imag log'.split())
FAM['angle'] = {'angle'}


# a change of unit makes up for nothing
UNITS = {'degrees', 'radians', 'deg2rad', 'rad2deg', 'pi', 'multiply', 'divide'}


# families no other operation can make up for
HARD = {'glob', 'listing', 'file state'}

DTYPES = {'f4': 'float32', 'f2': 'float16', 'c8': 'complex64', 'i4': 'int32', 'i2': 'int16', 'i1': 'int8', 'u1': 'uint8', 'u2': 'uint16',
          'u4': 'uint32', 'i': 'int32', 'f': 'float32', 'h': 'int16', 'b': 'int8', 'B': 'uint8', 'H': 'uint16', 'I': 'uint32', 'F': 'complex64',
          'e': 'float16', 'l': 'int32', 'L': 'uint32'}
DTYPES.update({v: v for v in list(DTYPES.values())})
# other summaries of a sequence than its largest and smallest elements
SUMMARY = {'mean', 'median', 'std', 'var', 'prod', 'average', 'percentile', 'quantile', 'norm', 'ptp'}
# functions of a text that lose a part of it
LOSSY = set('basename dirname splitext splitdrive lower upper casefold title capitalize swapcase strip lstrip rstrip'.split())
# keywords that change what is computed, with the values that do not
KEYWORDS = {'cond': (None,), 'rcond': (None, -1, 'warn'), 'assume_a': (None, 'gen', 'general'), 'transposed': (False,), 'ddof': (0,), 'keepdims': (False,)}


def cutoff(n):
    "a threshold under which a solver ignores part of its input"
    for x in n.args[1:]:
        xs = [x] if isinstance(x, Node) and x.op == 'kw' else list(x.args) if isinstance(x, Node) and x.op == 'args' else []
        for k in xs:
            if isinstance(k, Node) and k.op == 'kw' and k.args[0] in ('cond', 'rcond', 'rtol', 'tol', 'cutoff') and is_num_const(k.args[1]) and cval(k.args[1]) > 1e-13:
                return True
    return False


def names_of(n, memo={}):
    "all operation names in a term, plain ones included"
    r = memo.get(n)
    if r is None:
        s = set()
        if isinstance(n, Node):
            s.add(n.op)
            if n.op == 'const' and isinstance(n.args[0], str) and n.args[0].lstrip('<>=|') in DTYPES:
                s.add(DTYPES[n.args[0].lstrip('<>=|')])
            if n.op in ('call', 'mcall', 'rcall', 'ext') and n.args:
                a = n.args[0]
                if isinstance(a, str):
                    s.add(a)
                    s.add(a.split('.')[-1])
                elif isinstance(a, Node):
                    s |= {x for x in re.findall(r'[\w.]+', show(a))[:3]} if a.op in ('ext', 'const') else set()
            for a in n.args:
                if isinstance(a, (Node, tuple)):
                    s |= names_of(a)
        elif isinstance(n, tuple):
            for a in n:
                if isinstance(a, (Node, tuple)):
                    s |= names_of(a)
        r = memo[n] = frozenset(s)
    return r


def token(n):
    "what a node adds to the vocabulary (None: nothing)"
    op = n.op
    if op in PLAIN:
        return None
    if op in ('attr', 'call', 'mcall', 'ccall', 'new', 'ext', 'func', 'cls', 'rcall', 'gvar'):
        a = n.args[1] if op == 'attr' else n.args[0]
        return (op, a if isinstance(a, str) else getattr(a, 'dig', a))
    return (op,)


_TOK = {}


def tokens(n):
    r = _TOK.get(n)
    if r is None:
        s = set()
        if isinstance(n, tuple):
            for a in n:
                if isinstance(a, (Node, tuple)):
                    s |= tokens(a)
            return frozenset(s)
        t = token(n)
        if t is not None:
            s.add(t)
        for a in n.args:
            if isinstance(a, (Node, tuple)):
                s |= tokens(a)
        r = _TOK[n] = frozenset(s)
    return r


def syms(n, memo={}):
    "inputs and indices a term mentions"
    r = memo.get(n)
    if r is None:
        s = set()
        if isinstance(n, Node) and n.op in ('sym', 'bv'):
            s.add(n)
        for a in (n.args if isinstance(n, Node) else n):
            if isinstance(a, (Node, tuple)):
                s |= syms(a)
        r = memo[n] = frozenset(s)
    return r


def flat(xs):
    for x in xs:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def read(n):
    "an entry of what a function of the project returned for arguments that are not fixed"
    g = 0
    while n.op in ('lookup', 'idx', 'attr') and isinstance(n.args[0], Node):
        if n.op != 'attr' and n.args[1].op != 'const':
            return False
        n, g = n.args[0], g + 1
    return g > 0 and n.op == 'ccall' and bool(syms(n))


# what is asked here of a value may be the same for another one
BLUNT = {'len', 'shape', 'ndim', 'dtype', 'truthy', 'isnone', 'callable', 'hasattr', 'isinstance', 'anyof', 'in', 'exctype'}


def spots(s, t, acc, memo=None):
    "the places where two terms of the same form differ (False: the forms differ)"
    if s is t:
        return True
    memo = {} if memo is None else memo
    if (s, t) in memo:
        return memo[s, t]
    memo[s, t] = r = spots_(s, t, acc, memo)
    return r


def spots_(s, t, acc, memo):
    if not isinstance(s, Node) or not isinstance(t, Node):
        if isinstance(s, tuple) and isinstance(t, tuple):
            return len(s) == len(t) and all(spots(a, b, acc, memo) for a, b in zip(s, t))
        return s == t
    if elsewhere(s, t):
        acc[s, t] = True
        return len(acc) <= 4
    if s.op != t.op or len(s.args) != len(t.args) or s.op in BLUNT or s.op in ORDERLESS:
        return False
    if s.op == 'poly':
        a, b = atoms(s) - atoms(t), atoms(t) - atoms(s)
        if len(a) == len(b) == 1:
            (x,), (y,) = a, b
            return subst_atoms(t, {y: x}) is s and spots(x, y, acc, memo)
        return False
    if s.op in COMM:
        a, b = [x for x in s.args if x not in t.args], [x for x in t.args if x not in s.args]
        return len(a) == len(b) == 1 and spots(a[0], b[0], acc, memo)
    return all(spots(a, b, acc, memo) for a, b in zip(s.args, t.args))


def elsewhere(a, b):
    "the values of two different inputs, or of two different positions of an input"
    if not isinstance(a, Node) or not isinstance(b, Node) or a is b:
        return False
    if simple(a) and simple(b):
        return not {a.op, b.op} & {'acc', 'bv', 'bv?'}
    for x, y in ((a, b), (b, a)):
        if x.op == y.op == 'idx' and x.args[0].op in ('sorted', 'reversed') and x.args[0].args[0] is y.args[0] and simple(y.args[0]) and x.args[1] is y.args[1]:
            return True
    return False


def measured(c):
    "a comparison of numbers read off the inputs"
    if c.op in ('and', 'or', 'not'):
        return all(measured(a) for a in c.args)
    if c.op not in ('lt0', 'le0', 'eq0'):
        return False
    q = quantities(c.args[0])
    return bool(q) and all(simple(x) or kind(x) in ('int', 'num') and x.op == 'attr' and simple(x.args[0]) for x in q)


# the number of such loops in the conditions compared: several may share the elements out
STRIDED = [0]


def steps(m):
    "whether a loop reads its elements only from every n-th element of sequences"
    v = mk('bv', m.args[0])
    reads = [x.args[0] for x in nodes(m.args[2]) if x.op == 'idx' and x.args[1] is v]
    strided = [x for x in reads if x.op == 'idx' and x.args[1].op == 'slice' and is_num_const(x.args[1].args[2]) and cval(x.args[1].args[2]) > 1]
    if strided and len(strided) == len(reads):
        return True
    # no other form of a stride: multiples of the position, remainders
    return None if strided or not reads or any(x.op == 'idx' and x.args[1] is not v and v in x.args[1].fv and not shifted(x.args[1], v) for x in nodes(m.args[2])) else False


def shifted(i, v):
    d = sub(i, v)
    return v not in d.fv


def counted(c):
    "a comparison with the number of things found by a call"
    if c.op == 'not':
        return counted(c.args[0])
    if c.op not in ('lt0', 'le0', 'eq0'):
        return False
    q = quantities(c.args[0])
    return bool(q) and all(x.op == 'len' and found(x.args[0]) for x in q)


def found(n):
    if n.op == 'ite':
        return found(n.args[1]) and found(n.args[2])
    if n.op == 'attr':
        return found(n.args[0])
    return n.op in ('ccall', 'mcall')


def quantities(n):
    "what an arithmetic term is made of"
    if is_num_const(n):
        return set()
    if n.op == 'poly':
        out = set()
        for m, c in n.args[0]:
            for b, e in m:
                if e != int(e):
                    return None
                q = quantities(b)
                if q is None:
                    return None
                out |= q
        return out
    if n.op in ('min', 'max', 'abs', 'floor', 'ceil', 'trunc'):
        qs = [quantities(a) for a in n.args]
        return None if None in qs else set().union(*qs)
    if n.op in ('ite', 'seq', 'const') or kind(n) == 'array':
        return None
    return {n}


def evaluate(n, env):
    if is_num_const(n):
        return cval(n)
    if n.op == 'poly':
        r = Fraction(0)
        for m, c in n.args[0]:
            for b, e in m:
                c = c * evaluate(b, env) ** int(e)
            r += c
        return r
    if n.op in ('min', 'max', 'abs'):
        vs = [evaluate(a, env) for a in n.args]
        return abs(vs[0]) if n.op == 'abs' else (min if n.op == 'min' else max)(vs)
    if n.op in ('floor', 'ceil', 'trunc'):
        return Fraction(getattr(math, n.op)(evaluate(n.args[0], env)))
    return env[n]


# functions of arrays that are not zero, whatever is given
GENERIC = {'eye', 'identity', 'trace', 'norm', 'linalg.norm', 'mean', 'std', 'var', 'median', 'ptp', 'max', 'min', 'sum', 'abs', 'real'}


def reading(n):
    "a number read off the inputs, or off what a function returned for them"
    if n.op in ('floor', 'ceil', 'trunc', 'min', 'max', 'abs'):
        return all(reading(x) or is_num_const(x) for x in n.args)
    return (simple(n) and n.op != 'acc' or read(n)) and bool(syms(n))


def size(n):
    "how many elements"
    if n.op == 'flatten':
        x = n.args[0]
        k = length(x.args[2]) if x.op == 'map' else None
        return mul(x.args[1], k) if k is not None and is_num_const(k) else None
    return length(n) if n.op in ('seq', 'map', 'concat', 'repeat', 'sym', 'sorted') else None


def extent(n):
    "how many elements, as far as slices with constant bounds hide it"
    if n.op == 'len':
        x = n.args[0]
        if x.op == 'idx' and x.args[1].op == 'slice':
            a, b, c = x.args[1].args
            if c is NONE and all(y is NONE or is_num_const(y) for y in (a, b)):
                m = extent(length(x.args[0]))
                lo = ZERO if a is NONE else a if cval(a) >= 0 else vmax(add(m, a), ZERO)
                hi = m if b is NONE else vmin(m, b) if cval(b) >= 0 else add(m, b)
                return vmax(sub(hi, lo), ZERO)
        return n
    if n.op in ('poly', 'min', 'max'):
        return rewrite(n, lambda x: extent(x) if x.op == 'len' and x is not n else x)
    return n


def pattern(n):
    "a text of a compiled regular expression: its own where it is constant"
    if n.op != 'call' or n.args[0] != 're.compile':
        return ''
    x = n.args[1].args[0]
    x = x.args[0] if x.op == 'seq' and x.args else x
    return cval(x) if x.op == 'const' and isinstance(cval(x), str) else '?' if not any(y.op == 'const' and isinstance(cval(y), str) and '^' in cval(y) for y in nodes(x)) else ''


def operands(n):
    "the positional operands of a library call"
    out = []
    for x in n.args[1:]:
        if isinstance(x, Node) and x.op == 'args':
            x = x.args[0] if x.args else x
        if isinstance(x, Node) and x.op == 'seq':
            out += x.args
        elif isinstance(x, Node):
            out.append(x)
    return [x.args[0] if x.op == 'arr' else x for x in out]


def bare(n, memo=None):
    "without the conversions to a list"
    memo = {} if memo is None else memo
    if isinstance(n, tuple):
        return tuple(bare(x, memo) for x in n)
    if not isinstance(n, Node):
        return n
    r = memo.get(n)
    if r is None:
        r = memo[n] = bare(n.args[0], memo) if n.op == 'listof' else mk(n.op, *[bare(x, memo) for x in n.args])
    return r


class Differ:
    def __init__(self, facts=(), norm=None, vocab=frozenset(), budget=20000):
        self.facts = set(facts)
        self.norm = norm
        self.vocab = vocab
        self.memo = {}
        self.budget = budget
        self.subs = {}

    def compare(self, s, t):
        if self.norm:
            s, t = self.norm(s), self.norm(t)
        if s is not t and self.facts:
            env = {}
            for f in self.facts:
                if f.op not in ('and', 'or'):
                    env = N.learn(f, TRUE, env)
            s, t = N.under(s, env), N.under(t, env)
            if self.norm:
                s, t = self.norm(s), self.norm(t)
        if s is t:
            return EQUAL if ('opaque',) not in tokens(s) else R(UN, [(s, t)])
        deep = self.subs.get('deep', 0)
        self.subs['deep'] = deep + 1
        try:
            r = self.d(s, t)
        finally:
            self.subs['deep'] = deep
        if r.s == DF and restated(s, t) and any(x.op in ('fold', 'acc') for p in r.pairs for y in p if isinstance(y, Node) for x in nodes(y)):
            return R(UN, r.pairs)
        if r.s == UN and not (names_of(s) | names_of(t)) & BLACK - {'unbound'}:
            acc = {}
            m = {x: mk('idx', x.args[0].args[0], x.args[1]) for x in nodes(t)
                 if x.op == 'idx' and x.args[0].op in ('sorted', 'reversed') and simple(x.args[0].args[0])}
            if m and subst(t, m) is s:
                return R(DF, [(y, x) for x, y in m.items()][:6])
            if spots(s, t, acc) and acc and all(elsewhere(a, b) for a, b in acc):
                return R(DF, list(acc)[:6])
        if r.s == UN and not deep:
            r = self.hoisted(s, t) or r
        return r

    def hoisted(self, s, t):
        "the two values under one of the conditions the specification distinguishes somewhere inside"
        ats = {}
        for n in nodes(s):
            if n.op == 'ite' and not any(x.op in ('bv', 'acc') for x in nodes(n.args[0])):
                self.batoms(n.args[0], ats)
        for a in list(ats)[:8]:
            for v in (TRUE, FALSE):
                env = N.learn(a, v, {})
                x, y = N.under(s, env), N.under(t, env)
                if self.norm:
                    x, y = self.norm(x), self.norm(y)
                if (x, y) == (s, t) or x is y or x is s and y is t:
                    continue
                r = self.inside(env).d(x, y)
                if r.s == DF:
                    return r
        return None

    # ------------------------------------------------------------------
    def d(self, s, t):
        if s is t:
            return EQUAL
        if not isinstance(s, Node) or not isinstance(t, Node):
            if isinstance(s, tuple) and isinstance(t, tuple):
                return self.dtuple(s, t)
            return EQUAL if s == t else R(DF, [(const(str(s)), const(str(t)))])
        self.budget -= 1
        if self.budget < 0:
            return R(UN, [(s, t)])
        k = (s, t)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = R(UN, [(s, t)])
            r = self.d_(s, t)
            if r.s == UN:
                r = self.marked(s, t) or r
            self.memo[k] = r
        return r

    def marked(self, s, t):
        "an operation on one side, of a family that does not occur on the other (see KIN)"
        a, b = names_of(s), names_of(t)
        if (a | b) & BLACK:
            return None
        if ('lstsq' in a | b or 'pinv' in a | b or 'matrix_rank' in a | b) and \
                any(cutoff(n) for n in nodes(s) if n.op == 'call') != any(cutoff(n) for n in nodes(t) if n.op == 'call'):
            return R(DF, [(s, t)])
        for x, y, spec in ((b, a, False), (a, b, True)):
            for o in x - y:
                if o in FAM and o not in MEEK and not any(KIN[f] & y for f in FAM[o]):
                    if not spec and any(len(k) > 1 and k[1] == o for k in self.vocab):
                        continue
                    if spec and not FAM[o] & HARD and not (all(n in FAM or n in UNITS for n in y - a) or tokens(t) <= self.vocab):
                        continue
                    return R(DF, [(s, t)])
        return None

    def dtuple(self, s, t):
        # list of (name, value) pairs: by name
        if s and t and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in s + t):
            a, b = dict(s), dict(t)
            if set(a) != set(b):
                return R(UN, [(const(str(sorted(a))), const(str(sorted(b))))])
            return rigid([self.d(a[x], b[x]) for x in a])
        if len(s) != len(t):
            return R(UN, [])
        return rigid([self.d(a, b) for a, b in zip(s, t)])

    def expressible(self, n):
        "every operator of n belongs to the vocabulary of the specification of the function"
        ts = tokens(n)
        return ts <= self.vocab and not any(x[0] in BLACK for x in ts)

    def free(self, s, t):
        """two terms with different normal forms, built from the same vocabulary: they denote different functions of
        their (independent) atoms, unless they merely iterate or store differently"""
        here, unk = R(DF, [(s, t)]), R(UN, [(s, t)])
        if not (self.expressible(s) and self.expressible(t)):
            return unk
        if bare(s) is bare(t):
            return unk
        a, b = tokens(s), tokens(t)
        if any(x[0] in WEAK for x in a ^ b):
            return unk
        return here

    def units(self):
        "the facts, simplified under each other"
        env, fs = {}, list(self.facts)
        for _ in range(3):
            k = len(env)
            for f in fs:
                if f.op not in ('or', 'and', 'all', 'const'):
                    env[f], env[T.not_(f)] = TRUE, FALSE
            fs = [N.under(f, {k: v for k, v in env.items() if k is not f}) for f in fs]
            if len(env) == k:
                break
        return {f for f, v in env.items() if v is TRUE}

    def columns(self, s, us):
        "a vector reshaped to as many dimensions as something else has"
        def one(x):
            if x.op == 'call' and x.args[0] == 'reshape' and len(x.args) == 3 and x.args[2].op == 'concat' and len(x.args[2].args) == 2 and \
                    x.args[2].args[0] is seq(const(-1)) and x.args[2].args[1].op == 'repeat' and x.args[2].args[1].args[0] is seq(ONE):
                p, w = x.args[2].args[1].args[1], x.args[1]
                if eq(mk('ndim', w), ONE) in us:
                    for k, r in ((0, w), (1, mk('idx', w, seq(slice_(NONE, NONE, NONE), NONE)))):
                        if eq(p, const(k)) in us:
                            return r
            return x
        return rewrite(s, one)

    def d_(self, s, t):
        here = R(DF, [(s, t)])
        if self.facts and s.op == t.op == 'poly':
            if 'reshape' in names_of(s) ^ names_of(t):
                us = self.units()
                x, y = self.columns(s, us), self.columns(t, us)
                if (x, y) != (s, t):
                    return self.d(x, y)
        unk = R(UN, [(s, t)])
        if s.op == t.op and s.op in EXITS and len(s.args) == len(t.args):
            return self.exits(s, t)
        if s.op in BLACK or t.op in BLACK:
            return unk
        if s.op == 'const' and t.op == 'const':
            return here
        # booleans / conditionals: by cases on the conditions
        if s.op == 'ite' or t.op == 'ite' or s.op in BOOLS and t.op in BOOLS and not (s.op == t.op and s.op not in ('and', 'or', 'not')):
            return self.cases(s, t)
        for a, b in ((s, t), (t, s)):
            # a part of the text, the text in another case
            if b.op == 'call' and isinstance(b.args[0], str) and b.args[0].split('.')[-1] in LOSSY and operands(b)[:1] == [a] and a.op != 'const':
                return here
            if b.op == 'attr' and b.args[1] in ('name', 'stem', 'suffix', 'parent') and b.args[0].op == 'call' and \
                    b.args[0].args[0] in ('pathlib.Path', 'pathlib.PurePath') and operands(b.args[0]) == [a] and a.op != 'const':
                return here
            if b.op == 'mcall' and isinstance(b.args[0], str) and b.args[0].split('.')[-1] in LOSSY and b.args[1] is a and a.op != 'const' and \
                    not (a.op == 'mcall' and a.args[0].split('.')[-1] in LOSSY):
                return here
            # what is not a number is passed over
            if b.op == 'call' and b.args[0] in ('fmin', 'fmax') and a.op == b.args[0][1:] and set(operands(b)) == set(a.args) and \
                    not all(kind(y) == 'int' for y in a.args):
                return here
        for a, b in ((s, t), (t, s)):
            if a.op == 'anyof' and among(b, a.args[0]):
                # one of several, or the one they all are
                return EQUAL if any(f is eq(length(a.args[0]), ONE) for f in self.facts) else unk
        if s.op in ('min', 'max') or t.op in ('min', 'max'):
            for a, b in ((s, t), (t, s)):
                if b.op in ('min', 'max') and a in b.args and all(y is a or self.agree(a, y) for y in b.args):
                    return EQUAL
                # pairing two sequences up to the end of the shorter one, or all of one: the same for sequences that go together
                if b.op == 'min' and a in b.args and all(y.op == 'len' for y in b.args):
                    return unk
            r = self.orders(s, t)
            if r.s == UN:
                r = self.free(s, t)
            return here if r.s == UN and self.apart(s, t) else r
        if 'len' in (s.op, t.op) and self.facts and kind(s) == kind(t) == 'int' and self.bounded(s, t):
            return EQUAL
        if s.op in ('lt0', 'le0', 'eq0') and s.op == t.op:
            r = self.poly(s.args[0], t.args[0])
            return r
        if s.op == 'poly' or t.op == 'poly' or (is_num_const(s) or is_num_const(t)):
            return self.poly(s, t)
        if s.op == t.op:
            return self.same(s, t)
        if simple(s) and simple(t):
            if {s.op, t.op} & {'acc'}:
                return unk
            return here
        for g in DISJOINT:
            if s.op in g and t.op in g and s.args == t.args:
                return here
        if {s.op, t.op} == {'repeat', 'map'}:
            # the same object every time, or another one: seen only by who changes one
            a, b = T.as_elems(s), T.as_elems(t)
            if self.d(a[0], b[0]).s == EQ and self.d(a[2], T.subst(b[2], {b[3]: a[3]})).s == EQ:
                return unk
        if {s.op, t.op} == {'sorted', 'reversed'} or {s.op, t.op} <= {'seq', 'map', 'fmap', 'concat', 'flatten', 'repeat'}:
            return self.seqs(s, t)
        if s.op == 'concat' and t in s.args and self.solid([x for x in s.args if x is not t]):
            return here
        if t.op == 'concat' and s in t.args and self.solid([x for x in t.args if x is not s]):
            return here
        for a, b in ((s, t), (t, s)):
            if a.op in ('store', 'dstore') and a.args[0] is b:
                return here if self.expressible(a) else unk
        if 'flatten' in (s.op, t.op):
            a, b = size(s), size(t)
            if a is not None and b is not None and a is not b and self.apart(a, b):
                return here
        # duplicates kept or dropped
        for a, b in ((s, t), (t, s), (s.args[0] if s.op == 'listof' else s, t), (t.args[0] if t.op == 'listof' else t, s)):
            if a.op == 'setseq' and a.args[0].op == 'set':
                x = a.args[0].args[0]
                if (b is x or b.op == 'listof' and b.args[0] is x) and x.op not in ('keys', 'items', 'set', 'setseq', 'dict'):
                    return here
            # what there is, without some of it
            if b.op == 'sdiff' and b.args[0] is mk('set', a) and a.op in ('idx', 'sym', 'attr'):
                x = b.args[1]
                if x.op == 'set' and x.args[0].op == 'seq' and x.args[0].args and all(map(is_const, x.args[0].args)):
                    return here
            if b.op == 'call' and b.args[0] == 'delete' and b.args[1] is a:
                x = b.args[2]
                while x.op in ('astype', 'arr'):
                    x = x.args[0]
                if x.op in ('sym', 'idx') and reading(x):
                    return here
            # the values, the smallest of them everywhere
            if b.op == 'map' and b.args[2].op in ('redmin', 'redmax') and b.args[2].args[0] is a and a.op in ('idx', 'sym', 'attr'):
                return here
            # how many there are, how many have a property
            if a.op == 'len' and b.op == 'call' and b.args[0] == 'count_nonzero' and a.args[0] in syms(b):
                return here
        # wrapper dropped:  f(x) against x   (rigid unary wrappers only)
        for a, b in ((s, t), (t, s)):
            if a.op in ('conj', 'T', 'real', 'imag', 'floor', 'ceil', 'trunc', 'round', 'sorted', 'reversed', 'exp', 'log', 'abs') and a.args[0] is b:
                if a.op in ('T', 'sorted', 'reversed', 'abs', 'real', 'trunc', 'floor', 'ceil', 'round') and not simple(b):
                    if a.op in ('T', 'abs', 'real'):
                        return unk
                return here
        for a, b in ((s, t), (t, s)):
            if a.op == 'const' and b.op in ('seq', 'map', 'fmap', 'new', 'ccall', 'mcall', 'call', 'strmod', 'concat', 'dict', 'dmap', 'str',
                                            'strjoin', 'fold', 'matmul', 'floor', 'ceil', 'idx', 'attr', 'sym', 'lookup',
                                            'arr', 'keys', 'sorted', 'reversed', 'setseq', 'flatten', 'union', 'inter', 'sdiff', 'set', 'exp', 'store', 'fill', 'dstore', 'cat'):
                if cval(a) is None and b.op in ('ccall', 'call', 'mcall', 'lookup', 'idx', 'attr'):
                    # could a call return None? not those of the specification, whose results are used
                    return here if a is t else unk
                if b.op in ('const',):
                    continue
                if b.op in ('call', 'mcall') and not self.expressible(b):
                    return unk
                return here
        for a, b in ((s, t), (t, s)):
            # the largest, the smallest against another summary
            x = b
            while x.op == 'abs':
                x = x.args[0]
            if a.op in ('redmin', 'redmax') and (x.op == 'sum' or x.op == 'call' and x.args[0] in SUMMARY) and syms(a) & syms(x) and \
                    not (names_of(a) | names_of(x)) & BLACK:
                return here
            # a reordering, an accumulation of what is read from the inputs
            if b.op == 'call' and b.args[0] in ('sort', 'flip', 'flipud', 'fliplr', 'cumsum', 'roll', 'unique') and operands(b)[:1] == [a] and \
                    a.op in ('idx', 'attr', 'sym', 'lookup', 'call') and 'sort' not in show(a) and self.expressible(a) and syms(a):
                return here
            # a set operation against one of its operands
            if b.op == 'call' and b.args[0] in ('union1d', 'intersect1d', 'setdiff1d') and self.expressible(b):
                c = a.args[0] if a.op == 'arr' else a
                if c in operands(b) and any(syms(y) - syms(c) for y in operands(b)):
                    return here
        # a number against what a call returned, an input against what does not depend on it
        for a, b in ((s, t), (t, s)):
            if is_num_const(a) and read(b):
                return here
            if self.aloof(a, b):
                return here
        # a function against what it returns
        for a, b in ((s, t), (t, s)):
            if b.op == 'apply' and b.args[0] is a and simple(a):
                return here
            # converted to the type of something else
            if b.op == 'call' and b.args[0] == 'astype' and operands(b)[:1] == [a] and a.op in ('cat', 'idx', 'sym', 'attr', 'matmul') and \
                    len(b.args) > 1 and [x for x in nodes(b) if x.op == 'attr' and x.args[1] == 'dtype' and x.args[0] is not a and x not in nodes(a)]:
                return here
        # a position against what a table holds for it
        for a, b in ((s, t), (t, s)):
            if a.op == 'bv':
                c = b.args[0] if b.op == 'anyof' else b
                if c.op in ('lookup', 'idx') and self.expressible(b) and a in syms(c) and any(x.op == 'sym' for x in syms(c)):
                    return here
        return self.free(s, t)

    def exits(self, s, t):
        "what holds where a loop is left: the loops, then the values there"
        if s.op == 'loopexit':
            a, b = s.args[0], t.args[0]
            if a.op != 'gloop' or b.op != 'gloop' or a.args[0] is not b.args[0]:
                return R(UN, [(s, t)])
            rs = []
            for x, y in zip(a.args[1:], b.args[1:]):
                if len(x.args) != len(y.args):
                    return R(UN, [(s, t)])
                rs += [self.d(u, v) for u, v in zip(x.args, y.args) if u is not v]
            # one thing the loop does is changed, and all the others are the same, or use it
            for r in rs:
                if len(rs) > 1 and r.s == DF and len(r.pairs) == 1 and all(isinstance(x, Node) for x in r.pairs[0]) and subst(b, {r.pairs[0][1]: r.pairs[0][0]}) is a:
                    return r
            return rs[0] if len(rs) == 1 else R(UN, [(s, t)]) if any(r.s != EQ for r in rs) else EQUAL
        rs = [self.d(u, v) for u, v in zip(s.args, t.args) if u is not v]
        bad = [r for r in rs if r.s != EQ]
        return EQUAL if not bad else bad[0] if len(bad) == 1 else R(UN, [(s, t)])

    def aloof(self, a, b):
        "b does not depend on the input a"
        if a.op == 'sym':
            own = lambda x: a in syms(x)
        elif a.op == 'attr' and a.args[1] == 'nb_channels' and a.args[0].op == 'sym':
            # the number of channels of an object: not determined by its tags
            def own(x, memo={}):
                if x is a.args[0]:
                    return True
                if x.op == 'attr' and x.args[0] is a.args[0] and x.args[1] == 'tags':
                    return False
                return any(own(y) for y in flat(x.args))
        else:
            return False
        return not own(b) and not names_of(b) & BLACK and not any(a in nodes(f) for f in self.facts)

    def seqs(self, s, t):
        a, b = length(s), length(t)
        if is_num_const(a) and is_num_const(b) and a is not b:
            return R(DF, [(s, t)])
        x, y = size(s), size(t)
        if x is not None and y is not None and x is not y and 'flatten' in (s.op, t.op) and self.apart(x, y):
            return R(DF, [(s, t)])
        if {s.op, t.op} == {'map', 'fmap'}:
            m, f = (s, t) if s.op == 'map' else (t, s)
            bv = mk('bv', max(m.args[0], f.args[0]) + 50)
            mb = subst(m.args[2], {mk('bv', m.args[0]): bv})
            fb = subst(f.args[3], {mk('bv', f.args[0]): bv})
            if self.d(m.args[1], f.args[1]).s == EQ and self.d(mb, fb).s == EQ and (self.expressible(f.args[2]) or measured(f.args[2]) or counted(f.args[2])):
                return R(DF, [(s, t)])
            # the elements at the positions given, in the order of the positions
            n, mb = m.args[1], m.args[2]
            ms = {x.args[0] for x in nodes(mb) if x.op == 'idx' and x.args[1] is mk('bv', m.args[0]) and simple(x.args[0])}
            for i in ms:
                if n is length(i) and i.op == 'sym' and subst(mb, {mk('idx', i, mk('bv', m.args[0])): bv}) is fb and \
                        any(x.op == 'in' and x.args[0] is mk('bv', f.args[0]) and i in syms(x.args[1]) for x in nodes(f.args[2])):
                    return R(DF, [(s, t)])
        return R(UN, [(s, t)])

    def same(self, s, t):
        op = s.op
        here = R(DF, [(s, t)])
        unk = R(UN, [(s, t)])
        if op in ('sym', 'bv', 'bv?'):
            return here
        if op == 'acc':
            return here
        if op == 'fold':
            r = self.same_(s, t)
            return R(UN, r.pairs) if r.s == DF and restated(s, t) else r
        return self.same_(s, t)

    def same_(self, s, t):
        op = s.op
        here = R(DF, [(s, t)])
        unk = R(UN, [(s, t)])
        if op == 'attr':
            r = self.d(s.args[0], t.args[0])
            if s.args[1] != t.args[1]:
                return here if r.s == EQ and (known_attr(s) and known_attr(t) or self.expressible(t)) else unk
            return r
        if op == 'len':
            for a, b in ((s.args[0], t.args[0]), (t.args[0], s.args[0])):
                if a.op == 'set' and a.args[0] is b and b.op not in ('keys', 'items', 'set', 'setseq', 'dict'):
                    return here
            r = self.d(s.args[0], t.args[0])
            if r.s != EQ and s.args[0].op == t.args[0].op == 'set':
                a, b = s.args[0].args[0], t.args[0].args[0]
                if a.op == b.op == 'map' and a.args[0] in (b.args[0],) and a.args[2] is b.args[2] and mk('bv', a.args[0]) in a.args[2].fv and self.ranges(a.args[1], b.args[1]):
                    return here
            if r.s != EQ and s.args[0].op == t.args[0].op == 'fmap':
                (m, c, _, bv), (n, e, _, bw) = open_map(s.args[0]), open_map(t.args[0])
                e = subst(e, {bw: bv})
                for x, y in ((c, e), (e, c)):
                    for w, k in ((x, y), (T.not_(x), T.not_(y))):
                        if m is n and w.op in ('and', 'or') and k in w.args and self.d(c, e).s == DF:
                            return here
            if r.s != EQ and self.ranges(s, t):
                return here
            return self.free(s, t) if r.s == DF and simple(s.args[0]) and simple(t.args[0]) else R(UN, [(s, t)]) if r.s != EQ else r
        if op in ('func', 'cls', 'ext'):
            return here
        if op in ('gvar',):
            return unk
        if op in ('call', 'mcall', 'ccall', 'rcall', 'new'):
            if s.args[0] != t.args[0]:
                if op == 'call' and cutoff(s) != cutoff(t):
                    return here
                if op == 'new':
                    return here if s.args[1:2] == t.args[1:2] else unk
                if isinstance(s.args[0], str) and isinstance(t.args[0], str):
                    if s.args[1:] == t.args[1:] and any(s.args[0] in g and t.args[0] in g for g in DISTINCT):
                        return here
                    if {s.args[0], t.args[0]} <= {'match', 'search'} and s.args[1:] == t.args[1:] and pattern(s.args[1]) and not pattern(s.args[1]).startswith(('^', '\\A')):
                        return here
                    if op == 'ccall':
                        return self.free(s, t)
                return self.free(s, t) if len(s.args) == len(t.args) and s.args[1:] == t.args[1:] else unk
            if len(s.args) != len(t.args):
                if op in ('call', 'mcall'):
                    ks, kt = ({x.args[0]: x.args[1] for x in y.args[1:] if isinstance(x, Node) and x.op == 'kw'} for y in (s, t))
                    for k in set(ks) ^ set(kt):
                        v = ks.get(k, kt.get(k))
                        if k in KEYWORDS and v.op == 'const' and cval(v) not in KEYWORDS[k]:
                            return here
                return unk
            if op in ('new', 'ccall'):
                return self.dtuple(s.args[1], t.args[1])
            return rigid([self.d(a, b) for a, b in zip(s.args[1:], t.args[1:])])
        if op == 'args':
            if len(s.args) != len(t.args):
                return unk
            a, b = s.args[0], t.args[0]
            if a.op == b.op == 'seq' and len(a.args) != len(b.args):
                # an argument more: the default value, written out?
                rest = (a.args if len(a.args) > len(b.args) else b.args)[min(len(a.args), len(b.args)):]
                if all(x.op == 'const' and cval(x) in (None, 0, False, '', -1) for x in rest):
                    return unk
            return rigid([self.d(a, b) for a, b in zip(s.args, t.args)])
        if op in ('seq', 'concat'):
            if len(s.args) != len(t.args):
                if op == 'seq':
                    return here
                return here if subseq(t.args, s.args) and self.solid([x for x in s.args if x not in t.args]) else unk
            if op == 'concat' and sorted(x.dig for x in s.args) == sorted(x.dig for x in t.args):
                return here
            return (rigid if op == 'seq' else join)([self.d(a, b) for a, b in zip(s.args, t.args)])
        if op in ('map', 'fmap', 'dmap', 'lam'):
            # align binder levels
            lvl = max(s.args[0], t.args[0]) + 50
            b = mk('bv', lvl)
            SYMKIND[b] = 'int'
            sa = [subst(x, {mk('bv', s.args[0]): b}) for x in s.args[1:]]
            ta = [subst(x, {mk('bv', t.args[0]): b}) for x in t.args[1:]]
            if op == 'map':
                if {steps(s), steps(t)} == {True, False} and STRIDED[0] < 2:
                    return here
                rn = self.d(sa[0], ta[0])
                rb = self.at(sa[0], b).compare(sa[1], ta[1]) if self.facts else self.d(sa[1], ta[1])
                if rn.s == EQ:
                    return rb
                if rn.s == DF:
                    return rn
                if rb.s == DF and sa[0].op == ta[0].op == 'len':
                    return rb
                return join([rn, rb])
            return join([self.d(x, y) for x, y in zip(sa, ta)])
        if op in ORDERLESS:
            if len(s.args) != len(t.args):
                return unk
            r = join([self.d(a, b) for a, b in zip(s.args, t.args)])
            if r.s == DF and self.permuted(s.args[0], t.args[0]):
                return unk
            return r
        if op in COMM:
            a = [x for x in s.args if x not in t.args]
            b = [x for x in t.args if x not in s.args]
            if len(a) == len(b) == 1:
                return self.d(a[0], b[0])
            if not a or not b:
                return self.free(s, t)
            if len(a) == len(b) == 2 and op in ('union', 'inter'):
                rs = [[self.d(x, y) for y in b] for x in a]
                for i in (0, 1):
                    for j in (0, 1):
                        if rs[i][j].s == EQ:
                            return rs[1 - i][1 - j]
                for i in (0, 1):
                    if rs[0][i].s == rs[1][1 - i].s == DF and (a[0].op, a[0].args[0].op) != (a[1].op, a[1].args[0].op) == (b[1 - i].op, b[1 - i].args[0].op) and \
                            (a[0].op, a[0].args[0].op) == (b[i].op, b[i].args[0].op):
                        return rs[0][i]
                    if rs[0][i].s == rs[1][1 - i].s == DF and rs[0][1 - i].s == rs[1][i].s == DF:
                        return rs[0][0]
            return unk
        if op in ('gloop', 'loopout'):
            if len(s.args) != len(t.args):
                return unk
            return join([self.d(x, y) for x, y in zip(s.args, t.args)])
        if op == 'dict':
            a, b = dict((x[0], x[1]) for x in s.args), dict((x[0], x[1]) for x in t.args)
            if set(a) != set(b):
                if all(is_const(k) for k in list(a) + list(b)):
                    return here
                return unk
            return rigid([self.d(a[k], b[k]) for k in a])
        if op == 'slice':
            return rigid([self.d(a, b) for a, b in zip(s.args, t.args)])
        if len(s.args) != len(t.args):
            return unk
        rs = [self.d(a, b) for a, b in zip(s.args, t.args)]
        if op in ('kw', 'strmod', 'lookup', 'idx', 'strjoin', 'str', 'conj', 'real', 'exp', 'log', 'T', 'matmul', 'shape', 'fill', 'eq',
                  'isinstance', 'in', 'getor', 'dstore', 'store'):
            r = rigid(rs)
        else:
            r = join(rs)
        return r

    def ranges(self, a, b):
        "two numbers of elements, one through a slice"
        x, y = extent(a), extent(b)
        return (x is not a or y is not b) and x is not y and self.apart(x, y)

    def solid(self, pieces):
        "pieces of a concatenation that are not empty"
        return bool(pieces) and all(x.op == 'seq' and x.args or x.op in ('map', 'fmap', 'flatten', 'idx', 'attr', 'sym') for x in pieces)

    def permuted(self, a, b):
        if isinstance(a, Node) and isinstance(b, Node):
            if a.op == b.op and a.op in ('seq', 'concat'):
                return sorted(x.dig for x in a.args) == sorted(x.dig for x in b.args)
        return False

    # ------------------------------------------------------------------ numbers
    def poly(self, s, t):
        here, unk = R(DF, [(s, t)]), R(UN, [(s, t)])
        num = lambda n: n.op == 'poly' or is_num_const(n) or kind(n) in ('num', 'int', 'array') or simple(n) or \
            n.op in ('floor', 'ceil', 'trunc', 'floordiv', 'mod', 'len', 'sum', 'matmul', 'exp', 'idx', 'call', 'abs', 'log', 'attr',
                     'T', 'conj', 'shape', 'apply', 'ccall', 'where', 'real', 'imag', 'lookup', 'mcall', 'fold')
        if not num(s) or not num(t):
            if is_num_const(s) and t.op in ('seq', 'map', 'fmap', 'concat') or is_num_const(t) and s.op in ('seq', 'map', 'fmap', 'concat'):
                return here
            if {kind(s), kind(t)} & {'none', 'bool', 'str'}:
                return here if 'const' in {s.op, t.op} else unk
            return self.free(s, t)
        d = sub(s, t)
        if is_num_const(d):
            return EQUAL if cval(d) == 0 else here
        for a, b in ((s, t), (t, s)):
            if is_num_const(a) and read(b) or self.aloof(a, b):
                return here
        A, B = atoms(s), atoms(t)
        ua, ub = A - B, B - A
        if not ua and not ub:
            return here
        # identify equal atoms of the two sides
        ren = {}
        for b in ub:
            for a in ua:
                if a.op == b.op and a not in ren.values() and self.d(a, b).s == EQ:
                    ren[b] = a
                    break
        if ren:
            t2 = subst_atoms(t, ren)
            if t2 is s:
                return EQUAL
            return self.poly(s, t2)
        # same shape, one atom changed: look inside
        if len(ua) == len(ub) <= 4:
            best = None
            la = sorted(ua, key=lambda n: n.dig)
            for perm in itertools.permutations(sorted(ub, key=lambda n: n.dig)):
                t2 = subst_atoms(t, dict(zip(perm, la)))
                if t2 is s:
                    r = join([self.d(a, b) for a, b in zip(la, perm)])
                    if best is None or (best.s == UN and r.s != UN):
                        best = r
            if best is not None:
                return best
        # conditionals inside: case split
        if any(x.op == 'ite' for x in ua | ub):
            return self.cases(s, t)
        r = self.free(s, t)
        if r.s == UN and any(x.op in ('min', 'max', 'abs') for x in ua | ub) and self.apart(s, t):
            return here
        if r.s == UN and all(reading(x) for x in ua | ub) and self.apart(s, t):
            return here
        if r.s == UN and (self.added(d) or self.jumps(d)):
            return here
        return r

    def jumps(self, d):
        "a number that jumps where nothing else in the sum does: one rounding of an expression no other term rounds"
        if d.op != 'poly':
            return False
        flat = lambda b: b.op == 'sym' or b.op == 'attr' and flat(b.args[0]) or b.op == 'new'
        forms = {}
        for m, c in to_poly(d).items():
            if not any(b.op in ('floor', 'ceil', 'trunc') for b, _ in m):
                if not all(flat(b) for b, _ in m):
                    return False
                continue
            if len(m) > 1 or m[0][1] != 1:
                return False
            p = to_poly(m[0][0].args[0])
            p.pop((), None)
            if not p or not all(flat(b) for k in p for b, _ in k) or not all(any(kind(b) != 'int' for b, _ in k) for k in p):
                return False
            items = sorted(p.items(), key=lambda mc: T._mono_key(mc[0]))
            forms.setdefault(tuple((k, co / items[0][1]) for k, co in items), []).append(m)
        return any(len(v) == 1 for v in forms.values()) and not any(u.op == 'eq0' for u in self.units())

    def added(self, d):
        "a term that is not zero, added"
        if d.op != 'poly' or len(d.args[0]) != 1:
            return False
        (m, c), = d.args[0]
        gen = lambda b: reading(b) or b.op in ('real', 'abs') and gen(b.args[0]) or \
            b.op == 'call' and isinstance(b.args[0], str) and b.args[0].split('.')[-1] in GENERIC
        return bool(m) and all(gen(b) for b, e in m) and not names_of(d) & BLACK

    def bounded(self, s, t):
        "neither number is greater than the other"
        us = self.units()
        return le(s, t) in us and le(t, s) in us

    def agree(self, x, y, facts=None, depth=0):
        "the same number, by what is known"
        facts = self.facts if facts is None else facts
        e = eq(x, y)
        if e is TRUE or e in facts or FALSE in facts:
            return True
        c = next((n.args[0] for n in nodes(y) if n.op == 'ite' and not any(z.op in ('bv', 'ite') for z in nodes(n.args[0]))), None)
        if c is None or depth > 5:
            return False
        ats = {}
        self.batoms(c, ats)
        c = next(iter(ats), c)
        for v in (TRUE, FALSE):
            env = N.learn(c, v, {})
            fs = set()
            for f in facts:
                g = N.under(f, env)
                fs |= set(g.args if g.op == 'and' else (g,))
            if not self.agree(N.norm(N.under(x, env)), N.norm(N.under(y, env)), fs, depth + 1):
                return False
        return True

    def apart(self, s, t):
        "built by arithmetic, minima, maxima and absolute values from the same quantities, and not the same function of them"
        la, lb = quantities(s), quantities(t)
        if la is None or lb is None or not (la <= lb or lb <= la) or len(la | lb) > 6 or not la & lb or not all(self.expressible(x) for x in la | lb):
            return False
        names = sorted(la | lb, key=lambda n: n.dig)
        whole = {x.op for z in (s, t) for x in nodes(z)} & {'floor', 'ceil', 'trunc'}
        given = [f for f in self.facts if f.op in ('lt0', 'le0', 'eq0') and (quantities(f.args[0]) or {None}) <= set(names)]
        for f in self.facts:
            if f not in given and any(x.op in ('lt0', 'le0', 'eq0') and len((quantities(x.args[0]) or set()) & set(names)) > 1 for x in nodes(f)):
                return False        # related in a way that is not looked into
        vs = [7, 30, 29, 101, 13, 18] if whole else [Fraction(7, 3), Fraction(11, 2), Fraction(29, 5), Fraction(101, 7), Fraction(3, 13), Fraction(17, 19)]
        vs = [Fraction(v) for v in vs]
        for k, vals in enumerate(itertools.permutations(vs, len(names))):
            if k > 120:
                return False
            env = dict(zip(names, vals))
            try:
                if not all(evaluate(f.args[0], env) < 0 if f.op == 'lt0' else evaluate(f.args[0], env) <= 0 if f.op == 'le0' else
                           evaluate(f.args[0], env) == 0 for f in given):
                    continue
                if evaluate(s, env) != evaluate(t, env):
                    return True
            except (ZeroDivisionError, ValueError):
                continue
        return False

    # ------------------------------------------------------------------ order types
    def orders(self, s, t):
        """decide terms built from min/max/comparisons by enumerating the weak orders of their atoms"""
        here, unk = R(DF, [(s, t)]), R(UN, [(s, t)])
        at = {}

        def collect(n):
            if n.op in ('min', 'max'):
                return all([collect(a) for a in n.args])
            if n.op == 'ite':
                return collect_b(n.args[0]) and collect(n.args[1]) and collect(n.args[2])
            at.setdefault(n, len(at))
            return True

        def collect_b(c):
            if c.op in ('and', 'or'):
                return all([collect_b(a) for a in c.args])
            if c.op == 'not':
                return collect_b(c.args[0])
            if c.op in ('lt0', 'le0'):
                p = to_poly(c.args[0])
                if len(p) == 2 and sorted(p.values()) == [-1, 1]:
                    for m, co in p.items():
                        at.setdefault(from_poly({m: Fraction(1)}), len(at))
                    return True
                if len(p) == 1:
                    at.setdefault(ZERO, len(at))
                    (m, co), = p.items()
                    at.setdefault(from_poly({m: Fraction(1)}), len(at))
                    return abs(co) == 1
                return False
            return c.op == 'const'
        ok = collect(s) and collect(t)
        facts = []
        for f in self.facts:
            if f.op in ('lt0', 'le0'):
                p = to_poly(f.args[0])
                if len(p) == 2 and sorted(p.values()) == [-1, 1]:
                    a = [from_poly({m: Fraction(1)}) for m, c in p.items() if c == 1][0]
                    b = [from_poly({m: Fraction(1)}) for m, c in p.items() if c == -1][0]
                    facts.append((a, b, f.op))
        if not ok or len(at) > 6:
            if s.op == t.op:
                r = self.same(s, t)
                return r if r.s != DF else r
            return unk
        names = sorted(at, key=lambda n: n.dig)
        differs = None
        for vals in itertools.product(range(len(names)), repeat=len(names)):
            used = sorted(set(vals))
            if used != list(range(len(used))):
                continue
            env = dict(zip(names, [v * 10 for v in vals]))
            if any(is_num_const(x) and is_num_const(y) and ((cval(x) < cval(y)) != (env[x] < env[y])) for x in names for y in names if x is not y):
                continue
            bad = False
            for a, b, op in facts:
                if a in env and b in env:
                    if env[a] > env[b] or (op == 'lt0' and env[a] == env[b]):
                        bad = True
            if bad:
                continue
            if ev(s, env) != ev(t, env):
                differs = env
                break
        if differs is None:
            return EQUAL
        if all(simple(n) or is_num_const(n) or known_indep(n) for n in names):
            return here
        # same operator with one operand changed: look inside
        if s.op == t.op and s.op in ('min', 'max'):
            r = self.same(s, t)
            return r
        return unk

    # ------------------------------------------------------------------ case analysis
    def conds(self, n, acc):
        "boolean atoms of the ite/and/or skeleton at the top of n"
        if n.op == 'ite':
            self.batoms(n.args[0], acc)
            self.conds(n.args[1], acc)
            self.conds(n.args[2], acc)
        elif n.op in BOOLS:
            self.batoms(n, acc)
        elif n.op == 'poly':
            for b in atoms(n):
                if b.op == 'ite':
                    self.conds(b, acc)

    def batoms(self, c, acc):
        if c.op in ('and', 'or'):
            for a in c.args:
                self.batoms(a, acc)
        elif c.op == 'not':
            self.batoms(c.args[0], acc)
        elif c.op == 'ite':
            for a in c.args:
                self.batoms(a, acc)
        elif c.op == 'const':
            pass
        else:
            n = T.not_(c)
            if n in acc or c in acc:
                return
            acc[c] = True

    def cases(self, s, t):
        ats, att = {}, {}
        self.conds(s, ats)
        self.conds(t, att)
        only_s = [a for a in ats if a not in att and T.not_(a) not in att]
        only_t = [a for a in att if a not in ats and T.not_(a) not in ats]
        # identify boolean atoms of the two sides that are equal by comparison
        ren = {}
        used = set()
        for b in only_t:
            for a in only_s:
                if a in used:
                    continue
                for (bb, negd) in ((b, False), (T.not_(b), True)):
                    if a.op == bb.op and self.atom(a, bb).s == EQ:
                        ren[b] = T.not_(a) if negd else a
                        ren[T.not_(b)] = T.not_(ren[b])
                        used.add(a)
                        break
                if b in ren:
                    break
        soft = False
        for b in only_t:
            for a in only_s:
                # a container is true when it is not empty; what is not a container may be true otherwise
                # (and a string when it is not the empty one)
                for x, y in ((a, b), (T.not_(a), b), (a, T.not_(b)), (T.not_(a), T.not_(b))):
                    for u, v in ((x, y), (y, x)):
                        if b not in ren and a not in used and u.op == 'truthy' and (
                                v.op == 'le0' and v is lt(ZERO, length(u.args[0])) or
                                v.op == 'not' and v.args[0].op == 'eq' and set(v.args[0].args) == {u.args[0], const('')}):
                            soft = True
                            ren[b] = a if (x is a) == (y is b) else T.not_(a)
                            ren[T.not_(b)] = T.not_(ren[b])
                            used.add(a)
        if ren:
            t2 = rewrite(t, lambda x: ren.get(x, x))
            if t2 is not t:
                r = self.d(s, t2)
                return R(UN, [(s, t)]) if soft and r.s == EQ else r
        at = list(dict.fromkeys(list(ats) + [b for b in only_t]))
        # disjunctive facts (the function goes on only if they hold) on the same atoms
        rel = []
        for f in sorted(self.facts, key=lambda n: n.dig):
            if f.op in BOOLS:
                fa = {}
                self.batoms(f, fa)
                if len(fa) > 1 and any(a in at or T.not_(a) in at for a in fa):
                    extra = [a for a in fa if a not in at and T.not_(a) not in at]
                    if len(at) + len(extra) <= 10:
                        at += extra
                        rel.append(f)
        skel = lambda n: n.op == 'ite' or n.op in BOOLS
        if len(at) > 10 and len(at) <= 24:
            # by the condition the most others are built on
            inner = [(sum(1 for b in at if b is not a and occurs(a, b)), a) for a in at if a not in only_s and a not in only_t]
            k, a = max(inner, key=lambda x: (x[0], x[1].dig), default=(0, None))
            if k:
                rs = []
                for v in (TRUE, FALSE):
                    env = N.learn(a, v, {})
                    x, y = N.under(s, env), N.under(t, env)
                    if self.norm:
                        x, y = self.norm(x), self.norm(y)
                    if x is not y and (x, y) != (s, t):
                        rs.append(self.inside(env).d(x, y))
                    elif x is not y:
                        rs.append(R(UN, [(s, t)]))
                r = rigid(rs)
                if r.s != UN:
                    return r
        if len(at) > 10:
            if s.op == t.op == 'ite' and self.d(s.args[0], t.args[0]).s == EQ:
                return join([self.d(a, b) for a, b in zip(s.args[1:], t.args[1:])])
            if s.op == t.op and s.op in ('and', 'or'):
                return self.same(s, t)
            return R(UN, [(s, t)])
        # conditions of one side only: a changed condition must be understood, or the answer is unknown
        blind = [a for a in only_s + only_t if not self.expressible(a) and not counts(a, only_s) and not tellable(a)]
        if len(blind) == len(only_s) == len(only_t) == 1 and blind[0].op in ('lt0', 'le0') and only_s[0].op == only_t[0].op and \
                self.apart(only_s[0].args[0], only_t[0].args[0]):
            blind = []
        sure = len(only_s) == len(only_t) == 1 and bool(blind) and weaker(only_s[0], only_t[0])
        if sure:
            blind = []
        if not only_s and blind and all(asked(a) for a in blind):
            sure, blind = True, []
        if len(blind) == 1 and len(only_s) == len(only_t) == 1 and only_s[0].op == only_t[0].op in ('lt0', 'le0', 'eq0') and \
                self.atom(only_s[0], only_t[0]).s == DF:
            blind = []
        # a handler that catches more: what it catches in addition may never be raised
        if any(a.op == 'exctype' for a in only_s) and not any(a.op == 'exctype' for a in only_t):
            blind += [a for a in only_s if a.op == 'exctype']
        unk = bool(blind)
        if not unk and not sure:
            a_, b_ = set(), set()
            for a in only_s:
                a_ |= tokens(a)
            if not only_s:
                a_ |= tokens(s)
            for a in only_t:
                if not (a.op in ('lt0', 'le0', 'eq0') and all(map(reading, quantities(a.args[0]) or [NONE]))):
                    b_ |= tokens(a)
            unk = any(x[0] in WEAK for x in b_ - a_) and bool(only_t)
        # what a loop carries, represented otherwise on either side: the two states are related in a way not looked into
        st = [{FAMILY.get(a.op, a.op) for a in side if any(x.op in ('acc', 'fold') for x in nodes(a))} for side in (only_s, only_t)]
        unk = unk or bool(st[0] and st[1] and not (st[0] <= st[1] or st[1] <= st[0]))
        worst, pairs, upairs = EQ, [], []
        known = self.subs.setdefault('branches', set())
        todo = []
        rel0 = rel

        def split(i, env, x, y, rel):
            if x is y:
                leaves(x, known)
                return
            if i == len(at):
                if any(N.under(f, env) is FALSE for f in rel0):
                    return
                x, y = N.under(s, env), N.under(t, env)
                leaves(x, known)
                todo.append((env, x, y))
                return
            for v in (TRUE, FALSE):
                one = {at[i]: v, T.not_(at[i]): T.not_(v)}
                e = {**env, **one}
                if not self.consistent(e):
                    continue
                rest = [N.under(f, one) for f in rel]
                if FALSE in rest:
                    continue
                split(i + 1, e, N.under(x, one), N.under(y, one), [f for f in rest if f is not TRUE])
        split(0, {}, s, t, rel)
        for env, x, y in todo:
            if x is y:
                continue
            if x.op == 'unbound' or y.op == 'unbound':
                continue
            if x.op == 'const' and y.op == 'const':
                r = R(DF, [(x, y) if not isinstance(cval(x), bool) else (s, t)])
            elif skel(x) or skel(y):
                if (x, y) == (s, t) or self.memo.get((x, y)) is not None and self.memo[(x, y)].s == UN:
                    r = R(UN, [(x, y)])
                else:
                    r = self.inside(env).d(x, y)
            else:
                r = self.inside(env).d(x, y)
                if r.s == UN and y in known and x in known:
                    # another branch of the specification is taken
                    r = R(DF, [(x, y)])
            if r.s == EQ:
                continue
            if r.s == DF:
                pairs += r.pairs
                worst = DF
            else:
                upairs += r.pairs
                if worst == EQ:
                    worst = UN
            if worst == DF and len(pairs) > 4:
                break
        if worst == EQ:
            return EQUAL
        if worst == DF and not unk:
            return R(DF, pairs[:6])
        if worst == DF and not only_t and not blind:
            return R(DF, pairs[:6])
        if s.op == t.op == 'ite' and self.d(s.args[0], t.args[0]).s == EQ:
            r = join([self.d(a, b) for a, b in zip(s.args[1:], t.args[1:])])
            if r.s != UN:
                return r
        return R(UN, (pairs + upairs)[:6])

    def at(self, n, b):
        "the comparison for the element b < n: what is known of all the elements holds for it"
        env = {}
        for f in self.facts:
            if f.op == 'all' and f.args[0].op in ('map', 'fmap'):
                m, c, body, bv = open_map(f.args[0])
                if m is n:
                    for g in (body.args if body.op == 'and' else (body,)):
                        env[or_(T.not_(subst(c, {bv: b})), subst(g, {bv: b}))] = TRUE
        return self.inside(env)

    def inside(self, env):
        "the comparison below a case: what the case assumes becomes a fact"
        fs = self.facts | {a for a, v in env.items() if v is TRUE}
        if fs == self.facts:
            return self
        key = frozenset(fs)
        d = self.subs.get(key)
        if d is None:
            d = self.subs[key] = Differ(fs, self.norm, self.vocab, max(self.budget, 0))
            d.subs = self.subs
        return d

    def atom(self, a, b):
        if a is b:
            return EQUAL
        if a.op != b.op:
            return R(UN, [(a, b)])
        if a.op in ('lt0', 'le0', 'eq0'):
            return self.poly(a.args[0], b.args[0])
        if len(a.args) != len(b.args):
            return R(UN, [(a, b)])
        return join([self.d(x, y) for x, y in zip(a.args, b.args)])

    def consistent(self, env):
        "linear sanity: bounds on the same polynomial must not contradict; facts hold"
        for f in self.facts:
            if env.get(f) is FALSE:
                return False
        bounds = {}
        # a container is true when it is not empty
        sized = {x for c in list(env) + list(self.facts) for x in lens(c)}
        true = [(a.args[0], v is TRUE) for a, v in env.items() if a.op == 'truthy' and a.args[0] in sized] + \
               [(f.args[0], True) for f in self.facts if f.op == 'truthy' and f.args[0] in sized] + \
               [(f.args[0].args[0], False) for f in self.facts if f.op == 'not' and f.args[0].op == 'truthy' and f.args[0].args[0] in sized]
        extra = [lt(ZERO, length(x)) if v else T.not_(lt(ZERO, length(x))) for x, v in true] + [le(ZERO, length(x)) for x in sized]
        env = {**env, **{f.args[0]: FALSE for f in self.facts if f.op == 'not' and f.args[0].op == 'eq0'}}
        allc = [(a, TRUE) for a in extra if a.op in ('lt0', 'le0', 'eq0')] + [(a, v) for a, v in env.items() if a.op in ('lt0', 'le0', 'eq0') and v is TRUE] + \
               [(f, TRUE) for f in self.facts if f.op in ('lt0', 'le0', 'eq0')]
        eqs = [(a, v) for a, v in env.items() if a.op == 'eq0']
        for a, v in allc:
            p = to_poly(a.args[0])
            c = p.pop((), Fraction(0))
            if not p:
                continue
            items = sorted(p.items(), key=lambda mc: T._mono_key(mc[0]))
            lead = items[0][1]
            key = tuple((m, co / lead) for m, co in items)
            lo, hi = bounds.setdefault(key, [None, None])
            v = -c / lead            # p/lead  (rel)  v
            strict = a.op == 'lt0'
            b = bounds[key]
            if a.op == 'eq0':
                b[0] = mx(b[0], (v, 0))
                b[1] = mn(b[1], (v, 0))
            elif lead > 0:
                b[1] = mn(b[1], (v, -1 if strict else 0))
            else:
                b[0] = mx(b[0], (v, 1 if strict else 0))
        for key, (lo, hi) in bounds.items():
            if lo is not None and hi is not None:
                if lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1])):
                    return False
        holes = {}
        # x == 0 with another equality of the same polynomial; isnone and truthy
        for a, v in env.items():
            if a.op == 'in' and v is TRUE and env.get(mk('truthy', a.args[1])) is FALSE:
                return False            # nothing is in what is empty
            if a.op == 'isnone' and v is TRUE:
                x = a.args[0]
                for bop in ('truthy', 'callable'):
                    if env.get(mk(bop, x)) is TRUE:
                        return False
            if a.op == 'eq0' and v is FALSE:
                p = to_poly(a.args[0])
                c = p.pop((), Fraction(0))
                items = sorted(p.items(), key=lambda mc: T._mono_key(mc[0]))
                if not items:
                    continue
                lead = items[0][1]
                key = tuple((m, co / lead) for m, co in items)
                b = bounds.get(key)
                if b and b[0] and b[1] and b[0][0] == b[1][0] == -c / lead:
                    return False
                if b and b[0] and b[1] and all(e == 1 and y.op == 'len' for m, _ in key for y, e in m) and len(key) == 1:
                    holes.setdefault(key, set()).add(-c / lead)
        for key, no in holes.items():
            lo, hi = bounds[key]
            lo, hi = math.ceil(lo[0] + (Fraction(1, 2) if lo[1] else 0)), math.floor(hi[0] - (Fraction(1, 2) if hi[1] else 0))
            if hi - lo < 8 and all(k in no for k in range(lo, hi + 1)):
                return False
        return True


def lens(c):
    "the containers whose number of elements a condition is about"
    if c.op == 'not':
        c = c.args[0]
    return [x.args[0] for m in to_poly(c.args[0]) for x, e in m if x.op == 'len'] if c.op in ('le0', 'lt0', 'eq0') else []


def among(x, c):
    "x is one of the things the collection is made of"
    if c.op in ('union', 'concat'):
        return any(among(x, y) for y in c.args)
    if c.op in ('set', 'setseq', 'arr'):
        return among(x, c.args[0])
    if c.op == 'seq':
        return x in c.args
    if c.op in ('map', 'fmap'):
        y = c.args[-1]
        while x.op == y.op == 'attr' and x.args[1] == y.args[1]:
            x, y = x.args[0], y.args[0]
        return x.op == y.op == 'idx' and x.args[0] is y.args[0] or x.op == y.op == 'ccall' and x.args[0] == y.args[0]
    return False


def restated(s, t):
    "what a loop carries is asked something of another kind on either side: the state may be represented otherwise"
    def asks(n):
        out = set()
        for x in nodes(n):
            cs = x.args[:1] if x.op == 'ite' else x.args[2:3] if x.op == 'fmap' else ()
            todo = list(cs)
            while todo:
                c = todo.pop()
                if c.op in ('and', 'or', 'not', 'ite'):
                    todo += c.args
                elif any(y.op in ('acc', 'fold') for y in nodes(c)):
                    out.add(FAMILY.get(c.op, c.op))
        return out
    a, b = asks(s), asks(t)
    return bool(a and b and not (a <= b or b <= a))


FAMILY = {'lt0': 'order', 'le0': 'order', 'eq0': 'order', 'eq': 'order', 'cmp': 'order'}


def tellable(a):
    "a comparison of the sizes, rates and times of what is given (not: whether there is anything), whether an input is a function"
    if a.op == 'not':
        return tellable(a.args[0])
    if a.op == 'callable':
        return a.args[0].op == 'sym'
    if a.op not in ('lt0', 'le0', 'eq0'):
        return False
    q = quantities(a.args[0])
    if not q:
        return False
    def told(x):
        if x.op in ('redmin', 'redmax', 'sum') or x.op == 'len' and x.args[0].op == 'set':
            y = x.args[0] if x.op != 'len' else x.args[0].args[0]
            return y.op == 'map' and told(y.args[2]) or y.op == 'map' and y.args[2].op == 'attr' and y.args[2].args[1] in ('size', 'sampling_rate', 'start')
        return x.op == 'attr' and x.args[1] in ('size', 'sampling_rate', 'start') and simple(x.args[0])
    if len(q) == 1:
        x, = q
        c = to_poly(a.args[0]).get((), 0)
        if not (x.op == 'len' and x.args[0].op == 'set' and a.op == 'eq0') and abs(c) <= 1:
            return False
    return all(told(x) or x.op == 'sym' for x in q) and any(told(x) for x in q)


def asked(a):
    "a question about a text that the specification does not ask"
    while a.op in ('not', 'truthy'):
        a = a.args[0]
    return a.op == 'mcall' and isinstance(a.args[0], str) and a.args[0].split('.')[-1] in ('isdigit', 'isalpha', 'isalnum', 'isnumeric', 'startswith', 'endswith') and \
        isinstance(a.args[1], Node) and a.args[1].op != 'const' and not names_of(a) & BLACK


def weaker(a, b):
    "two conditions on the same things, one of them weaker than the other"
    for x, y in ((a, b), (b, a)):
        x, y = (z.args[0] if z.op == 'not' else z for z in (x, y))
        ins = lambda n: {m for m in syms(n) if m.op == 'sym'}
        if x.op == 'eq' and y.op == 'issubset' and ins(x) == ins(y):
            return True
        if x.op == y.op == 'eq' and len(y.args) == 2:
            u, v = y.args
            for k in ('kind', 'itemsize'):
                if all(z.op == 'attr' and z.args[1] == k for z in (u, v)) and syms(x) == syms(y) and not any(n.op == 'attr' and n.args[1] == k for n in nodes(x)):
                    return True
        # all the same, against nearly the same
        if x.op == 'eq0' and y.op in ('le0', 'lt0'):
            n = [z for z in atoms(x.args[0]) if z.op == 'len']
            if len(n) == 1 and x.args[0] is sub(n[0], mk('const', Fraction(1))) and n[0].args[0].op == 'set':
                c, m = n[0].args[0], atoms(y.args[0])
                if sorted(z.op for z in m) == ['redmax', 'redmin'] and all(z.args[0] in (c, c.args[0], mk('setseq', c), mk('listof', c)) for z in m):
                    p = y.args[0]
                    r = dict((z.op, z) for z in m)
                    k = sub(p, sub(r['redmax'], r['redmin']))
                    if is_num_const(k) and not (y.op == 'le0' and cval(k) == 0):
                        return True
    return False


def counts(a, others):
    "a test of the number of channels of a signal set, where the specification tests its number of runs"
    def over(x, ops):
        x = x.args[0] if x.op == 'not' else x
        if x.op not in ('lt0', 'le0', 'eq0'):
            return None
        at = atoms(x.args[0])
        y = next(iter(at)) if len(at) == 1 else None
        return y if y is not None and ops(y) else None
    y = over(a, lambda y: y.op == 'attr' and y.args[1] == 'nb_channels' and kind(y.args[0]) == objk('SignalSet'))
    return y is not None and bool(others) and all(
        over(o, lambda z: z.op == 'len' and z.args[0].op == 'attr' and z.args[0].args[1] == 'signals' and z.args[0].args[0] is y.args[0]) for o in others)


def mx(a, b):
    return b if a is None or b > a else a


def mn(a, b):
    return b if a is None or b < a else a


def subseq(a, b):
    it = iter(b)
    return all(any(x is y for y in it) for x in a)


def leaves(n, acc=None):
    acc = set() if acc is None else acc
    if n.op == 'ite':
        leaves(n.args[1], acc)
        leaves(n.args[2], acc)
    else:
        acc.add(n)
    return acc


def subst_atoms(p, m):
    r = ZERO
    for mono, c in to_poly(p).items():
        t = mk('const', c)
        for b, e in mono:
            t = mul(t, power(m.get(b, b), e))
        r = add(r, t)
    return r


def ev(n, env):
    if n in env:
        return env[n]
    if n.op == 'min':
        return min(ev(a, env) for a in n.args)
    if n.op == 'max':
        return max(ev(a, env) for a in n.args)
    if n.op == 'ite':
        return ev(n.args[1], env) if evb(n.args[0], env) else ev(n.args[2], env)
    raise KeyError(n)


def evb(c, env):
    if c.op == 'const':
        return cval(c)
    if c.op == 'and':
        return all(evb(a, env) for a in c.args)
    if c.op == 'or':
        return any(evb(a, env) for a in c.args)
    if c.op == 'not':
        return not evb(c.args[0], env)
    p = to_poly(c.args[0])
    if len(p) == 1:
        v = sum(co * (env[from_poly({m: Fraction(1)})] - env[ZERO]) for m, co in p.items())
    else:
        v = sum(co * env[from_poly({m: Fraction(1)})] for m, co in p.items())
    return v < 0 if c.op == 'lt0' else v <= 0


KNOWN_ATTRS = {'data', 'calibrations', 'sampling_rate', 'start', 'size', 'signals', 'tags', 'nb_channels', 'indices',
               'shape', 'dtype', 'source', '_content', '_tags', 'start', 'stop', 'step', 'T', 'real', 'imag', '_alpha', '_xi',
               '_lower', '_khi', '_cod_min', '_cod_max', '_size', '_weight_func'}


def known_attr(n):
    return n.op == 'attr' and n.args[1] in KNOWN_ATTRS


def known_indep(n):
    "products/quotients of plain inputs behave as independent quantities in an order enumeration"
    return n.op == 'poly' and all(simple(a) for a in atoms(n))
