"""Hash-consed value-graph terms with normalising constructors.

Every abstract value computed by the interpreter is a Node.  Nodes are interned,
so two values with the same normal form are the same Python object (global value
numbering).  The constructors below apply only value-preserving rewrites.
"""
from fractions import Fraction
import hashlib

_TABLE = {}


class Node:
    __slots__ = ('op', 'args', 'dig', 'maxbv', 'fv', '__weakref__')

    def __init__(self, op, args, dig, maxbv):
        self.op, self.args, self.dig, self.maxbv = op, args, dig, maxbv
        self.fv = _fv(op, args, self)

    def __repr__(self):
        return show(self)


LEAVES = {'bv', 'bv?', 'lv', 'sym', 'acc'}
_NOFV = frozenset()
_FVS = {}


def _fv(op, args, node):
    "variable-like leaves occurring in a term"
    if op in LEAVES:
        return frozenset((node,))
    r = _NOFV
    for a in args:
        f = a.fv if isinstance(a, Node) else _tfv(a) if isinstance(a, tuple) else _NOFV
        if f and f is not r:
            r = (r | f) if r else f
    return _FVS.setdefault(r, r)


def _tfv(t):
    r = _NOFV
    for a in t:
        f = a.fv if isinstance(a, Node) else _tfv(a) if isinstance(a, tuple) else _NOFV
        if f and f is not r:
            r = (r | f) if r else f
    return r


def _kh(x):
    "intern key of an argument"
    if isinstance(x, Node):
        return ('N', x.dig)
    if isinstance(x, tuple):
        return ('T',) + tuple(_kh(e) for e in x)
    return (type(x).__name__, repr(x))


def _maxbv(x):
    if isinstance(x, Node):
        return x.maxbv
    if isinstance(x, tuple):
        return max((_maxbv(e) for e in x), default=0)
    return 0


class Blowup(Exception):
    "the terms of one analysis grow beyond the limit: the answer is unknown"


_LIM = [0, None]


class limit:
    "bound on the number of term constructions of one analysis"

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.saved = list(_LIM)
        _LIM[0], _LIM[1] = 0, self.n

    def __exit__(self, *a):
        _LIM[:] = self.saved


def mk(op, *args):
    if _LIM[1] is not None:
        _LIM[0] += 1
        if _LIM[0] > _LIM[1]:
            raise Blowup()
    k = (op,) + tuple(_kh(a) for a in args)
    n = _TABLE.get(k)
    if n is None:
        dig = hashlib.sha1(repr(k).encode()).digest()
        mb = 0
        if op in ('map', 'fmap', 'dmap', 'lam'):
            # binder level = 1 + levels inside; stored in first arg position 'level'
            mb = args[0]
        else:
            for a in args:
                mb = max(mb, _maxbv(a))
        n = Node(op, args, dig, mb)
        _TABLE[k] = n
    return n


def is_node(x):
    return isinstance(x, Node)


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', v)
    if isinstance(v, int):
        return mk('const', Fraction(v))
    if isinstance(v, float):
        if v != v:
            return mk('nan')
        if v in (float('inf'),):
            return mk('inf')
        if v == float('-inf'):
            return neg(mk('inf'))
        return mk('const', Fraction(repr(v)))
    if isinstance(v, complex):
        return add(const(v.real), mul(const(v.imag), mk('I')))
    if isinstance(v, Fraction):
        return mk('const', v)
    if v is Ellipsis:
        return mk('const', '...')
    raise TypeError(v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE = const(0), const(1)
UNBOUND = mk('unbound')


def is_const(n):
    return n.op == 'const'


def cval(n):
    return n.args[0]


def is_num_const(n):
    return n.op == 'const' and isinstance(n.args[0], Fraction)


# ---------------------------------------------------------------- kinds

SYMKIND = {}          # Node -> kind  (declared)
ATTRKIND = {}         # (cls, attr) -> kind
CALLKIND = {}         # contract call name -> kind

NUMISH = {'num', 'int', 'array'}


def seqk(e=None):
    return ('seq', e)


def objk(c):
    return ('obj', c)


_ARRAY_CALLS = {
    'arange', 'zeros', 'ones', 'empty', 'full', 'tile', 'asarray', 'matmul', 'T', 'conj', 'exp', 'log', 'abs', 'where',
    'solve', 'inv', 'diag', 'minimum', 'angle', 'real', 'imag', 'reshape', 'isclose', 'einsum', 'fmin', 'cumsum',
}


def kind(n):
    k = SYMKIND.get(n)
    if k is not None:
        return k
    op = n.op
    if op in ('upd', 'updattr'):
        return kind(n.args[0])
    if op == 'const':
        v = n.args[0]
        if isinstance(v, bool):
            return 'bool'
        if v is None:
            return 'none'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, bytes):
            return 'bytes'
        if isinstance(v, Fraction):
            return 'int' if v.denominator == 1 else 'num'
    if op == 'seq':
        ks = {kind(a) for a in n.args}
        return seqk(ks.pop() if len(ks) == 1 else None)
    if op == 'map':
        return seqk(kind(n.args[2]))
    if op == 'fmap':
        return seqk(kind(n.args[3]))
    if op in ('concat', 'flatten', 'sorted', 'repeat', 'filterseq', 'reversed'):
        if op == 'flatten':
            k = kind(n.args[0])
            if isinstance(k, tuple) and k[0] == 'seq' and isinstance(k[1], tuple) and k[1][0] == 'seq':
                return k[1]
            return seqk()
        ks = {kind(a) for a in n.args if is_node(a)}
        ks = {k for k in ks if isinstance(k, tuple) and k[0] == 'seq' and k != ('seq', None)}
        if op == 'sorted' or len(ks) == 1:
            k = kind(n.args[0]) if op == 'sorted' else ks.pop()
            if isinstance(k, tuple) and k[0] in ('seq', 'set', 'dict'):
                return seqk(k[1])
        return seqk()
    if op in ('set', 'union', 'inter', 'sdiff'):
        k = kind(n.args[0]) if n.args else None
        return ('set', k[1] if isinstance(k, tuple) and k[0] in ('seq', 'set') else None)
    if op in ('dict', 'dmap', 'dstore'):
        return ('dict', None)
    if op == 'poly':
        ks = set()
        for mono, c in n.args[0]:
            for b, e in mono:
                kb = kind(b)
                if e != int(e) or e < 0:
                    if kb in ('int',):
                        kb = 'num'
                ks.add(kb)
            if c.denominator != 1:
                ks.add('num')
        if 'array' in ks:
            return 'array'
        if ks <= {'int', 'bool'}:
            return 'int'
        if ks <= {'int', 'num', 'bool'}:
            return 'num'
        return None
    if op in ('floor', 'ceil', 'len', 'floordiv', 'trunc', 'round'):
        if op in ('len',):
            return 'int'
        k = kind(n.args[0])
        return 'array' if k == 'array' else 'int'
    if op in ('lt0', 'le0', 'eq0', 'ne0', 'and', 'or', 'not', 'eq', 'ne', 'isnone', 'in', 'isinstance', 'truthy', 'all', 'any',
              'issubset', 'raised', 'exists', 'hasattr', 'callable', 'cmp'):
        return 'bool'
    if op in ('min', 'max'):
        ks = {kind(a) for a in n.args}
        if len(ks) == 1:
            return ks.pop()
        return 'num'
    if op == 'ite':
        a, b = kind(n.args[1]), kind(n.args[2])
        if a == b:
            return a
        if n.args[1].op in ('unbound', 'const') and kind(n.args[1]) in ('none', None):
            return b
        if n.args[2].op in ('unbound', 'const') and kind(n.args[2]) in ('none', None):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'seq':
            return seqk(a[1] if b[1] is None else b[1] if a[1] is None else None)
        return None
    if op == 'new':
        return objk(n.args[0])
    if op == 'attr':
        k = kind(n.args[0])
        if isinstance(k, tuple) and k[0] == 'obj':
            return ATTRKIND.get((k[1], n.args[1]))
        if n.args[1] == 'signals':          # only signal sets have them
            return seqk(objk('SyncSignal'))
        return None
    if op == 'idx':
        k = kind(n.args[0])
        i = n.args[1]
        if isinstance(k, tuple) and k[0] == 'seq':
            if i.op == 'slice':
                return k
            return k[1]
        if k == 'array':
            return None if i.op != 'slice' else 'array'
        if isinstance(k, tuple) and k[0] == 'obj':
            return ATTRKIND.get((k[1], '[]'))
        if isinstance(k, tuple) and k[0] == 'dict':
            return k[1]
        return None
    if op == 'items':
        k = kind(n.args[0])
        return seqk()
    if op == 'keys':
        return seqk('str' if kind(n.args[0]) == objk('Tags') else None)
    if op == 'lookup':
        k = kind(n.args[0])
        if isinstance(k, tuple) and k[0] == 'dict':
            return k[1]
        if isinstance(k, tuple) and k[0] == 'obj':
            return ATTRKIND.get((k[1], '[]'))
        return None
    if op == 'ccall':
        return CALLKIND.get(n.args[0])
    if op in ('func', 'lamf', 'bmeth', 'ext'):
        return 'func'
    if op in ('fstr',):
        return 'str'
    if op == 'call' and n.args[0] in _ARRAY_CALLS:
        return 'array'
    if op in ('matmul', 'T', 'conj', 'exp', 'where'):
        return 'array'
    if op == 'sum':
        return 'num'
    if op == 'store':
        return kind(n.args[0])
    if op == 'range':
        return seqk('int')
    return None


def is_seq(n):
    k = kind(n)
    return isinstance(k, tuple) and k[0] == 'seq'


def is_set(n):
    k = kind(n)
    return isinstance(k, tuple) and k[0] == 'set'


# ---------------------------------------------------------------- arithmetic

def to_poly(n):
    "-> dict mono -> coef"
    if is_num_const(n):
        v = cval(n)
        return {(): v} if v else {}
    if n.op == 'poly':
        return dict(n.args[0])
    if n.op == 'const' and isinstance(n.args[0], bool):
        return {(): Fraction(int(n.args[0]))} if n.args[0] else {}
    return {((n, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((b.dig, e) for b, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('const', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0]))))


def _mono_mul(m1, m2):
    "-> (coef, mono)"
    d = {}
    for b, e in m1 + m2:
        d[b] = d.get(b, Fraction(0)) + e
    coef = Fraction(1)
    for b in list(d):
        if b.op == 'I':
            e = d.pop(b)
            if e.denominator == 1:
                e = int(e) % 4
                if e in (2, 3):
                    coef = -coef
                if e in (1, 3):
                    d[b] = Fraction(1)
            else:
                d[b] = e
    return coef, tuple(sorted(((b, e) for b, e in d.items() if e), key=lambda be: (be[0].dig, be[1])))


def add(a, b):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, Fraction(0)) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return mk('poly', ((tuple(sorted([(a, Fraction(1)), (b, Fraction(1))], key=lambda be: be[0].dig)), Fraction(1)),))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            k, m = _mono_mul(m1, m2)
            d[m] = d.get(m, Fraction(0)) + k * c1 * c2
    return from_poly(d)


def power(a, e):
    "a ** e with e a Fraction"
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    p = to_poly(a)
    if not p:
        return ZERO if e > 0 else mk('inf')
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            coef = Fraction(c) ** int(e)
            k, mm = _mono_mul(tuple((b, x * e) for b, x in m), ())
            return from_poly({mm: coef * k})
        if c > 0:
            r = _root(c, e)
            if r is not None and all(b.op != 'I' for b, _ in m):
                return from_poly({tuple(sorted(((b, x * e) for b, x in m), key=lambda be: (be[0].dig, be[1]))): r})
            if r is None and m == ():
                return from_poly({((mk('const', c), e),): Fraction(1)})
            if r is None and all(b.op != 'I' for b, _ in m):
                return from_poly({tuple(sorted([(b, x * e) for b, x in m] + [(mk('const', c), e)],
                                               key=lambda be: (be[0].dig, be[1]))): Fraction(1)})
        return from_poly({((a, e),): Fraction(1)})
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    # multi-term base: factor leading coefficient so that scalings agree
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    base = from_poly({m: c / lead for m, c in items})
    if e.denominator == 1:
        return from_poly({((base, e),): lead ** int(e)})
    if lead > 0:
        r = _root(lead, e)
        if r is not None:
            return from_poly({((base, e),): r})
    return from_poly({((a, e),): Fraction(1)})


def _root(c, e):
    "c ** e if exactly rational"
    if c == 1:
        return Fraction(1)
    try:
        num = round(float(c.numerator) ** (1.0 / e.denominator))
        den = round(float(c.denominator) ** (1.0 / e.denominator))
        if num ** e.denominator == c.numerator and den ** e.denominator == c.denominator:
            return Fraction(num, den) ** e.numerator
    except (OverflowError, ZeroDivisionError, ValueError):
        pass
    return None


def div(a, b):
    return mul(a, power(b, -1))


def floordiv(a, b):
    if is_num_const(a) and is_num_const(b) and cval(b):
        return const(cval(a) // cval(b))
    if b is ONE and kind(a) == 'int':
        return a
    return mk('floordiv', a, b)


def mod(a, b):
    if is_num_const(a) and is_num_const(b) and cval(b):
        return const(cval(a) % cval(b))
    return mk('mod', a, b)


def floor(a):
    if kind(a) == 'int':
        return a
    if is_num_const(a):
        return const(cval(a).numerator // cval(a).denominator)
    # pull integer constants out:  floor(x + k) = floor(x) + k
    p = to_poly(a)
    ip = {m: c for m, c in p.items() if c.denominator == 1 and all(kind(b) == 'int' and e > 0 and e.denominator == 1
                                                                    for b, e in m)}
    if ip and len(ip) < len(p):
        rest = from_poly({m: c for m, c in p.items() if m not in ip})
        return add(floor(rest), from_poly(ip))
    # floor(x/y) == floordiv
    return mk('floor', a)


def ceil(a):
    if kind(a) == 'int':
        return a
    if is_num_const(a):
        return const(-((-cval(a)).numerator // (-cval(a)).denominator))
    p = to_poly(a)
    ip = {m: c for m, c in p.items() if c.denominator == 1 and all(kind(b) == 'int' and e > 0 and e.denominator == 1
                                                                    for b, e in m)}
    if ip and len(ip) < len(p):
        rest = from_poly({m: c for m, c in p.items() if m not in ip})
        return add(ceil(rest), from_poly(ip))
    return mk('ceil', a)


def vmin(*xs):
    return _mm('min', xs)


def vmax(*xs):
    return _mm('max', xs)


def _mm(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    nums = [x for x in out if is_num_const(x)]
    rest = [x for x in out if not is_num_const(x)]
    if nums:
        f = min if op == 'min' else max
        rest.append(const(f(cval(x) for x in nums)))
    rest = set(rest)
    if len(rest) > 1 and any(x.op == 'poly' for x in rest):
        # those that differ by a constant: the smallest (largest) one
        best = {}
        for x in rest:
            d = dict(to_poly(x))
            c = d.pop((), Fraction(0))
            k = tuple(sorted(((m, e) for m, e in d.items()), key=lambda me: _mono_key(me[0])))
            if k not in best or (c < best[k][0] if op == 'min' else c > best[k][0]):
                best[k] = (c, x)
        rest = {x for c, x in best.values()}
    rest = sorted(rest, key=lambda n: n.dig)
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


# ---------------------------------------------------------------- booleans

def lt0(p, eq=False):
    "p < 0 (or p <= 0)"
    if is_num_const(p):
        return const(bool(cval(p) <= 0 if eq else cval(p) < 0))
    if p.op == 'inf':
        return FALSE
    d = to_poly(p)
    if kind(p) == 'int' and not eq:
        # integers: p < 0  <=>  p + 1 <= 0
        return lt0(add(p, ONE), True)
    # scale
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lead = next((c for m, c in items if m != ()), items[0][1])
    s = abs(lead)
    if s != 1:
        if kind(p) == 'int':
            from math import gcd
            g = 0
            for m, c in items:
                if m != ():
                    g = gcd(g, int(c))
            if g > 1:
                import math
                d = {m: (c / g if m != () else Fraction(math.ceil(c / g))) for m, c in items}
                p = from_poly(d)
        else:
            p = from_poly({m: c / s for m, c in items})
    if eq and p.op == 'poly' and len(items) <= 2 or eq and p.op == 'len':
        d = to_poly(p)
        x = next((m for m in d if m != ()), None)
        if x is not None and len(x) == 1 and x[0][1] == 1 and x[0][0].op == 'len' and x[0][0].args[0].op == 'fmap' and \
                (d[x], d.get((), 0)) in ((1, 0), (-1, 1)):
            from .ext import mkany
            n, c, _, bv = open_map(x[0][0].args[0])         # some element passes the filter
            some = mkany(close_map(n, c, bv))
            return some if d[x] == -1 else not_(some)
    return mk('le0' if eq else 'lt0', p)


def lt(a, b):
    if _nonnum(a) or _nonnum(b):
        return mk('cmp', '<', a, b)
    return lt0(sub(a, b))


def le(a, b):
    if _nonnum(a) or _nonnum(b):
        return mk('cmp', '<=', a, b)
    return lt0(sub(a, b), True)


def _nonnum(a):
    k = kind(a)
    return isinstance(k, tuple) or k in ('str', 'none', 'bytes')


def some(x):
    "whether a collection certainly has an element"
    if x.op == 'seq':
        return len(x.args) > 0
    if x.op in ('set', 'sorted', 'reversed', 'setseq'):
        return some(x.args[0])
    if x.op in ('union', 'concat'):
        return any(some(a) for a in x.args if isinstance(a, Node))
    if x.op == 'map':
        n = x.args[1]
        return is_num_const(n) and cval(n) > 0 or n.op == 'poly' and to_poly(n).get((), 0) > 0 and \
            all(c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' for m, c in to_poly(n).items() if m)
    return False


def iszero(d):
    if d.op == 'len':
        return lt0(d, True)                 # never negative
    p = to_poly(d)
    if len(p) == 2 and p.get(()) == -1:
        x = next(m for m in p if m)
        if len(x) == 1 and x[0][1] == 1 and x[0][0].op == 'len' and p[x] == 1 and some(x[0][0].args[0]):
            return lt0(d, True)             # one at least
    for m, c in p.items():
        f = m[0][0].args[0] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' else None
        if f is not None and f.op == 'call' and f.args[0] == 'fromfile' and len(f.args) > 3 and isinstance(f.args[3], Node) and \
                f.args[3].op in ('max', 'len'):
            r = sub(f.args[3], m[0][0])
            if r is d or r is neg(d):
                return lt0(r, True)         # never more than asked for
    return mk('eq0', d)


def eq(a, b):
    if a is b:
        if a.op in ('nan',):
            return FALSE
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b) and type(cval(a)) == type(cval(b)))
    ka, kb = kind(a), kind(b)
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        return isnone(x)
    if ka in ('num', 'int') and kb in ('num', 'int'):
        d = sub(a, b)
        if is_num_const(d):
            return const(cval(d) == 0)
        items = sorted(to_poly(d).items(), key=lambda mc: _mono_key(mc[0]))
        lead = next((c for m, c in items if m != ()), items[0][1])
        if len(items) == 1 and len(items[0][0]) == 1 and (items[0][0][0][0].op == 'len' or
                                                          items[0][0][0][0].op == 'attr' and items[0][0][0][0].args[1] == 'size'):
            return lt0(items[0][0][0][0], True)         # never negative
        return iszero(from_poly({m: c / lead for m, c in items}))
    if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == 'seq' and a.op == b.op == 'seq':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    x, y = sorted((a, b), key=lambda n: n.dig)
    return mk('eq', x, y)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op == 'ite':
        x, y = isnone(a.args[1]), isnone(a.args[2])
        return ite(a.args[0], x, y)
    k = kind(a)
    if k not in (None, 'none') or a.op in ('new', 'ref', 'seq', 'poly', 'func', 'cls', 'map', 'fmap', 'ext', 'dict'):
        return FALSE
    return mk('isnone', a)


_NEG = {}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op in ('lt0', 'le0'):
        k = (a, kind(a.args[0]))
        r = _NEG.get(k)
        if r is None:
            r = _NEG[k] = lt0(neg(a.args[0]), a.op == 'lt0')
        return r
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite' and kind(a) == 'bool':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if a.op == 'all':
        return mk('not', a)
    return mk('not', a)


def _andor(op, xs):
    ab, unit = (FALSE, TRUE) if op == 'and' else (TRUE, FALSE)
    out = set()
    for x in xs:
        if x.op == op:
            out.update(x.args)
        else:
            out.add(x)
    out.discard(unit)
    if ab in out:
        return ab
    for x in out:
        if not_(x) in out:
            return ab
    # absorption
    other = 'or' if op == 'and' else 'and'
    keep = []
    for x in out:
        if x.op == other and any(y in out for y in x.args):
            continue
        if x.op == other:
            r = [y for y in x.args if not_(y) not in out]
            if len(r) < len(x.args):
                x = _andor(other, r)
        keep.append(x)
    out = set(keep)
    if not out:
        return unit
    if len(out) == 1:
        return out.pop()
    return mk(op, *sorted(out, key=lambda n: n.dig))


def and_(*xs):
    return _andor('and', xs)


def or_(*xs):
    return _andor('or', xs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'in' and a.op == 'lookup' and a.args[0] is c.args[1] and a.args[1] is c.args[0]:
        # d[k] if k in d else x
        r = mk('getor', a.args[0], a.args[1], b)
        if kind(b) not in (None, 'none'):
            SYMKIND[r] = kind(b)
        return r
    if c.op in ('lt0', 'le0'):
        n = not_(c)
        if n.dig < c.dig:
            return ite(n, b, a)
    if c.op == 'and' or c.op == 'or':
        n = not_(c)
        if n.dig < c.dig:
            return ite(n, b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if kind(a) == 'bool' and kind(b) == 'bool':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[1] is b:
        return ite(or_(not_(c), a.args[0]), b, a.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


def truthy(n):
    k = kind(n)
    if n.op == 'const':
        return const(bool(cval(n)))
    if k == 'bool':
        return n
    if n.op == 'ite':
        return ite(n.args[0], truthy(n.args[1]), truthy(n.args[2]))
    if n.op in ('seq', 'dict'):
        if n.op == 'seq':
            return const(bool(n.args))
    if n.op in ('func', 'cls', 'ext', 'lamf', 'bmeth', 'mod'):
        return TRUE
    if isinstance(k, tuple) and k[0] in ('seq', 'set', 'dict'):
        return lt(ZERO, length(n))
    if k in ('int', 'num'):
        return not_(eq(n, ZERO))
    if n.op == 'mcall' and n.args[0] in ('match', 'fullmatch', 'search'):
        return not_(isnone(n))
    return mk('truthy', n)


# ---------------------------------------------------------------- sequences

def seq(*items):
    return mk('seq', *items)


def length(n):
    op = n.op
    if op == 'seq':
        return const(len(n.args))
    if op == 'const' and isinstance(n.args[0], (str, bytes)):
        return const(len(n.args[0]))
    if op == 'map':
        return n.args[1]
    if op == 'concat':
        r = ZERO
        for a in n.args:
            r = add(r, length(a))
        return r
    if op in ('sorted', 'reversed', 'listof'):
        return length(n.args[0])
    if op == 'repeat' and is_seq(n.args[0]):
        return mul(length(n.args[0]), n.args[1])
    if op == 'items' or op == 'keys' or op == 'values':
        return length(n.args[0])
    if op == 'dict':
        return mk('len', n)
    if op == 'poly' and kind(n) == 'array':
        # elementwise arithmetic: length of the single array atom
        arrs = {b for m, c in n.args[0] for b, e in m if kind(b) == 'array'}
        if len(arrs) == 1:
            return length(arrs.pop())
    if op in ('exp', 'conj', 'abs', 'real', 'imag') and kind(n.args[0]) == 'array':
        return length(n.args[0])
    if op == 'idx' and n.args[1].op == 'slice' and n.args[1].args[0] is NONE and n.args[1].args[1] is NONE and n.args[1].args[2] is NONE:
        return length(n.args[0])
    if op == 'store':
        return length(n.args[0])
    return mk('len', n)


def fresh_bv(_c=[0]):
    _c[0] += 1
    return mk('bv?', _c[0])


def count(n):
    "a number of turns: whatever is not positive counts for none"
    if n.op == 'min':
        return vmin(*[count(x) for x in n.args])
    if n.op == 'len' and n.args[0].op == 'idx' and n.args[0].args[1].op == 'slice':
        x, (a, b, c) = n.args[0].args[0], n.args[0].args[1].args
        if c is NONE and b is NONE and is_num_const(a) and cval(a) >= 0:
            return add(length(x), neg(a))
        if c is NONE and a is NONE and is_num_const(b):
            return add(length(x), b) if cval(b) < 0 else vmin(length(x), b)
    return n


def close_map(n, body, bv, cond=TRUE):
    "build [body(bv) for bv in range(n) if cond(bv)] in canonical form"
    lvl = 1 + max(body.maxbv, cond.maxbv)
    canon = mk('bv', lvl)
    body = subst(body, {bv: canon})
    cond = subst(cond, {bv: canon})
    if cond is TRUE:
        # eta:  [x[k] for k in range(len(x))] = x
        if body.op == 'idx' and body.args[1] is canon and not occurs(canon, body.args[0]) and \
                (length(body.args[0]) is n):
            return body.args[0]
        n = count(n)
        # literal unrolling is not canonical; keep map
        if is_num_const(n) and cval(n) <= 8 and cval(n).denominator == 1:
            return seq(*[subst(body, {canon: const(i)}) for i in range(int(cval(n)))])
        return mk('map', lvl, n, body)
    if cond is FALSE:
        return seq()
    return mk('fmap', lvl, count(n), cond, body)


def open_map(m):
    "-> (n, cond, body, bv) with fresh bv"
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    lvl = m.args[0]
    canon = mk('bv', lvl)
    if m.op == 'map':
        _, n, body = m.args
        return n, TRUE, _subst_level(body, canon, bv), bv
    _, n, cond, body = m.args
    return n, _subst_level(cond, canon, bv), _subst_level(body, canon, bv), bv


def _subst_level(n, canon, bv):
    return subst(n, {canon: bv})


def concat(*xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.args)
        elif x.op == 'seq' and not x.args:
            continue
        elif x.op == 'seq' and out and out[-1].op == 'seq':
            out[-1] = seq(*(out[-1].args + x.args))
        else:
            out.append(x)
    if not out:
        return seq()
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def flatten(s):
    "concatenation of the sequences in s"
    if s.op == 'seq':
        return concat(*s.args)
    if s.op == 'concat':
        return concat(*[flatten(x) for x in s.args])
    if s.op == 'map' and s.args[2].op == 'seq' and len(s.args[2].args) == 1:
        n, c, body, bv = open_map(s)
        return close_map(n, body.args[0], bv)
    if s.op == 'fmap' and s.args[3].op == 'seq' and len(s.args[3].args) == 1:
        n, c, body, bv = open_map(s)
        return close_map(n, body.args[0], bv, c)
    if s.op == 'map' and s.args[2].op == 'ite':
        n, c, body, bv = open_map(s)
        cc, a, b = body.args
        if a.op == 'seq' and not a.args and b.op == 'seq' and len(b.args) == 1:
            return close_map(n, b.args[0], bv, not_(cc))
        if b.op == 'seq' and not b.args and a.op == 'seq' and len(a.args) == 1:
            return close_map(n, a.args[0], bv, cc)
    return mk('flatten', s)


def slice_(a, b, c):
    if c is ONE:
        c = NONE
    if a is ZERO and (c is NONE):
        a = NONE
    return mk('slice', a, b, c)


def index(o, i):
    if i.op == 'slice':
        a, b, c = i.args
        if a is NONE and b is NONE and c is NONE:
            return o
        if o.op == 'seq' and all(x is NONE or (is_num_const(x)) for x in i.args):
            f = lambda x: None if x is NONE else int(cval(x))
            return seq(*o.args[slice(f(a), f(b), f(c))])
        if o.op == 'concat' and c is NONE and b is NONE and is_num_const(a) and o.args[0].op == 'seq':
            k = int(cval(a))
            if 0 <= k <= len(o.args[0].args):
                return concat(seq(*o.args[0].args[k:]), *o.args[1:])
        if o.op == 'map' and c is NONE and b is NONE and is_num_const(a) and cval(a) > 0:
            n, _, body, bv = open_map(o)
            return close_map(sub(n, a), subst(body, {bv: add(bv, a)}), bv)
        if o.op == 'map' and a is NONE and b is NONE and c is const(-1):
            n, _, body, bv = open_map(o)
            return close_map(n, subst(body, {bv: sub(sub(n, ONE), bv)}), bv)
        return mk('idx', o, i)
    if o.op == 'sliceidx' and i is const(2):
        step = o.args[0].args[2] if o.args[0].op == 'slice' else mk('attr', o.args[0], 'step')
        return ite(isnone(step), ONE, step)
    if o.op == 'seq' and is_num_const(i) and cval(i).denominator == 1:
        k = int(cval(i))
        if -len(o.args) <= k < len(o.args):
            return o.args[k]
    if o.op == 'const' and isinstance(cval(o), str) and is_num_const(i):
        try:
            return const(cval(o)[int(cval(i))])
        except IndexError:
            pass
    if o.op == 'concat' and is_num_const(i) and o.args[0].op == 'seq' and 0 <= cval(i) < len(o.args[0].args):
        return o.args[0].args[int(cval(i))]
    if o.op == 'concat' and is_num_const(i) and o.args[-1].op == 'seq' and -len(o.args[-1].args) <= cval(i) < 0:
        return o.args[-1].args[int(cval(i))]
    if o.op == 'map' and not (i.op == 'sym' and kind(i) not in ('int', 'num')):
        n, _, body, bv = open_map(o)
        if is_num_const(i) and cval(i) < 0:
            return subst(body, {bv: add(n, i)})
        return subst(body, {bv: i})
    if o.op == 'idx' and o.args[1].op == 'slice' and is_seq(o):
        a, b, c = o.args[1].args
        if c is NONE and b is NONE and is_num_const(a) and cval(a) >= 0 and not (is_num_const(i) and cval(i) < 0):
            return index(o.args[0], add(a, i))
        if i.op in ('bv', 'bv?') and c is NONE and (a is NONE or is_num_const(a) and cval(a) >= 0):
            return index(o.args[0], i if a is NONE else add(a, i))
    if o.op == 'repeat' and o.args[0].op == 'seq' and len(o.args[0].args) == 1:
        return o.args[0].args[0]
    if o.op == 'listof' and i.op in ('bv', 'bv?'):
        return index(o.args[0], i)
    if i.op in ('bv', 'bv?') and o.op in ('seq', 'concat', 'ite'):
        e = uniform(o)
        if e is not None:
            return e
    return mk('idx', o, i)


def uniform(o, depth=0):
    "the one value all elements have"
    if depth > 4:
        return None
    if o.op == 'seq':
        return o.args[0] if o.args and all(x is o.args[0] for x in o.args) else None
    if o.op == 'repeat':
        return uniform(o.args[0], depth + 1)
    parts = o.args if o.op == 'concat' else o.args[1:] if o.op == 'ite' else ()
    es = {uniform(x, depth + 1) for x in parts}
    return es.pop() if len(es) == 1 else None


def as_elems(src):
    """view `src` as an indexed family: (n, cond, elem(bv), bv)."""
    if src.op in ('map', 'fmap'):
        return open_map(src)
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    return length(src), TRUE, index(src, bv), bv


# ---------------------------------------------------------------- generic

def occurs(x, n, _memo=None):
    if _memo is None:
        _memo = {}
    if n is x:
        return True
    if isinstance(n, Node):
        if x.op in LEAVES:
            return x in n.fv
        r = _memo.get(n)
        if r is None:
            r = any(occurs(x, a, _memo) for a in n.args)
            _memo[n] = r
        return r
    if isinstance(n, tuple):
        return any(occurs(x, a, _memo) for a in n)
    return False


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def subst(n, m, _memo=None, _keys=None):
    "substitute nodes by nodes and renormalise"
    if _memo is None:
        _memo = {}
        _keys = frozenset(m) if all(k.op in LEAVES for k in m) else False
    if isinstance(n, tuple):
        return tuple(subst(a, m, _memo, _keys) for a in n)
    if not isinstance(n, Node):
        return n
    if _keys is not False and n.fv.isdisjoint(_keys):
        return n
    if n in m:
        return m[n]
    r = _memo.get(n)
    if r is not None:
        return r
    if not n.args:
        _memo[n] = n
        return n
    if n.op == 'poly':
        r = ZERO
        changed = False
        parts = []
        for mono, c in n.args[0]:
            t = mk('const', c)
            for b, e in mono:
                nb = subst(b, m, _memo, _keys)
                changed |= nb is not b
                parts.append(nb)
                t = mul(t, power(nb, e))
            r = add(r, t)
        if not changed:
            r = n
        elif any(_seqlike(p) for p in parts):
            r = r
    elif n.op in ('map', 'fmap', 'dmap', 'lam'):
        r = _rebuild_binder(n, m, _keys)
    else:
        args = tuple(subst(a, m, _memo, _keys) for a in n.args)
        if all(a is b for a, b in zip(args, n.args)):
            r = n
        elif args == n.args:
            r = n
        else:
            r = rebuild(n.op, args)
    _memo[n] = r
    k = SYMKIND.get(n)
    if k is not None and r not in SYMKIND and r.op in ('attr', 'idx', 'ccall', 'mcall', 'call', 'fold'):
        SYMKIND[r] = k
    return r


def _seqlike(p):
    return p.op in ('seq', 'map', 'fmap', 'concat')


def _rebuild_binder(n, m, keys):
    # open with fresh variable first, to avoid capture and to recompute levels
    canon = mk('bv', n.args[0])
    m3 = {k: v for k, v in m.items() if k is not canon}
    if keys is not False:
        m3 = {k: v for k, v in m3.items() if k in n.fv}
        if not m3:
            return n
        key2 = frozenset(m3) | {canon}
    else:
        if not any(occurs(k, n) for k in m3):
            return n
        key2 = False
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    m3[canon] = bv
    memo = {}

    def sub_(x):
        return subst(x, m3, memo, key2)
    if n.op == 'map':
        return close_map(sub_(n.args[1]), sub_(n.args[2]), bv)
    if n.op == 'fmap':
        return close_map(sub_(n.args[1]), sub_(n.args[3]), bv, sub_(n.args[2]))
    if n.op == 'dmap':
        return close_dmap(sub_(n.args[1]), sub_(n.args[3]), sub_(n.args[4]), bv, sub_(n.args[2]))
    if n.op == 'lam':
        return close_lam(sub_(n.args[1]), bv)


def close_dmap(n, key, val, bv, cond=TRUE):
    lvl = 1 + max(key.maxbv, val.maxbv, cond.maxbv)
    canon = mk('bv', lvl)
    s = {bv: canon}
    n_, c_, k_, v_ = n, subst(cond, s), subst(key, s), subst(val, s)
    if c_ is FALSE:
        return mk('dict')
    return mk('dmap', lvl, n_, c_, k_, v_)


def open_dmap(d):
    bv = fresh_bv()
    SYMKIND[bv] = 'int'
    lvl, n, c, k, v = d.args
    s = {mk('bv', lvl): bv}
    return n, subst(c, s), subst(k, s), subst(v, s), bv


def close_lam(body, bv):
    lvl = 1 + body.maxbv
    return mk('lam', lvl, subst(body, {bv: mk('bv', lvl)}))


def apply_lam(l, x):
    return subst(l.args[1], {mk('bv', l.args[0]): x})


def nodes(n, _seen=None):
    "all sub-nodes"
    if _seen is None:
        _seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x in _seen:
            continue
        _seen.add(x)
        yield x
        st.extend(x.args)


def find(n, op):
    return [x for x in nodes(n) if x.op == op]


def rewrite(n, f, _memo=None):
    "bottom-up rewriting by f: Node -> Node"
    if _memo is None:
        _memo = {}
    if isinstance(n, tuple):
        return tuple(rewrite(a, f, _memo) for a in n)
    if not isinstance(n, Node):
        return n
    r = _memo.get(n)
    if r is not None:
        return r
    if n.op == 'poly':
        t = ZERO
        for mono, c in n.args[0]:
            u = mk('const', c)
            for b, e in mono:
                u = mul(u, power(rewrite(b, f, _memo), e))
            t = add(t, u)
        r = f(t)
    elif n.op in ('map', 'fmap', 'dmap', 'lam'):
        canon = mk('bv', n.args[0])
        bv = fresh_bv()
        SYMKIND[bv] = 'int'
        parts = [rewrite(subst(x, {canon: bv}), f) if isinstance(x, Node) else x for x in n.args[1:]]
        if n.op == 'map':
            r = close_map(parts[0], parts[1], bv)
        elif n.op == 'fmap':
            r = close_map(parts[0], parts[2], bv, parts[1])
        elif n.op == 'dmap':
            r = close_dmap(parts[0], parts[2], parts[3], bv, parts[1])
        else:
            r = close_lam(parts[0], bv)
        r = f(r)
    else:
        args = tuple(rewrite(a, f, _memo) for a in n.args)
        r = n if args == n.args else rebuild(n.op, args)
        r = f(r)
    _memo[n] = r
    k = SYMKIND.get(n)
    if k is not None and r not in SYMKIND and r.op in ('attr', 'idx', 'ccall', 'mcall', 'call', 'fold', 'matmul'):
        SYMKIND[r] = k
    return r


def assume(n, facts):
    "simplify conditions in n using boolean facts"
    m = {}
    for f in facts:
        m[f] = TRUE
        m[not_(f)] = FALSE
    return rewrite(n, lambda x: m.get(x, x))


# ---------------------------------------------------------------- printing

def show(n, d=0):
    if d > 14:
        return '…'
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in n) + ')'
    if not isinstance(n, Node):
        return str(n)
    s = lambda x: show(x, d + 1)
    op, a = n.op, n.args
    if op == 'const':
        v = a[0]
        return str(v) if isinstance(v, Fraction) else repr(v)
    if op == 'sym':
        return a[0]
    if op in ('bv', 'bv?'):
        return f'k{a[0]}'
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'idx':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'slice':
        f = lambda x: '' if x is NONE else s(x)
        return f'{f(a[0])}:{f(a[1])}' + ('' if a[2] is NONE else f':{f(a[2])}')
    if op == 'poly':
        out = []
        for mono, c in a[0]:
            fs = [s(b) if e == 1 else f'{s(b)}^{e}' for b, e in mono]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'lt0':
        return f'{s(a[0])}<0'
    if op == 'le0':
        return f'{s(a[0])}<=0'
    if op == 'eq0':
        return f'{s(a[0])}==0'
    if op == 'ite':
        return f'if({s(a[0])}; {s(a[1])}; {s(a[2])})'
    if op == 'map':
        return f'[{s(a[2])} for k{a[0]}<{s(a[1])}]'
    if op == 'fmap':
        return f'[{s(a[3])} for k{a[0]}<{s(a[1])} if {s(a[2])}]'
    if op == 'dmap':
        return '{%s: %s for k%s<%s if %s}' % (s(a[3]), s(a[4]), a[0], s(a[1]), s(a[2]))
    if op == 'seq':
        return '[' + ', '.join(s(x) for x in a) + ']'
    return f'{op}(' + ', '.join(s(x) for x in a) + ')'


REBUILD.update({
    'lt0': lambda p: lt0(p), 'le0': lambda p: lt0(p, True),
    'eq0': lambda p: eq(p, ZERO) if kind(p) in ('int', 'num') else (const(cval(p) == 0) if is_num_const(p) else mk('eq0', p)),
    'and': and_, 'or': or_, 'not': not_, 'ite': ite, 'eq': eq, 'isnone': isnone,
    'idx': index, 'len': length, 'concat': concat, 'flatten': flatten, 'floor': floor, 'ceil': ceil,
    'min': vmin, 'max': vmax, 'truthy': truthy, 'slice': slice_, 'floordiv': floordiv, 'mod': mod,
})
