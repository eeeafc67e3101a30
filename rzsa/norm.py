"""Final normalisation: conditionals are simplified under the conditions they are nested in."""
from .terms import *
from . import terms as T

_CONDS = {}
SIZED = {'tuple', 'list', 'dict', 'set', 'str', 'frozenset'}


def batoms(c, acc):
    if c.op in ('and', 'or'):
        for a in c.args:
            batoms(a, acc)
    elif c.op == 'not':
        batoms(c.args[0], acc)
    elif c.op == 'const':
        pass
    else:
        acc.add(c)
        n = T.not_(c)
        if n.op != 'not':
            acc.add(n)
    return acc


def conds_in(n):
    "boolean atoms of all conditionals inside n"
    r = _CONDS.get(n)
    if r is None:
        r = frozenset()
        if isinstance(n, tuple):
            for a in n:
                r |= conds_in(a) if isinstance(a, (Node, tuple)) else frozenset()
            return r
        if n.op in ('ite', 'and', 'or', 'not'):
            s = set()
            for a in (n.args[:1] if n.op in ('ite', 'not') else n.args):
                batoms(a, s)
            r = frozenset(s)
        for a in n.args:
            if isinstance(a, (Node, tuple)):
                x = conds_in(a)
                if x and x is not r:
                    r = (r | x) if r else x
        _CONDS[n] = r
    return r


def learn(c, v, env):
    "facts that follow from c == v"
    if c.op == 'not':
        return learn(c.args[0], T.not_(v), env)
    if c.op == 'and' and v is TRUE or c.op == 'or' and v is FALSE:
        for a in c.args:
            env = learn(a, v, env)
        return env
    e = dict(env)
    e[c] = v
    e[T.not_(c)] = T.not_(v)
    if c.op == 'lt0' and v is TRUE:
        e[mk('le0', c.args[0])] = TRUE
        q = T.not_(mk('le0', c.args[0]))
        e[q] = FALSE
    if c.op == 'isinstance' and v is TRUE and c.args[1] in SIZED:
        # a container is true when it has members
        w = T.lt(ZERO, T.length(c.args[0]))
        t = mk('truthy', c.args[0])
        if v is TRUE and e.get(w, w) is w:
            e[t] = w
            e[T.not_(t)] = T.not_(w)
    return e


def simp(n, env, memo):
    if isinstance(n, tuple):
        return tuple(simp(a, env, memo) for a in n)
    if not isinstance(n, Node):
        return n
    if n in env:
        return env[n]
    cs = conds_in(n)
    if not cs and not (n.op in ('lt0', 'le0', 'eq0')):
        return n
    env = {k: v for k, v in env.items() if k in cs or k is n}
    key = (n, frozenset((k, v) for k, v in env.items()))
    r = memo.get(key)
    if r is not None:
        return r
    if n.op == 'ite':
        c = simp(n.args[0], env, memo)
        if c is TRUE:
            r = simp(n.args[1], env, memo)
        elif c is FALSE:
            r = simp(n.args[2], env, memo)
        else:
            r = T.ite(c, simp(n.args[1], learn(c, TRUE, env), memo), simp(n.args[2], learn(c, FALSE, env), memo))
    elif n.op == 'poly':
        t = ZERO
        for mono, c in n.args[0]:
            u = mk('const', c)
            for b, e in mono:
                u = T.mul(u, T.power(simp(b, env, memo), e))
            t = T.add(t, u)
        r = t
    elif n.op in ('map', 'fmap', 'dmap', 'lam'):
        canon = mk('bv', n.args[0])
        bv = fresh_bv()
        SYMKIND[bv] = 'int'
        parts = [subst(x, {canon: bv}) if isinstance(x, Node) else x for x in n.args[1:]]
        if n.op == 'map':
            r = close_map(simp(parts[0], env, memo), simp(parts[1], env, memo), bv)
        elif n.op == 'fmap':
            c = simp(parts[1], env, memo)
            r = close_map(simp(parts[0], env, memo), simp(parts[2], learn(c, TRUE, env), memo), bv, c)
        elif n.op == 'dmap':
            c = simp(parts[1], env, memo)
            e2 = learn(c, TRUE, env)
            r = close_dmap(simp(parts[0], env, memo), simp(parts[2], e2, memo), simp(parts[3], e2, memo), bv, c)
        else:
            r = close_lam(simp(parts[0], env, memo), bv)
    elif n.op in ('and', 'or') and len(n.args) <= 12:
        # each member under the others
        v = TRUE if n.op == 'and' else FALSE
        args = [simp(a, env, memo) for a in n.args]
        for i, a in enumerate(args):
            cs = conds_in(a)
            t = a.args[0] if a.op == 'not' else a
            if t.op == 'truthy':
                cs = cs | {t, a}
            elif not cs or a.op == 'not' and not conds_in(a.args[0]):
                continue
            e = {}
            for j, b in enumerate(args):
                if j != i and b.op != 'const':
                    e = learn(b, v, e)
            e = {k: x for k, x in e.items() if k in cs}
            if e:
                args[i] = simp(a, e, memo)
        r = (T.and_ if n.op == 'and' else T.or_)(*args)
    else:
        args = tuple(simp(a, env, memo) for a in n.args)
        r = n if args == n.args else rebuild(n.op, args)
        if r.op in ('lt0', 'le0', 'eq0'):
            r = lift(r, env, memo)
    k = SYMKIND.get(n)
    if k is not None and r not in SYMKIND and r.op == n.op:
        SYMKIND[r] = k
    memo[key] = r
    return r


def lift(n, env, memo, depth=0):
    "comparison of a quantity defined by cases: by cases"
    p = n.args[0]
    if depth > 3 or p.op not in ('poly', 'ite'):
        return n
    at = sorted({b for m, c in T.to_poly(p).items() for b, e in m if b.op == 'ite'}, key=lambda x: x.dig)
    if not at or len(at) > 2:
        return n
    a = at[0]

    def put(v):
        t = ZERO
        for mono, c in T.to_poly(p).items():
            u = mk('const', c)
            for b, e in mono:
                u = T.mul(u, T.power(v if b is a else b, e))
            t = T.add(t, u)
        q = rebuild(n.op, (t,))
        return lift(q, env, memo, depth + 1) if q.op in ('lt0', 'le0', 'eq0') else q
    c = a.args[0]
    return T.ite(c, put(a.args[1]), put(a.args[2]))


_MEMO = {}
_NORM = {}


def norm(n):
    r = _NORM.get(n)
    if r is None:
        r = n
        for _ in range(3):
            x = simp(r, {}, _MEMO)
            if x is r:
                break
            r = x
        _NORM[n] = r
        if len(_MEMO) > 300000:
            _MEMO.clear()
    return r


def under(n, env):
    "n under truth values of conditions"
    return simp(n, env, {})
