"""Obligations: a function of /repo against its specification in /verif/ref, facet by facet."""
import ast
import re
from .terms import *
from . import terms as T
from .loader import Program, AnalysisBroken
from .oblig import analyse, conj, root_of, origin, changed, close_event
from .diff import Differ, R, EQ, DF, UN, EQUAL, STRIDED, steps
from . import spec, norm as N


class Obl:
    def __init__(self, func, facets='ret guards fields mut', kinds=None, consts=None, facts=(), project=None, fieldset=None):
        self.func, self.facets, self.kinds, self.consts = func, facets.split(), kinds or {}, consts or {}
        self.facts, self.project, self.fieldset = facts, project, fieldset

    def key(self):
        return (self.func, tuple(sorted((k, str(v)) for k, v in self.kinds.items())), tuple(sorted((k, v.dig) for k, v in self.consts.items())))


class Finding:
    def __init__(self, obl, facet, status, detail='', loc=None, cfg=''):
        self.obl, self.facet, self.status, self.detail, self.loc, self.cfg = obl, facet, status, detail, loc, cfg

    def __repr__(self):
        return f'{self.status} {self.obl.func}:{self.facet} {self.loc} {self.detail}'


def canonicalise(prog):
    "public names designate the same functions even when they moved to another module and are re-exported"
    for q in spec.PUBLIC:
        if q in prog.funcs:
            continue
        try:
            fi = prog.func(q)
        except AnalysisBroken:
            continue
        prog.funcs.pop(fi.qual, None)
        fi.qual = q
        prog.funcs[q] = fi


def private_name(q):
    n = q.split('.')[-1]
    return n.startswith('_') and not n.endswith('__')


def abstract(fi):
    import ast
    if fi is None:
        return False
    body = [b for b in fi.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and 'NotImplementedError' in ast.dump(body[0])


def strict(g):
    """a check that refuses inputs on one side of a bound that is none of those where operations stop being defined (0, 1): what an operation
    of the function would have refused by itself is not written this way"""
    plain = lambda b: b.op == 'sym' or b.op == 'attr' and plain(b.args[0]) or b.op == 'len' and plain(b.args[0])
    if g.op == 'or':
        return any(map(strict, g.args)) and all(strict(a) or (a.args[0] if a.op == 'not' else a).op in ('isnone', 'truthy') for a in g.args)
    if g.op not in ('lt0', 'le0'):
        return False
    p = to_poly(g.args[0])
    if not all(plain(b) for m in p for b, _ in m):
        return False
    c = p.pop((), 0)
    if len(p) > 1:
        return not any(b.op == 'len' for m in p for b, _ in m)
    (m, k), = p.items()
    return len(m) == 1 and m[0][1] == 1 and (abs(c / k) > 3 if m[0][0].op == 'len' else abs(c / k) not in (0, 1))


class Session:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.cache = {}
        self.public = spec.PUBLIC
        canonicalise(ref)
        canonicalise(cur)
        self.visited = {}

    def configs(self, q):
        pub = set(spec.PUBLIC) - {q}
        yield 'A', pub
        mod = q.split('.')[0]
        fi = self.ref.funcs.get(q)
        same = {p for p in pub if self.ref.funcs.get(p) is not None and self.ref.funcs[p].module.name == fi.module.name}
        # what subclasses define is never looked into
        virtual = {p for p in pub if abstract(self.ref.funcs.get(p))}
        yield 'B', pub - same | virtual
        yield 'C', virtual

    def facets(self, which, obl, cfg, contracts):
        prog = self.ref if which == 'ref' else self.cur
        k = (which, obl.key(), cfg)
        f = self.cache.get(k)
        if f is None:
            fi = prog.func(obl.func)
            rfi = self.ref.func(obl.func)
            args = spec.arguments(fi, obl.kinds, rfi)
            for p, v in obl.consts.items():
                if p in args:
                    args[p] = v
            f = analyse(prog, obl.func, args, contracts, facts=obl.facts(args) if obl.facts else ())
            self.cache[k] = f
        return f

    def check(self, obl):
        """-> list of Finding, one per facet.  A private helper used as a boundary may change as long as no public function
        does: a difference in it counts where a caller, with the helper looked into, differs."""
        if not private_name(obl.func):
            return self.check1(obl)
        try:
            self.cur.func(obl.func)
            res = self.check1(obl)
            if all(f.status == EQ for f in res):
                return res
        except AnalysisBroken:
            res = [Finding(obl, f, UN, 'helper not present') for f in obl.facets]
        verdict, why = EQ, ''
        for q in self.callers(obl.func):
            for f in self.check1(Obl(q, 'ret guards'), hide=obl.func):
                if f.status == DF:
                    verdict, why = DF, f'{q}: {f.detail}'
                elif f.status == UN and verdict == EQ:
                    verdict, why = UN, f'{q}: {f.detail}'
        if verdict == UN and any(f.status == DF for f in res):
            # the callers use it as before: what it gives them differs
            same = [f for q in self.callers(obl.func) for f in self.check1(Obl(q, 'ret guards'), only='A')]
            if same and all(f.status == EQ for f in same):
                verdict = DF
                for f in res:
                    if f.status == DF:
                        return res
        for f in res:
            if f.status != EQ:
                f.status = verdict if f.status == DF or verdict == EQ else UN
                if verdict != EQ:
                    f.detail = f'seen through {why}' if verdict == DF else f.detail
        return res

    def callers(self, p):
        out = []
        for q in spec.PUBLIC:
            if q == p or private_name(q) or q not in self.ref.funcs:
                continue
            o = Obl(q, '')
            r = self.facets('ref', o, 'A', set(spec.PUBLIC) - {q})
            if any(t.args[0] == p for t, e, l in r.calls):
                out.append(q)
        return out

    def check1(self, obl, hide=None, only=None):
        try:
            self.cur.func(obl.func)
        except AnalysisBroken as e:
            return [Finding(obl, f, UN, str(e)) for f in obl.facets]
        out = {}
        best = {}
        configs = [(c, k) for c, k in self.configs(obl.func) if (obl.func, c) not in spec.TOO_BIG]
        if only:
            configs = [x for x in configs if x[0] == only]
        if hide:
            configs = [('A-' + hide, configs[0][1] - {hide})] + configs[1:]
        for cfg, con in configs:
            todo = [f for f in obl.facets if best.get(f) is None or best[f].status != EQ and f not in ('bugs', 'sig', 'mut')]
            if not todo:
                break
            if cfg[0] != 'A' and obl.func in spec.NO_INLINE:
                break
            try:
                r, c = self.facets('ref', obl, cfg, con), self.facets('cur', obl, cfg, con)
            except RecursionError:
                continue
            for f in todo:
                try:
                    with T.limit(2000000):
                        res, loc = self.facet(f, obl, r, c)
                except (T.Blowup, RecursionError):
                    res, loc = R(UN, [(const('analysis budget'), const('exhausted'))]), c.loc
                fd = Finding(obl, f, res.s, '; '.join(f'{show(a)[:300]}  ≠  {show(b)[:300]}' for a, b in res.pairs[:2]), loc, cfg)
                old = best.get(f)
                # EQUAL under any boundary settles; a difference is believed at the coarsest boundary that shows it
                if old is None or res.s == EQ or (old.status == UN and res.s == DF and cfg == 'B'):
                    best[f] = fd
            if all(best[f].status == DF for f in todo) and cfg == 'B':
                break
        if not only and not hide:
            self.modular(obl, best, configs)
        if not only:
            self.instances(obl, best, configs)
        return list(best.values())

    def modular(self, obl, best, configs):
        "what private helpers do is settled for each of them: the function that calls them is compared with their calls left as calls"
        todo = [f for f in obl.facets if best[f].status != EQ and f in ('ret', 'guards', 'fields')]
        if not todo or not configs:
            return
        pub = configs[0][1]
        try:
            r, c = self.facets('ref', obl, 'A', pub), self.facets('cur', obl, 'A', pub)
            settled = {h for h in set(r.visited) & set(c.visited) - set(spec.PUBLIC) if h != obl.func and self.settled(h)}
            if not settled:
                return
            r, c = self.facets('ref', obl, 'D', pub | settled), self.facets('cur', obl, 'D', pub | settled)
            calls = lambda f: {(close_event(e, t), N.norm(e.cond)) for t, e, l in f.calls if t.args[0] in settled}
            if calls(r) != calls(c):
                todo = [f for f in todo if f != 'guards']
            for f in todo:
                with T.limit(1000000):
                    res, loc = self.facet(f, obl, r, c)
                if res.s == EQ:
                    best[f] = Finding(obl, f, EQ, '', loc, 'D')
        except (T.Blowup, RecursionError, AnalysisBroken):
            pass

    def settled(self, h):
        "a helper without effects, the same for all arguments"
        m = self.__dict__.setdefault('proven', {})
        if h not in m:
            m[h] = False            # while in progress
            if h in self.ref.funcs and h in self.cur.funcs and h not in spec.PUBLIC:
                o = Obl(h, 'ret guards sig')
                r = self.facets('ref', o, 'A', set(spec.PUBLIC) - {h})
                c = self.facets('cur', o, 'A', set(spec.PUBLIC) - {h})
                if not any(x.mut or x.fields or x.acts or x.io or x.noreturn for x in (r, c)):
                    m[h] = all(f.status == EQ for f in self.check1(o))
        return m[h]

    def instances(self, obl, best, configs):
        "what is undecided for all inputs may differ for small shapes of them"
        if obl.consts or all(f.status != UN for f in best.values()):
            return
        for inst in spec.instances(obl.func):
            o = Obl(obl.func, ' '.join(obl.facets), obl.kinds, inst, obl.facts, obl.project, obl.fieldset)
            for cfg, con in configs[:2]:
                todo = [f for f in o.facets if best[f].status == UN and f not in ('sig', 'mut')]
                if not todo:
                    return
                try:
                    r, c = self.facets('ref', o, cfg, con), self.facets('cur', o, cfg, con)
                except RecursionError:
                    continue
                und = False
                for f in todo:
                    try:
                        with T.limit(1000000):
                            res, loc = self.facet(f, o, r, c)
                    except (T.Blowup, RecursionError):
                        continue
                    if res.s == DF:
                        txt = '; '.join(f'{show(a)[:300]}  ≠  {show(b)[:300]}' for a, b in res.pairs[:2])
                        which = ', '.join(f'{k}={show(v)[:60]}' for k, v in inst.items())
                        best[f] = Finding(obl, f, DF, f'with {which}: {txt}', loc, cfg)
                    und |= res.s == UN
                if not und:
                    break

    # ------------------------------------------------------------------
    def facet(self, f, obl, r, c):
        loc = c.loc
        # what is returned or stored matters only where the function goes through
        go = [N.norm(x) for x in conj([g for g, l in r.guards])] if f in ('ret', 'fields') else []
        dif = Differ(norm=N.norm, vocab=r.vocab(), facts=go)
        if r.error or c.error:
            return R(UN, [(const(str(r.error)), const(str(c.error)))]), loc
        if f == 'ret':
            if r.noreturn and c.noreturn:
                return EQUAL, loc
            if r.noreturn != c.noreturn:
                return R(DF, [(const('returns'), const('never returns'))] if c.noreturn else [(const('never returns'), const('returns'))]), loc
            a, b = r.ret, c.ret
            if obl.project:
                a, b = obl.project(a), obl.project(b)
            return dif.compare(a, b), loc
        if f == 'guards':
            return guards(dif, conj([g for g, l in r.guards]), conj([g for g, l in c.guards])), loc
        if f == 'fields':
            rf = fields(dif, r, c, obl.fieldset)
            if obl.fieldset:
                return rf, loc
            ra, less = acts(dif, r, c)
            if ra.s == EQ:
                return rf, loc
            # an operation left out or given something else, everything else being the same
            return (ra if ra.s == DF and rf.s == EQ and less else R(UN, ra.pairs + rf.pairs)), loc
        if f == 'mut':
            return muts(r, c), loc
        if f == 'io':
            return ios(dif, r, c), loc
        if f == 'sig':
            return sig(self.ref.func(obl.func), self.cur.func(obl.func)), loc
        if f == 'bugs':
            return bugs(r, c)
        raise KeyError(f)


def propagate(gs):
    "a conjunction, each member simplified under the atomic others; universally quantified members over the same range merged"
    gs = conj([N.norm(g) for g in gs])
    for _ in range(4):
        env = {}
        for g in gs:
            if g.op not in ('and', 'or'):
                env = N.learn(g, TRUE, env)
        new = []
        for g in gs:
            if g.op in ('and', 'or') or g.op == 'all':
                new.append(N.norm(N.under(g, env)) if g.op != 'all' else N.norm(N.under(g, {k: v for k, v in env.items() if k is not g})))
            else:
                new.append(g)
        new = conj(new)
        if new == gs:
            break
        gs = new
    return gs


def split(gs):
    "-> plain conditions, {range: [bodies over the shared index]}"
    plain, fam = [], {}
    for g in gs:
        if g.op == 'all' and g.args[0].op in ('map', 'fmap'):
            m = g.args[0]
            n, c, body, bv = open_map(m)
            k = mk('bv', 900)
            SYMKIND[k] = 'int'
            b = or_(not_(subst(c, {bv: k})), subst(body, {bv: k}))
            fam.setdefault(n, []).extend(conj([b]))
        else:
            plain.append(g)
    return plain, fam


def guards(dif, rs, cs, depth=0):
    if not depth:
        STRIDED[0] = max(sum(x.op == 'map' and bool(steps(x)) for g in gs for x in nodes(g)) for gs in (rs, cs))
        try:
            return guards(dif, rs, cs, 1)
        finally:
            STRIDED[0] = 0
    rs, cs = propagate(rs), propagate(cs)
    pr, fr = split(rs)
    pc, fc = split(cs)
    res = [conditions(dif, pr, pc)]
    learnt = [g for g in pr if g in pc]
    def q(n, xs):
        return [mk('all', close_map(n, and_(*xs), mk('bv', 900)))]
    ur, uc = [n for n in fr if n not in fc], [n for n in fc if n not in fr]
    for n in [n for n in fr if n in fc]:
        if depth < 4:
            res.append(guards(Differ(set(learnt) | dif.facts, dif.norm, dif.vocab), fr[n], fc[n], depth + 1))
        else:
            res.append(conditions(dif, q(n, fr[n]), q(n, fc[n])))
    if ur or uc:
        # the same checks, maybe, over ranges written differently
        given = Differ(set(learnt) | dif.facts, dif.norm, dif.vocab)
        res.append(conditions(given, [x for n in ur for x in q(n, fr[n])], [x for n in uc for x in q(n, fc[n])]))
    from .diff import rigid
    if all(x.s == EQ for x in res):
        return EQUAL
    d = [x for x in res if x.s == DF]
    if d and not any(x.s == UN for x in res):
        return rigid(res)
    # a check present in another form elsewhere?
    whole = conditions(dif, rs, cs)
    if whole.s == EQ:
        return EQUAL
    return rigid(res) if d and whole.s == DF else R(UN, whole.pairs or [p for x in res for p in x.pairs][:2])


def conditions(dif, rs, cs):
    r = [g for g in rs if g not in cs]
    c = [g for g in cs if g not in rs]

    def pair():
        for g in list(r):
            for h in list(c):
                if dif.d(g, h).s == EQ:
                    r.remove(g)
                    c.remove(h)
                    break
    pair()
    if not r and not c:
        return EQUAL
    # a check matters only where the others hold
    common = [g for g in rs if g not in r]
    if common:
        env = {}
        for g in common:
            if g.op not in ('and', 'or'):
                env = N.learn(g, TRUE, env)
        r = [x for x in conj([N.norm(N.under(g, env)) for g in r])]
        c = [x for x in conj([N.norm(N.under(g, env)) for g in c])]
        r, c = [g for g in r if g not in c], [g for g in c if g not in r]
        dif = Differ(set(common) | dif.facts, dif.norm, dif.vocab)
        pair()
        rs, cs = r, c
        if not r and not c:
            return EQUAL
    if not c:
        # the remaining checks may imply the missing one
        if dif.d(and_(*rs), and_(*cs)).s == EQ:
            return EQUAL
        return R(DF, [(g, const('check absent')) for g in r])
    d = dif.d(and_(*rs), and_(*cs))
    if d.s == EQ:
        return EQUAL
    if not r:
        return R(DF if any(map(strict, c)) else UN, [(const('no such check'), g) for g in c])
    if d.s == DF:
        return d
    pairs = []
    for g in r:
        hit = None
        for h in c:
            x = dif.d(g, h)
            if x.s == DF:
                hit = x
                break
        if hit is None:
            return R(UN, [(g, h) for h in c][:2])
        pairs += hit.pairs
    return R(DF, pairs)


def own_roots(f):
    return {k: v for k, v in f.fields.items() if external(k[0])}


def external(o):
    return isinstance(o, Node) and root_of(o).op in ('sym',)


def fields(dif, r, c, only=None):
    a, b = own_roots(r), own_roots(c)
    if only:
        a, b = ({k: v for k, v in x.items() if k[1] in only} for x in (a, b))
    out = []
    for k in a:
        if k in b:
            out.append(dif.compare(a[k], b[k]))
        elif private(k[1]) and any(private(x[1]) for x in b if x not in a):
            out.append(R(UN, [(k[0], const(str(k[1])))]))
        else:
            out.append(R(DF, [(a[k], const(f'{k[1]} not set'))]))
    for k in b:
        if k not in a and not private(k[1]):
            out.append(R(UN, [(const(f'{k[1]} not set'), b[k])]))
    from .diff import rigid
    return rigid(out)


def private(a):
    return isinstance(a, str) and a.startswith('_')


def muts(r, c):
    a = {changed(x) for x, *_ in r.mut if external(origin(x))}
    for x, how, e, loc in c.mut:
        if external(origin(x)) and changed(x) not in a:
            return R(DF, [(const('left unchanged'), seq(x, how))])
    return EQUAL


def acts(dif, r, c):
    "operations on the objects of the caller: -> result, and whether there is none but those of the specification"
    def closed(f):
        m = {}
        for t, e, l in f.acts:
            obj = t.args[0] if e.kind == 'mutate' else t.args[1][0][1] if e.kind == 'ccall' else t.args[1]
            if not external(obj):
                continue
            cond = e.cond
            for n, bv, c0 in reversed(e.binders):
                t = close_map(n, t, bv, c0)
                cond = mk('anyiter', close_map(n, cond, bv, c0)) if occurs(bv, cond) else cond
            t = N.norm(t)
            m[t] = or_(m[t], N.norm(cond)) if t in m else N.norm(cond)
        return m
    a, b = closed(r), closed(c)
    rs = [dif.d(a[t], b[t]) for t in a if t in b]
    less = True
    left = [u for u in b if u not in a]
    for t in a:
        if t in b:
            continue
        near = [(u, dif.d(t, u)) for u in left if form(u) == form(t)]
        eq = [u for u, x in near if x.s == EQ]
        if eq:
            rs.append(dif.d(a[t], b[eq[0]]))
            left.remove(eq[0])
        elif len(near) == 1:
            rs.append(near[0][1])
            left.remove(near[0][0])
        else:
            less &= not near
            rs.append(R(DF, [(t, const('no such operation'))]))
    if left:
        less = False
        rs.append(R(UN, [(const('no such operation'), left[0])]))
    from .diff import rigid
    return rigid(rs), less


def form(t):
    while t.op in ('map', 'fmap'):
        t = t.args[-1]
    return (t.op, t.args[0]) if t.op == 'ccall' else (t.op, t.args[1 if t.args[0].op != 'const' else 0])


def apiece(t, cond, depth=3):
    "an operation on one value or another: one operation or the other"
    c = depth and next((x.args[0] for x in outer(t) if x.op == 'ite'), None)
    if not c:
        return [(t, cond)]
    out = []
    for v in (TRUE, FALSE):
        env = N.learn(c, v, {})
        g = N.norm(and_(N.under(cond, env), c if v is TRUE else not_(c)))
        if g is not FALSE:
            out += apiece(N.norm(N.under(t, env)), g, depth - 1)
    return out


def outer(t):
    "the parts of a term not within an iteration"
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Node) and x.op not in ('map', 'fmap', 'dmap', 'lam', 'all', 'any', 'fold', 'gloop'):
            yield x
            st.extend(x.args)


def ios(dif, r, c):
    """effects, as a set of (condition, operation) closed over the iterations they occur in; the order is not compared,
    but the nesting of what they are applied to is part of the operation"""
    def closed(f):
        out = []
        for k, d, e, l in f.io:
            t = seq(const(k), d)
            cond = e.cond
            for n, bv, c0 in reversed(e.binders):
                t = close_map(n, t, bv, c0)
                cond = mk('anyiter', close_map(n, cond, bv, c0)) if occurs(bv, cond) else cond
            out += apiece(N.norm(t), N.norm(cond))
        m = {}
        for t, cond in out:
            m[t] = or_(m[t], cond) if t in m else cond
        return m
    a, b = closed(r), closed(c)
    rs = []
    for t in list(a):
        if t in b:
            rs.append(dif.d(a[t], b[t]))
        else:
            hit = [u for u in b if u not in a and dif.d(t, u).s == EQ]
            if hit:
                rs.append(dif.d(a[t], b[hit[0]]))
                b.pop(hit[0])
            else:
                near = [u for u in b if u not in a]
                rs.append(R(DF, [(t, const('no such operation'))]) if not near else R(UN, [(t, near[0])]) if not any(dif.d(t, u).s == DF for u in near) else R(DF, [(t, near[0])]))
    for u in b:
        if u not in a and not any(dif.d(t, u).s == EQ for t in a):
            rs.append(R(DF, [(const('no such operation'), u)]) if len(b) > len(a) else EQUAL)
    from .diff import rigid
    return rigid(rs)


def bugs(r, c):
    """operations that cannot succeed: a name that no scope defines, a call that does not fit its callee's signature, a local
    read before any assignment, a format that does not accept its operand.  Reported where every execution reaching it fails."""
    def key(k, d):
        return (k, re.sub(r'k\d+', 'k', show(d)))
    old = {key(k, d) for k, d, c0, l in r.bugs} | {key(e.kind, e.data) for e in getattr(r, 'events', ()) if e.kind in BUGS}
    und = None
    for e in c.events:
        if e.kind not in BUGS or key(e.kind, e.data) in old:
            continue
        if e.kind == 'format' and (e.cond is not TRUE or e.binders) or e.kind in ('unbound', 'maybeunbound') and not reachable(e.cond):
            und = und or (e, e.loc)
            continue
        return R(DF, [(const('no failing operation'), seq(const(f'{e.kind}: {BUGS[e.kind]}'), e.data))]), e.loc
    if und:
        return R(UN, [(const('no failing operation'), seq(const(und[0].kind), und[0].data, und[0].cond))]), und[1]
    return EQUAL, c.loc


LOOPY = {'opaque', 'gloop', 'fold', 'loopvar', 'loopexit', 'loopat', 'foldat', 'loopout', 'loopret', 'loopbrk', 'loopretval', 'unbound', 'partial', 'acc', 'noreturn'}


def reachable(c):
    "a path condition made of independent conditions on the inputs, none contradicting another: some input takes the path"
    from .diff import names_of
    for l in (c.args if c.op == 'and' else (c,)):
        n = names_of(l)
        if n & LOOPY or 'raised' in n and not (l.op == 'not' and l.args[0].op == 'raised'):
            return False
    return True


BUGS = {'unbound': 'local read before assignment', 'maybeunbound': 'local read before assignment', 'undefined': 'undefined name', 'arity': 'call does not fit the signature',
        'typeerror': 'operation not supported by its operand', 'format': 'format does not accept the operand'}


def default_value(x):
    try:
        return True, ast.literal_eval(x)
    except (ValueError, SyntaxError):
        return False, ast.unparse(x)


def sig(a, b):
    def shape(fi):
        x = fi.node.args
        pos = [p.arg for p in x.posonlyargs + x.args]
        d = dict(zip(pos[len(pos) - len(x.defaults):], [default_value(v) for v in x.defaults]))
        for p, v in zip(x.kwonlyargs, x.kw_defaults):
            if v is not None:
                d[p.arg] = default_value(v)
        return pos, [p.arg for p in x.kwonlyargs], d, x.vararg and x.vararg.arg, x.kwarg and x.kwarg.arg
    pa, ka, da, va, wa = shape(a)
    pb, kb, db, vb, wb = shape(b)
    if pb[:len(pa)] != pa:
        return R(DF, [(const(str(pa)), const(str(pb)))])
    for p in pb[len(pa):]:
        if p not in db:
            return R(DF, [(const(str(pa)), const(f'new mandatory parameter {p}'))])
    for p in da:
        if p not in db:
            return R(DF, [(const(f'{p} optional'), const(f'{p} mandatory'))])
    if bool(va) != bool(vb) and va or bool(wa) != bool(wb) and wa:
        return R(DF, [(const(str((va, wa))), const(str((vb, wb))))])
    for p in da:
        (la, x), (lb, y) = da[p], db[p]
        if (x, type(x)) == (y, type(y)) and la == lb:
            continue
        if la and lb and x != y and None not in (x, y):
            return R(DF, [(const(f'{p}={x!r}'), const(f'{p}={y!r}'))])
        if la and lb and x == y:       # 1 and 1. are the same default
            continue
        return R(UN, [(const(f'{p}={x!r}'), const(f'{p}={y!r}'))])
    return EQUAL
