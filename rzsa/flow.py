"""Definition-use, ownership and lifetime analyses over the syntax tree: what the value graph abstracts from.

The value graph treats containers and iterators as values.  These rules look at what that hides: an object shared with the caller, a state
that outlives the call, an iterator that can be read only once.  Each compares with the specification, so that only what a change introduced
is reported."""
import ast
from .diff import EQ, DF, UN

CONSUMERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'dict', 'zip', 'map', 'filter', 'enumerate', 'len',
             'fromiter', 'reduce', 'join', 'chain', 'from_iterable', 'product', 'starmap', 'accumulate', 'extend', 'union', 'update', 'Counter',
             'array', 'asarray', 'concatenate', 'hstack', 'vstack', 'stack', 'deque', 'combinations', 'permutations', 'islice', 'takewhile', 'Inventory'}
LAZY = {'map', 'zip', 'filter', 'reversed', 'enumerate', 'chain', 'from_iterable', 'starmap', 'product', 'islice', 'takewhile', 'dropwhile', 'accumulate',
        'combinations', 'permutations', 'groupby', 'zip_longest', 'repeat'}
MUTATE = {'append', 'add', 'update', 'setdefault', 'extend', 'insert', 'appendleft', 'pop', 'popitem', 'remove', 'clear', 'discard', '__setitem__', 'move_to_end'}
FRESH = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'Tags', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'array', 'zeros', 'ones', 'empty', 'full',
         'copy', 'deepcopy', 'arange', 'zeros_like', 'ones_like', 'empty_like'}
FILES = {'is_dir', 'is_file', 'exists', 'stat', 'resolve', 'absolute', 'cwd', 'getcwd', 'open', 'glob', 'iglob', 'rglob', 'iterdir', 'listdir', 'scandir', 'walk', 'abspath',
         'getenv', 'environ', 'loadtxt', 'fromfile', 'read_text', 'read_bytes', 'getmtime', 'getsize', 'isfile', 'isdir', 'realpath', 'expanduser'}


class Scope:
    "a function, its local definitions, and the function it is nested in"
    def __init__(self, node, parent, module, cls=None, qual=''):
        self.node, self.parent, self.module, self.cls, self.qual = node, parent, module, cls, qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.positional = [x.arg for x in a.posonlyargs + a.args]
        self.defs, self.globals, self.nonlocals, self.inner = {}, set(), set(), {}
        self.children = []
        self.depth = 0 if parent is None else parent.depth + 1
        self.parents = {}
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self._visit(st, node)

    def _visit(self, n, up):
        self.parents[n] = up
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            s = Scope(n, self, self.module, None, self.qual)
            self.children.append(s)
            if not isinstance(n, ast.Lambda):
                self.inner[n.name] = s
                self.defs.setdefault(n.name, []).append(('func', n))
            for d in getattr(n, 'decorator_list', []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self._visit(d, n)
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self._bind(t, n.value, whole=True)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self._bind(n.target, n.value, whole=True)
        elif isinstance(n, ast.NamedExpr):
            self._bind(n.target, n.value, whole=True)
        elif isinstance(n, ast.AugAssign):
            self._bind(n.target, n.value, whole=False)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
            self._bind(n.target, n.iter, whole=False)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    self._bind(i.optional_vars, i.context_expr, whole=False)
        elif isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.defs.setdefault(n.name, []).append(('exc', n))
        for c in ast.iter_child_nodes(n):
            self._visit(c, n)

    def _bind(self, t, value, whole):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(('value' if whole else 'part', value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = value.elts if whole and isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) \
                and not any(isinstance(e, ast.Starred) for e in value.elts + t.elts) else None
            for i, e in enumerate(t.elts):
                self._bind(e.value if isinstance(e, ast.Starred) else e, parts[i] if parts else value, whole and parts is not None)

    def owner(self, name):
        "the scope that binds a name, or None for a global name"
        if name in self.globals:
            return None
        if name not in self.nonlocals and (name in self.defs or name in self.params):
            return self
        return self.parent.owner(name) if self.parent is not None else None

    def all(self):
        yield self
        for c in self.children:
            yield from c.all()

    def nodes(self):
        "nodes of this function, nested functions excluded"
        return list(self.parents)


def callee(e):
    f = e.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.scopes = {}
        for q, fi in prog.funcs.items():
            self.scopes[q] = Scope(fi.node, None, fi.module, fi.cls, q)
        self.stored = self._stored()

    def _stored(self):
        "attributes set on self outside the constructors, by class: those are not constants of the object"
        out = {}
        for q, s in self.scopes.items():
            if s.cls is None or s.node.name == '__init__' or not s.positional:
                continue
            me = s.positional[0]
            for sc in s.all():
                for n in sc.nodes():
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.setdefault(s.cls.name, set()).add(n.attr)
                    b = mutation(n)
                    if b is not None and isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me:
                        out.setdefault(s.cls.name, set()).add(b.attr)
        return out

    # ------------------------------------------------------------ identity
    def sources(self, e, sc, seen=()):
        "the objects an expression may be (not: may be computed from)"
        if isinstance(e, ast.Name):
            o = sc.owner(e.id)
            if o is None:
                g = sc.module.globals.get(e.id)
                if g and g[0] == 'assign':
                    yield ('global', e.id, sc.module.short)
                return
            if (o, e.id) in seen:
                return
            ds = [v for k, v in o.defs.get(e.id, []) if k == 'value']
            kill = [v for v in ds if o is sc and straight(o, v) and place(v) < place(e)]
            if kill:
                last = max(kill, key=place)
                ds = [v for v in ds if place(v) >= place(last)]
            for v in ds:
                yield from self.sources(v, o, seen + ((o, e.id),))
            if e.id in o.params and not kill:
                yield ('param', e.id, o)
        elif isinstance(e, ast.IfExp):
            a, b = list(self.sources(e.body, sc, seen)), list(self.sources(e.orelse, sc, seen))
            g = guarded_names(e.test)
            yield from (x for x in a if not (x[0] == 'param' and x[1] in g))
            yield from b
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                yield from self.sources(v, sc, seen)
        elif isinstance(e, ast.NamedExpr):
            yield from self.sources(e.value, sc, seen)
        elif isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                root = sc
                while root.parent is not None:
                    root = root.parent
                me = root.positional[0] if root.cls is not None and root.positional else None
                if e.value.id == me:
                    yield ('attr', e.attr, root.cls.name)
                elif e.value.id in self.prog.classes:
                    yield ('attr', e.attr, e.value.id)
                elif sc.owner(e.value.id) is None and e.value.id in self.funcs_of(sc.module):
                    yield ('fattr', e.attr, e.value.id)
        elif isinstance(e, (ast.List, ast.Dict, ast.Set)) and not (getattr(e, 'elts', None) or getattr(e, 'keys', None)):
            yield ('fresh',)
        elif isinstance(e, ast.Call) and callee(e) == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[0], ast.Name):
            yield from self.sources(ast.copy_location(ast.Attribute(e.args[0], e.args[1].value, ast.Load()), e), sc, seen)
        elif isinstance(e, ast.Call) and callee(e) in ('asarray', 'asanyarray') and len(e.args) == 1 and not e.keywords:
            yield from self.sources(e.args[0], sc, seen)

    def funcs_of(self, module):
        return {k for k, v in module.globals.items() if k != '*' and v[0] == 'func'}

    # ------------------------------------------------------------ dependence
    def deps(self, e, sc, seen=None, depth=0, skip=None):
        "parameters (scope, name) an expression is computed from; ('files',) and ('state', attribute) for what changes from call to call"
        seen = set() if seen is None else seen
        out = set()
        inner = bound_inside(e)
        for n in walk_except(e, skip):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in inner:
                o = sc.owner(n.id)
                if o is None:
                    continue
                if n.id in o.params:
                    out.add((o, n.id))
                if (o, n.id) in seen:
                    continue
                seen.add((o, n.id))
                for k, v in o.defs.get(n.id, []):
                    if k == 'func':
                        s2 = o.inner.get(n.id)
                        for x in s2.all() if s2 else ():
                            for m in x.nodes():
                                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load):
                                    w = x.owner(m.id)
                                    if w is not None and w.depth <= o.depth:
                                        out |= self.deps(m, w if m.id in w.defs or m.id in w.params else o, seen, depth, skip)
                    elif k in ('value', 'part'):
                        out |= self.deps(v, o, seen, depth, skip)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                root = sc
                while root.parent is not None:
                    root = root.parent
                if root.cls is not None and root.positional and n.value.id == root.positional[0]:
                    out |= {('state', a) for a in self.state_read(root.cls.name, n.attr)}
            if isinstance(n, ast.Call):
                if callee(n) in FILES:
                    out.add(('files',))
                else:
                    out |= {('files',)} if self.reads_files(n, sc) else set()
        return out

    def reads_files(self, call, sc, memo={}):
        f = call.func
        if isinstance(f, ast.Name) and sc.owner(f.id) is None:
            g = sc.module.globals.get(f.id)
            if g and g[0] == 'ext' and g[1].split('.')[0] == 'razorback':
                g = next((m.globals.get(f.id) for m in self.prog.modules.values() if f.id in m.globals and m.globals[f.id][0] == 'func'), None)
            if g and g[0] == 'func':
                return self.fn_files(g[1].qual)
        return False

    def fn_files(self, q, memo=None):
        self._files = getattr(self, '_files', {})
        if q in self._files:
            return self._files[q]
        self._files[q] = False
        s = self.scopes.get(q)
        r = False
        for sc in (s.all() if s else ()):
            for n in sc.nodes():
                if isinstance(n, ast.Call) and (callee(n) in FILES or self.reads_files(n, sc)):
                    r = True
        self._files[q] = r
        return r

    def state_read(self, cls, attr, seen=None):
        "attributes of the object, among those that change after construction, read through self.attr (a method, a property or an attribute)"
        seen = set() if seen is None else seen
        if (cls, attr) in seen:
            return set()
        seen.add((cls, attr))
        mut = set()
        for c in self.prog.mro(cls):
            mut |= self.stored.get(c.name, set())
        out = {attr} & mut
        f = self.prog.lookup(cls, attr)
        if f and f[0] in ('getter', 'method'):
            s = self.scopes.get(f[1].qual)
            if s and s.positional:
                for sc in s.all():
                    for n in sc.nodes():
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s.positional[0]:
                            out |= self.state_read(cls, n.attr, seen)
                        if isinstance(n, ast.Name) and n.id == s.positional[0] and cls == 'Inventory':
                            out |= {'_content'}
        return out

    # ------------------------------------------------------------ state that outlives the call
    def lasting(self, src, sc):
        "a storage that outlives a call -> (label, depth of the scopes whose parameters are constants of it, attribute-constant)"
        k = src[0]
        if k == 'global':
            return f'{src[2]}.{src[1]}'
        if k == 'fattr':
            return f'{src[2]}.{src[1]}'
        if k == 'attr':
            return f'{src[2]}.{src[1]}'
        return None

    def writes(self, top):
        "every change, in a function or those nested in it, of a storage that outlives the call"
        q = top.qual
        init = top.cls is not None and top.node.name in ('__init__', '__new__', '__setstate__')
        for sc in top.all():
            for n, (base, key, value, how) in [(n, w) for n in sc.nodes() for w in writes_of(n)]:
                if how == 'rebind' and isinstance(base, ast.Name):
                    if base.id in sc.globals:
                        yield ('global', base.id, sc.module.short), key, value, how, n, sc
                    elif base.id in sc.nonlocals and sc.parent is not None:
                        o = sc.parent.owner(base.id)
                        if o is not None:
                            yield ('closure', base.id, o), key, value, how, n, sc
                    continue
                if how == 'rebind':         # an attribute is set
                    srcs = list(self.sources(base, sc))
                else:
                    srcs = list(self.sources(base, sc))
                    if isinstance(base, ast.Name):
                        o = sc.owner(base.id)
                        if o is not None and o is not sc and ('fresh',) in srcs:
                            yield ('closure', base.id, o), key, value, how, n, sc
                        if o is not None and base.id in o.params and mutable_default(o, base.id):
                            yield ('default', base.id, o), key, value, how, n, sc
                for s in srcs:
                    if s[0] in ('global', 'fattr'):
                        yield s, key, value, how, n, sc
                    elif s[0] == 'attr':
                        if init and not (how != 'rebind' and self.class_level(s)):
                            continue
                        yield s, key, value, how, n, sc

    def class_level(self, s):
        c = self.prog.classes.get(s[2])
        if c is None:
            return False
        for k in self.prog.mro(s[2]):
            if s[1] in k.assigns:
                i = self.scopes.get(f'{k.name}.__init__')
                if i is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == s[1] for sc in i.all() for n in sc.nodes()):
                    return False
                return True
        return False

    def reads(self, src, sc, but):
        "loads of a storage, other than the expression that changes it"
        out = []
        k = src[0]
        if k in ('closure', 'default'):
            tops = [src[2]]
            for t in tops:
                for s in t.all():
                    for n in s.nodes():
                        if isinstance(n, ast.Name) and n.id == src[1] and isinstance(n.ctx, ast.Load) and n not in but and s.owner(n.id) is t:
                            out.append((n, s))
            return out
        for t in self.scopes.values():
            if k == 'global' and t.module.short != src[2] and not self.imports(t.module, src):
                continue
            for s in t.all():
                for n in s.nodes():
                    if n in but:
                        continue
                    if k == 'global' and isinstance(n, ast.Name) and n.id == src[1] and isinstance(n.ctx, ast.Load) and s.owner(n.id) is None:
                        out.append((n, s))
                    if k in ('attr', 'fattr') and isinstance(n, ast.Attribute) and n.attr == src[1] and isinstance(n.ctx, ast.Load):
                        out.append((n, s))
                    if k in ('attr', 'fattr') and isinstance(n, ast.Call) and callee(n) in ('getattr', 'hasattr') and len(n.args) > 1 \
                            and isinstance(n.args[1], ast.Constant) and n.args[1].value == src[1]:
                        out.append((n, s))
        return out

    def imports(self, module, src):
        g = module.globals.get(src[1])
        return bool(g and g[0] == 'ext')


def mutable_default(sc, name):
    a = sc.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get(name)
    return isinstance(v, (ast.List, ast.Dict, ast.Set)) or isinstance(v, ast.Call) and callee(v) in FRESH


def guarded_names(test):
    "names known immutable where the test holds"
    out = set()
    for n in ast.walk(test):
        if isinstance(n, ast.Call) and callee(n) == 'isinstance' and len(n.args) == 2 and isinstance(n.args[0], ast.Name):
            t = ast.unparse(n.args[1])
            if any(w in t for w in ('tuple', 'str', 'frozenset', 'int', 'float', 'Number')) and not any(w in t for w in ('list', 'dict', 'set,', 'Tags')):
                out.add(n.args[0].id)
    return out


def bound_inside(e):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Lambda):
            out |= {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
    return out


def mutation(n):
    "the container changed by a node, or None"
    return next((w[0] for w in writes_of(n) if w[3] != 'rebind'), None)


def place(n):
    return getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)


def walk_except(e, skip):
    "the nodes of a tree, without the parts skip() is true for"
    todo = [e]
    while todo:
        n = todo.pop()
        if skip is not None and skip(n):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


# what is known of a value through these is not the value
SUMMARIES = {'len', 'sum', 'nansum', 'mean', 'nanmean', 'min', 'max', 'round', 'abs', 'int', 'hash', 'id', 'type', 'bool', 'any', 'all', 'std', 'median',
             'nanmedian', 'norm', 'shape', 'size', 'ndim', 'floor', 'ceil', 'rint', 'around', 'prod', 'ptp', 'count_nonzero'}
WHOLE = {'tobytes', 'tolist', 'copy', 'items', 'values', 'keys', 'astype', 'encode', 'resolve', 'as_posix', 'absolute', 'strip'}


def summary(n):
    "an expression that tells less than what it is computed from"
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
            return n.func.attr in SUMMARIES
        return callee(n) in SUMMARIES
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id != 'self' and n.attr not in WHOLE and isinstance(n.ctx, ast.Load)


def components(key, sc, depth=0):
    "the parts of a key"
    if isinstance(key, ast.Name) and depth < 4:
        o = sc.owner(key.id)
        ds = o.defs.get(key.id, []) if o is not None and key.id not in o.params else []
        if len(ds) == 1 and ds[0][0] == 'value':
            yield key
            yield from components(ds[0][1], o, depth + 1)
            return
    if isinstance(key, (ast.Tuple, ast.List)):
        for x in key.elts:
            yield from components(x, sc, depth)
        return
    yield key


def reduced(flow, key, values, sc):
    "what the values depend on otherwise than through the parts of the key, and the key tells only a part of"
    cover = {ast.unparse(c) for c in components(key, sc)}
    covered = lambda n: isinstance(n, ast.expr) and ast.unparse(n) in cover
    have = set()
    for v in values:
        have |= flow.deps(v, sc, skip=covered)
    return have & flow.deps(key, sc) - flow.deps(key, sc, skip=summary)


def writes_of(n):
    "-> (storage expression, key or None, values, kind)"
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        for t in ts:
            if n.value is None:
                continue
            if isinstance(t, ast.Subscript):
                yield t.value, t.slice, [n.value], 'augstore' if isinstance(n, ast.AugAssign) else 'store'
            elif isinstance(t, (ast.Attribute, ast.Name)):
                yield t, None, [n.value], 'rebind'
    if isinstance(n, ast.Delete):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                yield t.value, t.slice, [], 'delete'
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
        m = n.func.attr
        if m in ('setdefault', '__setitem__') and n.args:
            yield n.func.value, n.args[0], n.args[1:], m
        elif m == 'update' and not n.args and n.keywords and all(k.arg for k in n.keywords):
            yield n.func.value, ast.Tuple([ast.Constant(k.arg) for k in n.keywords], ast.Load()), [k.value for k in n.keywords], m
        elif m == 'update' and len(n.args) == 1 and isinstance(n.args[0], ast.Dict) and all(n.args[0].keys):
            yield n.func.value, ast.Tuple(n.args[0].keys, ast.Load()), n.args[0].values, m
        else:
            yield n.func.value, None, list(n.args) + [k.value for k in n.keywords], m


def clsname(fi):
    return fi.cls.name if fi.cls is not None else None


def hidden_state(S, names=None):
    "no function keeps, for later calls, a value that depends on more than the key it is kept under"
    from .rules import Result
    rule = 'no value kept from an earlier call'
    cur, ref = flows(S)
    out = []
    moved = None
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes:
            continue
        top = cur.scopes[q]
        fi = S.cur.funcs[q]
        loc = lambda n: (fi.module.relpath, getattr(n, 'lineno', fi.node.lineno), q)
        old = {src[:2] for src, *_ in ref.writes(ref.scopes[q])} if q in ref.scopes else set()
        if moved is None:
            moved = {}
            for r, s in ref.scopes.items():
                for src, *_ in ref.writes(s):
                    moved.setdefault((src[:2], clsname(S.ref.funcs[r])), set()).add(r)
        bad = None
        for src, key, values, how, node, sc in cur.writes(top):
            if src[:2] in old:
                continue
            # written by a function of the same class before: a part of it moved into a new one, or one that is gone was moved here
            had = moved.get((src[:2], clsname(fi)), ()) if src[0] == 'attr' else ()
            if had and (q not in ref.scopes or any(r not in cur.scopes for r in had)):
                continue
            label = f'{src[1]}'
            mine = {x for x in ast.walk(node)} if how != 'setdefault' else set()
            reads = cur.reads(src, sc, mine)
            if not reads and how != 'setdefault':
                continue
            have = set()
            for v in values:
                have |= cur.deps(v, sc)
            keys = cur.deps(key, sc) if key is not None else set()
            if src[0] == 'attr' and not cur.class_level(src):
                me = {(top, top.positional[0])}
            else:
                me = set()
                have = {d for d in have if d[0] != 'state'}
            const = me
            if src[0] == 'closure':
                const = {(s, p) for s in ancestors(src[2]) for p in s.params}
            missing = {d for d in have - keys if d not in const}
            if not missing and key is not None:
                missing = {d for d in reduced(cur, key, values, sc) if d not in const and d[0] not in ('state', 'files')}
            # written before it is read on every path of the same call: not a memory
            if how in ('rebind', 'store') and not before(reads, node, sc, top) and src[0] != 'closure':
                continue
            if how in ('delete', 'pop', 'clear', 'remove', 'discard', 'popitem'):
                continue
            if missing and fi.qual not in EXPECTED:
                what = ', '.join(sorted({'the files' if d == ('files',) else f'the state {d[1]}' if d[0] == 'state' else d[1] for d in missing}))
                bad = Result(rule, f'{q}: {label}', DF, f'{label} keeps for later calls a value that depends on {what}, '
                             + (f'under the key {ast.unparse(key)[:60]}' if key is not None else 'without a key'), loc(node))
                break
            bad = bad or Result(rule, f'{q}: {label}', UN, f'{label} outlives the call', loc(node))
        d = cached(cur, top)
        if d and not (q in ref.scopes and cached(ref, ref.scopes[q])):
            bad = Result(rule, f'{q}: {d[0]}', DF if d[1] else UN, f'memoised although it depends on {d[1]}' if d[1] else 'memoised', loc(top.node))
        out.append(bad or Result(rule, q, EQ, '', loc(top.node)))
    return out


EXPECTED = set()


def ancestors(s):
    while s is not None:
        yield s
        s = s.parent


def before(reads, node, sc, top):
    "a read that can see what an earlier call left"
    for n, s in reads:
        t = s
        while t.parent is not None:
            t = t.parent
        if t is not top:
            return True
        if (n.lineno, n.col_offset) < (node.lineno, node.col_offset):
            return True
    # a write under a condition, read after it
    up = sc.parents.get(node)
    while up is not None and up is not sc.node:
        if isinstance(up, (ast.If, ast.Try, ast.ExceptHandler, ast.For, ast.While)) and reads:
            return any((n.lineno, n.col_offset) > (getattr(up, 'end_lineno', 0), 0) for n, s in reads)
        up = sc.parents.get(up)
    return False


def cached(flow, top):
    "a memoising decorator -> (name, what the value depends on besides the arguments)"
    for d in getattr(top.node, 'decorator_list', []):
        nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1]
        if nm in ('lru_cache', 'cache', 'cached_property', 'memoize', 'memoise', 'cached'):
            dep = set()
            if flow.fn_files(top.qual):
                dep.add('files and the current directory')
            if top.cls is not None and top.positional:
                dep |= {f'the state {a}' for a in flow.state_read(top.cls.name, top.node.name)}
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in top.nodes()):
                dep.add('an iterator read once')
            for n in top.nodes():
                if isinstance(n, ast.Return) and isinstance(n.value, ast.GeneratorExp):
                    dep.add('an iterator read once')
            return nm, ', '.join(sorted(dep))
    return None


# ---------------------------------------------------------------------- ownership
def ownership(S, names=None):
    "what an object keeps, and what an operation returns, is never a mutable object the caller still holds"
    from .rules import Result
    rule = 'no mutable object shared with the caller'
    cur, ref = flows(S)
    out = []
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes:
            continue
        top = cur.scopes[q]
        fi = S.cur.funcs[q]
        new = dict(shared(cur, top))
        if q not in ref.scopes:
            continue            # a helper: its callers are looked at
        r = ref.scopes[q]
        same = {p: i for i, p in enumerate(r.params)}
        old = {norm_src(k, r) for k in dict(shared(ref, r))}
        bad = None
        for k, n in new.items():
            if norm_src(k, top) not in old:
                where, src = k
                if where[0] == 'field' and ('field', where[1], 'param') not in {x[:3] for x in tracked(ref)}:
                    continue
                bad = Result(rule, f'{q}: {where[1]}', DF, f'{where[0]} {where[1]} is the very object {src[1]}', (fi.module.relpath, n.lineno, q))
                break
        out.append(bad or Result(rule, q, EQ, '', (fi.module.relpath, fi.node.lineno, q)))
    return out


SIMPLE = {'num', 'int', 'str', 'bool', 'none'}


def norm_src(k, sc):
    where, src = k
    return where, (src[0], sc.params.index(src[1]) if src[0] == 'param' and src[1] in sc.params else src[1])


def tracked(ref):
    "the attributes the specification makes a fresh container of"
    t = getattr(ref, '_tracked', None)
    if t is None:
        t = ref._tracked = set()
        for q, s in ref.scopes.items():
            if s.cls is None:
                continue
            byattr = {}
            for a, v, n in stores(s):
                byattr.setdefault(a, []).append(list(ref.sources(v, s)))
            for a, l in byattr.items():
                if not any(x[0] == 'param' for y in l for x in y):
                    t.add(('field', a, 'param'))
            for n in s.nodes():
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and ast.unparse(n.func.value) == 'self.__dict__':
                    for kw in n.keywords:
                        t.add(('field', kw.arg, 'param'))
    return t


def stores(s):
    if s.cls is None or not s.positional:
        return
    me = s.positional[0]
    for n in s.nodes():
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                pairs = [(t, n.value)]
                if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    pairs = list(zip(t.elts, n.value.elts))
                for a, v in pairs:
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == me:
                        yield a.attr, v, n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and ast.unparse(n.func.value) == f'{me}.__dict__':
            for kw in n.keywords:
                if kw.arg:
                    yield kw.arg, kw.value, n


def shared(flow, top):
    from .spec import KINDS
    kinds = KINDS.get(top.qual, {})
    tests = set()
    for n in top.nodes():
        if isinstance(n, ast.If):
            tests |= guarded_names(n.test)
    plain = lambda p: kinds.get(p) in SIMPLE or p in tests
    for a, v, n in stores(top):
        for s in flow.sources(v, top):
            if s[0] == 'param' and s[2] is top and s[1] != (top.positional or [None])[0] and not plain(s[1]):
                yield (('field', a), s[:2]), n
            elif s[0] == 'attr' and flow.class_level(s) and mutable_class_attr(flow, s) and s[1] != a:
                yield (('field', a), s[:2]), n
    # class-level containers used as the state of each object
    for n in top.nodes():
        if isinstance(n, ast.Return) and n.value is not None:
            for s in flow.sources(n.value, top):
                if s[0] == 'param' and s[2] is top and not plain(s[1]) and (top.cls is None or s[1] != top.positional[0] or mutable_object(top.cls.name)):
                    yield (('result', 'of the call'), s[:2]), n
                elif s[0] == 'attr' and s[1] in CONTAINERS.get(s[2], ()):
                    yield (('result', 'of the call'), s[:2]), n


CONTAINERS = {'Inventory': ('_content',), 'TagsBase': ('_tags',), 'Tags': ('_tags',), 'Thomson': ('_data',), 'BoundedInfluenceStep': ('_prev',)}


def mutable_object(c):
    return c in ('SignalSet', 'Inventory', 'TagsBase', 'Tags')


def mutable_class_attr(flow, s):
    for k in flow.prog.mro(s[2]):
        v = k.assigns.get(s[1])
        if v is not None:
            return isinstance(v, (ast.List, ast.Dict, ast.Set)) or isinstance(v, ast.Call) and callee(v) in FRESH
    return False


# ---------------------------------------------------------------------- iterators
ITERABLES = {('utils.tags_from_path', 'names'), ('Inventory.__init__', 'content'), ('Inventory.extend', 'seq'), ('Inventory.select_runs', 'runs'),
             ('Weights.__init__', 'weights'), ('SyncSignal.__init__', 'data')}


def oneshot(flow, e, sc, depth=0):
    "the expression is an iterator that can be read only once"
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        nm = callee(e)
        if isinstance(f, ast.Name) and sc.owner(f.id) is None:
            g = sc.module.globals.get(f.id)
            if g and g[0] == 'func':
                return g[1].is_gen
            if g is None or g[0] == 'ext':
                return nm in LAZY
        if isinstance(f, ast.Name) and sc.owner(f.id) is not None:
            o = sc.owner(f.id)
            s2 = o.inner.get(f.id)
            return bool(s2) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in s2.nodes())
        if isinstance(f, ast.Attribute):
            if ast.unparse(f).split('.')[0] == 'itertools' and nm not in ('tee',):
                return True
            root = top_of(sc)
            if isinstance(f.value, ast.Name) and root.cls is not None and root.positional and f.value.id == root.positional[0]:
                m = flow.prog.lookup(root.cls.name, f.attr)
                return bool(m and m[0] == 'method' and m[1].is_gen)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and depth < 2:
        root = top_of(sc)
        if root.cls is not None and root.positional and e.value.id == root.positional[0]:
            m = flow.prog.lookup(root.cls.name, e.attr)
            if m and m[0] == 'getter':
                s = flow.scopes.get(m[1].qual)
                return bool(s) and (m[1].is_gen or any(isinstance(n, ast.Return) and n.value is not None and oneshot(flow, n.value, s, depth + 1) for n in s.nodes()))
    return False


def top_of(sc):
    while sc.parent is not None:
        sc = sc.parent
    return sc


def consumption(sc, n):
    "how a load of a name consumes it: None, or the node inside whose loop it is consumed"
    p = sc.parents.get(n)
    if isinstance(p, ast.Starred):
        return n
    if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is n:
        if any(isinstance(x, ast.Break) for x in ast.walk(p)):
            return None
        return n
    if isinstance(p, ast.comprehension) and p.iter is n:
        return n
    if isinstance(p, ast.Call) and n in p.args and callee(p) in CONSUMERS and callee(p) != 'len':
        if callee(p) in ('map', 'filter') and p.args[0] is n:
            return None
        return n
    if isinstance(p, ast.Compare) and n in p.comparators and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return n
    if isinstance(p, ast.Assign) and p.value is n and any(isinstance(t, (ast.Tuple, ast.List)) for t in p.targets):
        return n
    if isinstance(p, ast.YieldFrom):
        return n
    if isinstance(p, ast.Call) and n in p.args:
        t = ast.unparse(p.func)
        if t.startswith('type(self)') and t.count('(') == 1:
            return n
    return None


def arms(sc, n):
    "[(branching statement, arm)] from the outside in"
    out, c, p = [], n, sc.parents.get(n)
    while p is not None and c is not sc.node:
        if isinstance(p, (ast.If, ast.IfExp)):
            arm = 'test' if c is p.test else 'body' if c is p.body or isinstance(p.body, list) and c in p.body else 'orelse'
            out.append((p, arm))
        if isinstance(p, ast.Try):
            out.append((p, 'body' if c in p.body else 'other'))
        c, p = p, sc.parents.get(p)
    return out[::-1]


def exclusive(sc, a, b):
    x, y = dict(arms(sc, a)), dict(arms(sc, b))
    for k in x:
        if k in y and {x[k], y[k]} == {'body', 'orelse'}:
            return True
    first = a if (a.lineno, a.col_offset) < (b.lineno, b.col_offset) else b
    other = dict(arms(sc, b if first is a else a))
    for k, arm in arms(sc, first):
        if isinstance(k, ast.If) and k not in other and arm != 'test':
            l = k.body if arm == 'body' else k.orelse
            if l and isinstance(l[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return True
    return False


def loops(sc, n):
    "loops a node is evaluated in, several times"
    out, c, p = [], n, sc.parents.get(n)
    while p is not None and c is not sc.node:
        if isinstance(p, (ast.For, ast.AsyncFor)) and c is not p.iter and c not in p.orelse and c is not p.target:
            if not isinstance(last(p.body), (ast.Return, ast.Break, ast.Raise)):
                out.append(p)
        elif isinstance(p, ast.While) and c not in p.orelse:
            out.append(p)
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and c is not p.generators[0]:
            out.append(p)
        elif isinstance(p, ast.comprehension) and c is not p.iter:
            q = sc.parents.get(p)
            if q is not None:
                out.append(q)
        c, p = p, sc.parents.get(p)
    return out


def last(body):
    return body[-1] if body else None


def read_once(S, names=None):
    "an iterator is read at most once, is not kept in an object, and does not stand for a list that is returned"
    from .rules import Result
    rule = 'iterators are read once'
    cur, ref = flows(S)
    out = []
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes:
            continue
        top = cur.scopes[q]
        fi = S.cur.funcs[q]
        bad, k = None, 0
        for sc in top.all():
            cands = {v: ds[0][1] for v, ds in sc.defs.items() if len(ds) == 1 and ds[0][0] == 'value' and v not in sc.params and oneshot(cur, ds[0][1], sc)}
            for p in sc.params if sc is top else ():
                i = top.params.index(p)
                r = ref.scopes.get(q)
                if r and i < len(r.params) and (q, r.params[i]) in ITERABLES and p not in sc.defs:
                    cands[p] = None
            for v, d in cands.items():
                k += 1
                uses = [n for n in sc.nodes() if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)]
                if any(isinstance(sc.parents.get(n), ast.Call) and callee(sc.parents.get(n)) in ('next', 'tee', 'iter', 'islice') for n in uses):
                    continue
                con = [n for n in uses if consumption(sc, n) is not None]
                con.sort(key=lambda n: (n.lineno, n.col_offset))
                dl = set(map(id, loops(sc, d))) if d is not None else set()
                for i, a in enumerate(con):
                    rep = [l for l in loops(sc, a) if id(l) not in dl]
                    if rep:
                        bad = Result(rule, f'{q}: {v}', DF, f'{v} is an iterator: it is read again at each turn of the loop of line {rep[0].lineno}', (fi.module.relpath, a.lineno, q))
                    for b in con[i + 1:]:
                        if not exclusive(sc, a, b):
                            bad = Result(rule, f'{q}: {v}', DF, f'{v} is an iterator: read at line {a.lineno}, it is empty at line {b.lineno}', (fi.module.relpath, b.lineno, q))
        rs = ref.scopes.get(q)
        for a, v, n in stores(top):
            e = resolve(top, v)
            if oneshot(cur, e, top):
                bad = Result(rule, f'{q}: {a}', DF, f'the attribute {a} is an iterator, that can be read only once', (fi.module.relpath, n.lineno, q))
            elif isinstance(e, ast.Name) and e.id in top.params and rs and top.params.index(e.id) < len(rs.params) and (q, rs.params[top.params.index(e.id)]) in ITERABLES \
                    and e.id not in top.defs:
                bad = Result(rule, f'{q}: {a}', DF, f'the attribute {a} may be an iterator given by the caller, that can be read only once', (fi.module.relpath, n.lineno, q))
        if rs is not None and not fi.is_gen:
            new, old = returned(cur, top), returned(ref, rs)
            for pos, n in new.items():
                if pos not in old and (pos[0] == () or True) and old_has(ref, rs):
                    bad = bad or Result(rule, f'{q}: result', DF, 'an iterator is returned where a sequence was specified', (fi.module.relpath, n.lineno, q))
        out.append(bad or Result(rule, f'{q} ({k} iterators)', EQ, '', (fi.module.relpath, fi.node.lineno, q)))
    return out


def old_has(ref, rs):
    return any(isinstance(n, ast.Return) and n.value is not None for n in rs.nodes())


def resolve(sc, e, n=0):
    while isinstance(e, ast.Name) and n < 5 and len(sc.defs.get(e.id, [])) == 1 and sc.defs[e.id][0][0] == 'value' and e.id not in sc.params:
        e, n = sc.defs[e.id][0][1], n + 1
    return e


def returned(flow, s):
    out = {}
    for n in s.nodes():
        if isinstance(n, ast.Return) and n.value is not None:
            e = resolve(s, n.value)
            if oneshot(flow, e, s):
                out[((),)] = n
            elif isinstance(e, ast.Tuple):
                for i, x in enumerate(e.elts):
                    if oneshot(flow, resolve(s, x), s):
                        out[((i,),)] = n
    return out


# ---------------------------------------------------------------------- messages
def formats(S, names=None):
    "a tuple of another length is never given to a format"
    from .rules import Result
    import re
    rule = 'formats fit what they are given'
    cur, ref = flows(S)
    out = []
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes:
            continue
        top = cur.scopes[q]
        fi = S.cur.funcs[q]
        bad, k = None, 0
        for sc in top.all():
            for n in sc.nodes():
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                    f = resolve(sc, n.left)
                    if not (isinstance(f, ast.Constant) and isinstance(f.value, str)):
                        continue
                    k += 1
                    specs = [x for x in re.findall(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d*)(?:\.(?:\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', f.value) if x[2] != '%']
                    if any(x[0] for x in specs) or any(x[1] == '*' for x in specs):
                        continue
                    m = tuple_length(S.cur, sc, n.right)
                    if m is not None and m != len(specs):
                        bad = Result(rule, f'{q}: {f.value[:40]!r}', DF, f'{len(specs)} fields, given {"a tuple of any length" if m < 0 else m}', (fi.module.relpath, n.lineno, q))
        out.append(bad or Result(rule, f'{q} ({k} formats)', EQ, '', (fi.module.relpath, fi.node.lineno, q)))
    return out


def negated(d):
    "source of a condition and of its contrary, the same for both spellings"
    neg = False
    while isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.Not):
        d, neg = d.operand, not neg
    if isinstance(d, ast.Compare) and len(d.ops) == 1:
        flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
        if type(d.ops[0]) in flip:
            d, neg = ast.Compare(d.left, [flip[type(d.ops[0])]()], d.comparators), not neg
    return ast.unparse(d), neg


def exits(fn):
    "the conditions under which the loops over elements of a function go to the next element / stop"
    skip, stop = {}, {}

    def visit(body, k, node):
        for n, st in enumerate(body):
            if isinstance(st, ast.If):
                src, neg = negated(st.test)
                for blk, sign in ((st.body, neg), (st.orelse, not neg)):
                    if blk and isinstance(blk[-1], ast.Continue):
                        skip[src, sign] = st.lineno
                    elif blk and isinstance(blk[-1], (ast.Break, ast.Return)):
                        stop[src, sign] = st.lineno
                if not st.orelse and n == len(body) - 1 and body is node.body:
                    skip[src, not neg] = st.lineno
                visit(st.body, k + 1, node)
                visit(st.orelse, k + 1, node)
            elif isinstance(st, (ast.With, ast.Try)):
                visit(st.body, k + 1, node)
    for x in ast.walk(fn):
        if isinstance(x, ast.For):
            visit(x.body, 0, x)
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in x.generators:
                for c in g.ifs:
                    src, neg = negated(c)
                    skip[src, not neg] = c.lineno
    return skip, stop


def early_exit(S, names=None):
    "an element to be passed over does not end the loop"
    from .rules import Result
    rule = 'an element passed over does not end the loop'
    cur, ref = flows(S)
    out = []
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes or q not in ref.scopes:
            continue
        fi = S.cur.funcs[q]
        skip, stop = exits(S.ref.funcs[q].node)
        s2, t2 = exits(fi.node)
        bad = [(c, l) for c, l in t2.items() if c in skip and c not in stop and (c not in s2 or len(s2) < len(skip))]
        if bad:
            (src, neg), l = bad[0]
            out.append(Result(rule, f'{q}: {src[:60]}', DF, f'the loop stops at the first element with {"not " if neg else ""}{src[:120]}: the later ones are lost', (fi.module.relpath, l, q)))
        else:
            out.append(Result(rule, f'{q} ({len(s2)} conditions)', EQ, '', (fi.module.relpath, fi.node.lineno, q)))
    return out


def carried(fn):
    "parameters that a loop reads as the previous iteration left them: {name: line}"
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    out = {}

    def reads(e, known, bad):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and n.id not in known:
                bad.setdefault(n.id, n.lineno)

    def targets(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def block(body, known, bad, sets):
        for s in body:
            if isinstance(s, (ast.If, ast.While)):
                reads(s.test, known, bad)
                k1 = block(s.body, set(known), bad, sets)
                k2 = block(s.orelse, set(known), bad, sets)
                known = known | ((k1 & k2) if isinstance(s, ast.If) else set())
            elif isinstance(s, ast.For):
                reads(s.iter, known, bad)
                sets |= targets(s.target)
                block(s.body, known | targets(s.target), bad, sets)
                block(s.orelse, set(known), bad, sets)
            elif isinstance(s, ast.Try):
                k = block(s.body, set(known), bad, sets)
                for h in s.handlers:
                    k = k & block(h.body, set(known), bad, sets)
                k = block(s.orelse, k, bad, sets)
                known = block(s.finalbody, k, bad, sets)
            elif isinstance(s, ast.With):
                for i in s.items:
                    reads(i.context_expr, known, bad)
                known = block(s.body, set(known), bad, sets)
            elif isinstance(s, ast.Assign):
                reads(s.value, known, bad)
                for t in s.targets:
                    if not isinstance(t, ast.Name):
                        reads(t, known, bad)
                    sets |= targets(t)
                    known = known | targets(t)
            elif isinstance(s, ast.AugAssign):
                reads(s.value, known, bad)
                if isinstance(s.target, ast.Name):
                    if s.target.id in params and s.target.id not in known:
                        bad.setdefault(s.target.id, s.lineno)
                    sets.add(s.target.id)
                    known = known | {s.target.id}
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                reads(s, known, bad)
        return known
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)):
            bad, sets = {}, set()
            known = targets(n.target) if isinstance(n, ast.For) else set()
            if isinstance(n, ast.While):
                reads(n.test, known, bad)
            block(n.body, set(known), bad, sets)
            for v in sets & set(bad):
                out[v] = bad[v]
    return out


def changed_params(fn):
    "parameters whose object the function itself changes (not rebound by it)"
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    rebound = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    out = {}
    for n in ast.walk(fn):
        m = mutation(n)
        # a name rebound later on may still be the parameter at the place of the change
        if isinstance(m, ast.Name) and m.id in params:
            first = min([x.lineno for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == m.id] or [1 << 30])
            if m.id not in rebound or n.lineno < first:
                out.setdefault(m.id, n.lineno)
    return out


def handed_down(S, fi):
    "[(parameter, line, callee)]: an object made outside a loop is handed to a function that changes it, by each turn"
    cur, ref = S.cur, S.ref
    out = []
    for loop in ast.walk(fi.node):
        if isinstance(loop, (ast.For, ast.While)):
            body, inside = loop.body, {n.id for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if isinstance(loop, ast.For):
                inside |= {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        elif isinstance(loop, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            body, inside = [loop.elt], {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        else:
            continue
        for b in body:
            for c in ast.walk(b):
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name)):
                    continue
                g = fi.module.globals.get(c.func.id)
                if not g or g[0] != 'func':
                    continue
                g = g[1]
                ch = changed_params(g.node)
                if g.qual not in ref.funcs:
                    continue
                old = set(changed_params(ref.funcs[g.qual].node))
                pos = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                for prm, a in list(zip(pos, c.args)) + [(k.arg, k.value) for k in c.keywords]:
                    if prm in ch and prm not in old and isinstance(a, ast.Name) and a.id not in inside:
                        out.append((prm, ch[prm], g))
    return out


def per_element(S, names=None):
    "each element is treated with the arguments of the call, not with what the treatment of another one made of them"
    from .rules import Result
    from . import prove
    rule = 'an argument means the same for every element of a loop'
    cur, ref = flows(S)
    out = []
    for q in sorted(names if names is not None else cur.scopes):
        if q not in cur.scopes or q not in ref.scopes:
            continue
        fi = S.cur.funcs[q]
        new = {v: l for v, l in carried(fi.node).items() if v not in carried(S.ref.funcs[q].node)}
        down = handed_down(S, fi)
        if down and any(f.status != EQ for f in S.check(prove.Obl(q, 'ret'))):
            v, l, g = down[0]
            out.append(Result(rule, f'{q}: {g.qual} {v}', DF, f'{g.qual} changes its parameter {v}, the same object for every element of the loop', (g.module.relpath, l, g.qual)))
        elif new and any(f.status != EQ for f in S.check(prove.Obl(q, 'ret'))):
            v, l = sorted(new.items())[0]
            out.append(Result(rule, f'{q}: {v}', DF, f'parameter {v} is rebound within the loop and read again by the next element', (fi.module.relpath, l, q)))
        else:
            out.append(Result(rule, q, EQ, '', (fi.module.relpath, fi.node.lineno, q)))
    return out


def tuple_length(prog, sc, e):
    "length of an expression known to be a tuple (-1: any), None when it may be something else"
    if isinstance(e, ast.Tuple):
        return None if any(isinstance(x, ast.Starred) for x in e.elts) else len(e.elts)
    if isinstance(e, ast.Call):
        nm = callee(e)
        if nm in ('tuple',):
            return -1
        if isinstance(e.func, ast.Name) and nm in sc.module.globals and sc.module.globals[nm][0] == 'func':
            g = sc.module.globals[nm][1]
            rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
            if rets and all(isinstance(r, ast.Tuple) or isinstance(r, ast.Call) and callee(r) == 'tuple' for r in rets):
                return -1
        return None
    if isinstance(e, ast.Name):
        o = sc.owner(e.id)
        if o is None:
            return None
        if o.node.args.vararg and o.node.args.vararg.arg == e.id and e.id not in o.defs:
            return -1
        ds = o.defs.get(e.id, [])
        if ds and all(k == 'value' for k, _ in ds):
            ls = {tuple_length(prog, o, v) for _, v in ds if not (isinstance(v, ast.Name) and v.id == e.id)}
            # rebinding a parameter: the last unconditional definition before the use
            if e.id in o.params:
                first = [v for _, v in ds]
                if len(first) == 1 and getattr(first[0], 'lineno', 0) < e.lineno and straight(o, first[0]):
                    return tuple_length(prog, o, first[0])
                return None
            if len(ls) == 1:
                return ls.pop()
    return None


def straight(sc, v):
    "the definition is made on every path"
    p = sc.parents.get(v)
    while p is not None and p is not sc.node:
        if isinstance(p, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp)):
            return False
        p = sc.parents.get(p)
    return True


def flows(S):
    f = getattr(S, '_flows', None)
    if f is None:
        f = S._flows = (Flow(S.cur), Flow(S.ref))
    return f


LIFETIME = [hidden_state, ownership, read_once, formats, early_exit, per_element]
