"""Abstract interpreter: Python AST -> value-graph terms (gated SSA by construction).

Nothing is executed: every expression is evaluated to a Node of terms.py, branches are
merged with `ite`, loops are summarised in closed form (map / filter-map / concat / sum /
dict-map / last value / running sum) or, failing that, as an explicit `fold` term.
Constructs outside the fragment become `opaque` terms; a rule that meets an opaque term
answers "undecided", never "violated".
"""
import ast
import contextlib
from .terms import *
from . import terms as T
from .loader import FuncInfo, ClassInfo, AnalysisBroken, own_nodes

MAXUNROLL = 10


class Budget(Exception):
    pass


class Event:
    def __init__(self, kind, cond, data, loc, binders, facts=(), chain=()):
        self.kind, self.cond, self.data, self.loc, self.binders = kind, cond, data, loc, binders
        self.facts, self.chain = facts, chain

    def __repr__(self):
        return f'<{self.kind} {self.loc} if {self.cond}: {self.data}>'


class State:
    __slots__ = ('vars', 'heap', 'pc', 'facts')

    def __init__(self, vars=None, heap=None, pc=(), facts=()):
        self.vars, self.heap, self.pc, self.facts = vars or {}, heap or {}, pc, facts

    def clone(self):
        return State(dict(self.vars), dict(self.heap), self.pc, self.facts)

    def with_(self, c):
        s = self.clone()
        if c is not TRUE:
            s.pc = s.pc + (c,)
        return s


class Flow:
    __slots__ = ('normal', 'returns', 'breaks', 'continues', 'raises')

    def __init__(self, normal=None):
        self.normal, self.returns, self.breaks, self.continues, self.raises = normal, [], [], [], []

    def absorb(self, o):
        self.returns += o.returns
        self.breaks += o.breaks
        self.continues += o.continues
        self.raises += o.raises


class Frame:
    _n = 0

    def __init__(self, parent, func, module, cls=None, locals_=(), stack=()):
        Frame._n += 1
        self.id = Frame._n
        self.parent, self.func, self.module, self.cls = parent, func, module, cls
        self.locals = set(locals_)
        self.stack = stack
        self.nonlocals = set()


class Closure:
    def __init__(self, node, frame, name, info):
        self.node, self.frame, self.name, self.info = node, frame, name, info


SCALARS = {'int', 'num', 'bool', 'str', 'bytes', 'none', 'file'}
CHANGING_CALLS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'shuffle', 'put_along_axis', 'at'}
_inplace = {}


_counting = {}


def counting(w):
    "`while i < n: ...; i += 1` where nothing else moves i or n: the for loop it is"
    if w in _counting:
        return _counting[w]
    _counting[w] = None
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)) or w.orelse or len(w.body) < 2:
        return None
    i, last = t.left.id, w.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i
            and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    ass = assigned_in(w.body[:-1])
    bound = t.comparators[0]
    if isinstance(bound, ast.Call) and isinstance(bound.func, ast.Name) and bound.func.id == 'len' and len(bound.args) == 1:
        x = bound.args[0]
    else:
        x = bound
    if not isinstance(x, (ast.Name, ast.Attribute, ast.Constant)) or i in ass or free_names(x) & ass:
        return None
    for n in ast.walk(ast.Module(w.body[:-1], [])):
        if isinstance(n, (ast.Continue, ast.Break)):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ITEM_MUTATORS and root_name(n.func.value) in free_names(x):
            return None
        if isinstance(n, ast.Delete):
            return None
    call = ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), bound], [])
    f = ast.For(ast.Name(i, ast.Store()), call, w.body[:-1], [], None)
    ast.copy_location(f, w)
    for n in ast.walk(f):
        ast.copy_location(n, w) if not hasattr(n, 'lineno') else None
    ast.fix_missing_locations(f)
    _counting[w] = f
    return f


def simple_path(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Subscript) and any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) and
                                                not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len')
                                                for x in ast.walk(e.slice)):
            return False
        e = e.value
    return isinstance(e, ast.Name)


def root_name(e):
    while True:
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            e = e.func.value
        else:
            return e.id if isinstance(e, ast.Name) else None


def inplace_names(fn):
    "names through which a function changes objects in place: surely, or if they designate arrays"
    r = _inplace.get(fn)
    if r is None:
        sure, maybe = set(), set()
        for n in ast.walk(fn):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript):
                        sure.add(root_name(x))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                maybe.add(n.target.id)
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if isinstance(n.func, ast.Attribute) and nm in ITEM_MUTATORS | {'fill', 'put', 'setdefault', 'popitem', 'resize', 'itemset'}:
                    sure.add(root_name(n.func.value))
                if nm in CHANGING_CALLS and n.args:
                    sure.add(root_name(n.args[0]))
                for k in n.keywords:
                    if k.arg == 'out':
                        sure.add(root_name(k.value))
                if isinstance(n.func, ast.Name):
                    # a helper that may change what it is given
                    maybe.update(a.id for a in n.args if isinstance(a, ast.Name))
        r = _inplace[fn] = (sure - {None}, maybe)
    return r


def local_names(fn):
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    glob = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    # comprehension targets live in their own scope
    return names - glob


def free_names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def assigned_in(stmts):
    out = set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        st.extend(ast.iter_child_nodes(n))
    return out


class Args:
    "evaluated call arguments"

    def __init__(self, pos=(), kw=None, star=None, starkw=None):
        self.pos = list(pos)          # Node or ('*', Node)
        self.kw = dict(kw or {})
        self.starkw = list(starkw or [])

    def plain(self):
        return not any(isinstance(p, tuple) for p in self.pos) and not self.starkw


def exception_names(t):
    "exception types a handler catches; None: everything an operation may raise"
    if t is None:
        return None
    out = set()
    for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
        n = ast.unparse(e).split('.')[-1]
        n = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'WindowsError': 'OSError'}.get(n, n)
        if n in ('Exception', 'BaseException'):
            return None
        out.add(n)
    return ' '.join(sorted(out))


class Interp:
    def __init__(self, prog, contracts=(), maxdepth=24, budget=400000):
        self.prog = prog
        self.contracts = set(contracts)
        self.expanding = []
        self.events = []
        self.loops = []
        self.closures = {}
        self.nref = 0
        self.ntry = 0
        self.binders = []
        self.quiet = 0
        self.partials = {}
        self.parts = []          # (reference, container, key) of elements held by a name
        self.maxdepth = maxdepth
        self.budget = budget
        self.loc = ('?', 0)
        self.visited = set()
        self.mayraise = None
        self.globcache = {}
        self.callchain = []
        self.visited_lines = set()
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------ utilities

    @contextlib.contextmanager
    def under_binder(self, n, bv, c, carried=()):
        "evaluate the body of a functional loop: events inside are quantified over bv"
        self.binders.append((n, bv, c))
        mark = len(self.events)
        try:
            yield
        finally:
            self.binders.pop()
            if carried:
                m = {v: mk('lv', 'carried%d' % j) for j, v in enumerate(carried)}
                for v, w in m.items():
                    if v in SYMKIND:
                        SYMKIND[w] = SYMKIND[v]
                for e in self.events[mark:]:
                    e.cond, e.data = subst(e.cond, m), subst(e.data, m)
                    e.binders = tuple((subst(a, m), b, subst(x, m)) for a, b, x in e.binders)

    def event(self, kind, st, data):
        if self.quiet:
            return
        self.events.append(Event(kind, and_(*st.pc), data, self.loc, tuple(self.binders), st.facts,
                                 tuple(self.callchain)))

    def opaque(self, desc):
        return mk('opaque', str(desc))

    def newref(self, st, content, tag='list'):
        self.nref += 1
        r = mk('ref', self.nref)
        st.heap[r] = content
        st.heap[('tag', r)] = tag
        return r

    def val(self, n, st):
        "contents of a reference (one level)"
        g = 0
        while isinstance(n, Node) and n.op == 'ref' and n in st.heap and g < 5:
            n = st.heap[n]
            g += 1
        if isinstance(n, Node) and n.op == 'ite':
            a, b = self.val(n.args[1], st), self.val(n.args[2], st)
            if a is not n.args[1] or b is not n.args[2]:
                return ite(n.args[0], a, b)
        return n

    def freeze(self, n, st, _depth=0):
        "replace references by their current contents, closures by lambda terms"
        if not isinstance(n, Node):
            return n
        if _depth > 12:
            return n
        seen = {}
        has = [x for x in nodes(n) if x.op in ('ref', 'clo')]
        if not has:
            return n
        m = {}
        for x in has:
            if x.op == 'ref' and x in st.heap:
                m[x] = self.freeze(st.heap[x], st, _depth + 1)
            elif x.op == 'clo':
                m[x] = self.closure_term(x, st)
        if not m:
            return n
        return subst(n, m)

    def closure_term(self, c, st):
        key = c.args[0]
        cl = self.closures[key]
        a = cl.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            return c
        if getattr(cl, 'busy', False):
            return c
        if isinstance(cl.node, ast.FunctionDef) and cl.info.is_gen:
            return c
        names = [x.arg for x in a.args]
        ndef = len(a.defaults)
        bvs = [fresh_bv() for _ in names]
        cl.busy = True
        self.quiet += 1
        try:
            s2 = st.clone()
            v = self.call_closure(c, Args(pos=bvs), s2, checks=False)
            v = self.freeze(v, s2)
        except Budget:
            raise
        finally:
            self.quiet -= 1
            cl.busy = False
        for b in reversed(bvs):
            v = close_lam(v, b)
        if ndef:
            return mk('lamd', v, seq(*[self.freeze(d, st) for d in getattr(cl, 'defaults', ())]))
        return v

    def k(self, n, st):
        return kind(self.val(n, st))

    def merge2(self, c, a, b, base):
        "merge two normal states that came from branching on c"
        if a is None:
            return b
        if b is None:
            return a
        r = State()
        for key in list(a.vars) + [x for x in b.vars if x not in a.vars]:
            x, y = a.vars.get(key, UNBOUND), b.vars.get(key, UNBOUND)
            r.vars[key] = x if x is y else ite(c, x, y)
        for key in list(a.heap) + [x for x in b.heap if x not in a.heap]:
            x, y = a.heap.get(key), b.heap.get(key)
            if x is None or y is None:
                if isinstance(key, tuple) and key[0] == 'attr' and (x is None or y is None):
                    other = mk('attr', key[1], key[2])
                    r.heap[key] = ite(c, x if x is not None else other, y if y is not None else other)
                else:
                    r.heap[key] = x if x is not None else y
            elif x is y or not isinstance(x, Node):
                r.heap[key] = x
            else:
                r.heap[key] = ite(c, x, y)
        n = len(base)
        e1, e2 = and_(*a.pc[n:]), and_(*b.pc[n:])
        e = or_(e1, e2)
        if e1 is c and e2 is not_(c):
            e = TRUE
        r.pc = base + ((e,) if e is not TRUE else ())
        fa, fb = set(a.facts), set(b.facts)
        r.facts = tuple(f for f in a.facts if f in fb)
        return r

    def mergen(self, items, base):
        """merge [(State, value)] of mutually exclusive paths -> (State, value)"""
        if not items:
            return None, None
        # put path whose value/cond is the default last
        acc_s, acc_v = items[-1]
        acc_s = acc_s.clone()
        n = len(base)
        for s, v in reversed(items[:-1]):
            c = and_(*s.pc[n:])
            c = self.simp(c, acc_s.facts)
            m = self.merge2(c, s, acc_s, base)
            acc_v = v if v is acc_v else ite(c, v, acc_v)
            acc_s = m
        return acc_s, acc_v

    def simp(self, c, facts):
        if c.op in ('const',):
            return c
        fs = set(facts)
        if c in fs:
            return TRUE
        if not_(c) in fs:
            return FALSE
        if c.op == 'and':
            return and_(*[self.simp(x, facts) for x in c.args])
        if c.op == 'or':
            return or_(*[self.simp(x, facts) for x in c.args])
        return c

    def decide(self, c, st):
        "simplify a condition with path facts"
        if c.op == 'const':
            return c
        fs = set(st.facts)
        for p in st.pc:
            fs.add(p)
            if p.op == 'and':
                fs.update(p.args)
        return self.simp(c, tuple(fs))

    # ------------------------------------------------------------ running

    def run(self, fi, args=None, selfval=None, state=None):
        "interpret function fi with symbolic args; args: dict name -> Node"
        st = state or State()
        bound = dict(args or {})
        a = fi.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            allp.append(a.vararg.arg)
        if a.kwarg:
            allp.append(a.kwarg.arg)
        for p in allp:
            if p not in bound:
                bound[p] = mk('sym', p)
        v, st2 = self.invoke(fi, bound, st, None)
        if st2 is not None:
            v = self.freeze(v, st2)
        return v, st2

    def invoke(self, fi, bound, st, parent_frame):
        "inline a function: bound maps param -> Node.  returns (value, state) ; state None = never returns"
        self.budget -= 1
        if self.budget < 0 or len(self.callchain) > self.maxdepth:
            raise Budget(f'budget exhausted in {fi.qual}')
        node = fi.node
        fr = Frame(parent_frame, fi, fi.module, fi.cls, local_names(node) if not isinstance(node, ast.Lambda) else
                   {x.arg for x in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
                   | ({node.args.vararg.arg} if node.args.vararg else set()))
        for n in own_nodes(node):
            if isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
        self.visited.add(fi.qual)
        for p, v in bound.items():
            st.vars[(fr.id, p)] = v
        base = st.pc
        saved = self.loc
        self.callchain.append(fi.qual)
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, st, fr)
                return v, st
            if fi.is_gen:
                yref = self.newref(st, seq(), 'gen')
                st.vars[(fr.id, '<yield>')] = yref
                fr.locals.add('<yield>')
            flow = self.exec_block(node.body, st, fr)
            rets = list(flow.returns)
            if flow.normal is not None:
                rets.append((flow.normal, NONE))
            if flow.breaks or flow.continues:
                return self.opaque('stray break'), st
            if not rets:
                return mk('noreturn'), None
            s, v = self.mergen(rets, base)
            if fi.is_gen:
                v = self.freeze(s.heap[yref], s)
                s.heap.pop(yref, None)
            s.pc = base
            # locals of the finished frame stay visible to its closures only
            return v, s
        finally:
            self.callchain.pop()
            self.loc = saved

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st, fr):
        out = Flow()
        cur = st
        for s in stmts:
            if cur is None:
                break
            f = self.exec(s, cur, fr)
            out.absorb(f)
            cur = f.normal
        out.normal = cur
        return out

    def exec(self, s, st, fr):
        self.budget -= 1
        if self.budget < 0:
            raise Budget('budget')
        if hasattr(s, 'lineno'):
            self.loc = (fr.module.relpath, s.lineno, fr.func.qual if fr.func else '?')
            self.visited_lines.add((fr.module.relpath, s.lineno))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.event('opaque', st, mk('const', type(s).__name__))
            for n in assigned_in([s]):
                st.vars[(fr.id, n)] = self.opaque(type(s).__name__)
            return Flow(st)
        try:
            f = m(s, st, fr)
        except NoReturn:
            f = Flow(None)
            return f
        if self.parts:
            for x in ([f.normal] if f.normal is not None else []) + f.breaks + f.continues + [r[0] for r in f.returns]:
                self.sync(x)
        return f

    # ------------------------------------------------------------ elements of local containers, held by name

    def part(self, cont, key, elem, st):
        "a reference standing for the element cont[key], so that what is done to it in place is written back"
        k = kind(elem)
        if elem.op == 'ref' or k in SCALARS or isinstance(k, tuple) and k[0] == 'obj' or elem.op in ('const', 'func', 'clo', 'cls', 'ext'):
            return elem
        tag = {'seq': 'list', 'dict': 'dict', 'set': 'set'}.get(k[0], 'item') if isinstance(k, tuple) else 'array' if k == 'array' else 'item'
        p = self.newref(st, elem, tag)
        st.heap[('snap', p)] = elem
        self.parts.append((p, cont, key))
        return p

    def sync(self, st):
        for p, cont, key in reversed(self.parts):
            new = st.heap.get(p)
            if new is not None and new is not st.heap.get(('snap', p)):
                st.heap[('snap', p)] = new
                self.quiet += 1
                try:
                    self.setitem(cont, key, self.freeze(new, st), st)
                finally:
                    self.quiet -= 1

    def plain_container(self, v, st):
        "a list or dict made by the function under analysis"
        return isinstance(v, Node) and v.op == 'ref' and st.heap.get(('tag', v)) in ('list', 'dict', 'item') and isinstance(kind(self.val(v, st)), tuple)

    def held(self, name, fr, elem):
        "is the variable changed in place by the function?"
        f = fr
        while f is not None and f.func is None:
            f = f.parent
        if f is None:
            return False
        h = inplace_names(f.func.node)
        return name in h[0] or name in h[1] and (kind(elem) == 'array' or elem.op in ('fill', 'store', 'storev', 'arr', 'scatter'))

    def hold(self, t, v, e, st, fr):
        "assignment of the value v of the expression e to the name t: an element of a local container stays one"
        if v.op == 'ref' or not isinstance(e, ast.Subscript) or isinstance(e.slice, ast.Slice) or not self.held(t.id, fr, v):
            return v
        self.quiet += 1
        try:
            cont = self.eval(e.value, st, fr) if simple_path(e.value) else None
            if cont is None or not self.plain_container(cont, st):
                return v
            i = self.eval_index(e.slice, st, fr)
        finally:
            self.quiet -= 1
        return self.part(cont, self.freeze(i, st), v, st)

    def hold_elements(self, s, n, bv, c0, st, fr):
        "loop variables that are elements of local containers, where the body changes them in place"
        def one(t, it, cn, key):
            if not isinstance(t, ast.Name) or not simple_path(it):
                return
            v = st.vars.get((fr.id, t.id))
            if v is None or not self.held(t.id, fr, v):
                return
            self.quiet += 1
            try:
                cont = self.eval(it, st, fr)
            finally:
                self.quiet -= 1
            if self.plain_container(cont, st) and kind(self.val(cont, st))[0] == cn:
                st.vars[(fr.id, t.id)] = self.part(cont, key(cont), v, st)
        it, t = s.iter, s.target
        if c0 is not TRUE:
            return
        pos = lambda c: bv
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and it.args:
            return one(t.elts[1], it.args[0], 'seq', pos)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            for a, b in zip(t.elts, it.args):
                one(a, b, 'seq', pos)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args and it.func.attr in ('values', 'items'):
            dkey = lambda c: index(self.ext.keys_of(self.freeze(c, st)), bv)
            if it.func.attr == 'values':
                return one(t, it.func.value, 'dict', dkey)
            if isinstance(t, ast.Tuple) and len(t.elts) == 2:
                k = st.vars.get((fr.id, t.elts[0].id)) if isinstance(t.elts[0], ast.Name) else None
                return one(t.elts[1], it.func.value, 'dict', (lambda c: self.freeze(k, st)) if k is not None else dkey)
            return
        one(t, it, 'seq', pos)

    def x_Pass(self, s, st, fr):
        return Flow(st)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Flow(st)
        self.eval(s.value, st, fr)
        return Flow(st)

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value else NONE
        f = Flow()
        f.returns.append((st, v))
        return f

    def x_Break(self, s, st, fr):
        f = Flow()
        f.breaks.append(st)
        return f

    def x_Continue(self, s, st, fr):
        f = Flow()
        f.continues.append(st)
        return f

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            e = mk('reraise')
        else:
            e = self.freeze(self.eval(s.exc, st, fr), st)
        if s.cause is not None:
            self.eval(s.cause, st, fr)
        self.event('raise', st, e)
        f = Flow()
        f.raises.append((st, e))
        return f

    def x_Assert(self, s, st, fr):
        c = truthy(self.freeze(self.eval(s.test, st, fr), st))
        self.event('assert', st, c)
        if c is not TRUE and c is not FALSE:
            st.facts = st.facts + ((c,) if c.op != 'and' else c.args)
        return Flow(st)

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            if isinstance(t, ast.Name) and isinstance(v, Node):
                v = self.hold(t, v, s.value, st, fr)
            self.assign(t, v, st, fr)
        return Flow(st)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return Flow(st)

    def x_AugAssign(self, s, st, fr):
        cur = self.eval(_as_load(s.target), st, fr)
        rhs = self.eval(s.value, st, fr)
        c = self.val(cur, st)
        k = kind(c)
        new = self.binop(s.op, cur, rhs, st)
        if cur.op == 'ref' and isinstance(k, tuple) and k[0] in ('seq', 'set', 'dict') and \
                isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)) and st.heap.get(('tag', cur)) in ('list', 'set', 'dict'):
            nv = self.val(new, st)
            if not (isinstance(s.op, ast.Add) and isinstance(k, tuple) and k[0] == 'seq' and st.heap.get(('tag', cur)) != 'list'):
                self.mutate(cur, nv, st, 'inplace')
                return Flow(st)
        if k in ('int', 'num', 'bool', 'str', 'bytes') or (isinstance(k, tuple) and k[0] == 'obj') or cur.op != 'ref' and self.is_tuple(cur, st):
            self.assign(s.target, new, st, fr)
            return Flow(st)
        if isinstance(k, tuple) and k[0] == 'seq' and cur.op != 'ref':
            # immutable sequence or list of unknown origin
            self.event('mutate', st, seq(self.freeze(cur, st), const('inplace-seq')))
            self.assign(s.target, new, st, fr)
            return Flow(st)
        # array (or unknown): in-place on the object
        self.event('mutate', st, seq(self.freeze(cur, st), const('inplace')))
        nv = self.val(new, st)
        if cur.op == 'ref':
            st.heap[cur] = nv
        elif isinstance(s.target, ast.Name):
            self.overwrite(cur, nv, st)
        else:
            self.replace_alias(cur, nv, st)
        self.assign(s.target, cur if cur.op == 'ref' else nv, st, fr)
        return Flow(st)

    def is_tuple(self, x, st, known=()):
        "certainly a tuple, changed by making another"
        if x.op == 'ite':
            c = x.args[0]
            return self.is_tuple(x.args[1], st, known + (c,)) and self.is_tuple(x.args[2], st, known + (not_(c),))
        return x.op == 'seq' or any(c.op == 'isinstance' and c.args[0] is x and 'tuple' in show(c.args[1]) and 'list' not in show(c.args[1])
                                    for c in known + tuple(st.facts))

    def overwrite(self, cur, nv, st):
        "the array cur takes the contents nv, in place"
        if cur.op == 'ref':
            st.heap[cur] = nv
            return
        root, path = self.view_root(cur, st)
        if root is not None and root.op == 'ref':
            if path.op == 'idx' and path.args[0].op == 'hole':
                self.quiet += 1
                try:
                    self.setitem(root, path.args[1], nv, st)
                finally:
                    self.quiet -= 1
            else:
                st.heap[root] = mk('storev', st.heap[root], path, slice_(NONE, NONE, NONE), nv)
            st.heap[('view', nv)] = (root, path)
        self.replace_alias(cur, nv, st)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars[(fr.id, t.id)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                k = kind(self.val(o, st))
                if isinstance(k, tuple) and k[0] == 'obj':
                    o_ = self.val(o, st)
                    self.event('mutate', st, seq(self.freeze(o_, st), const('delitem'), self.freeze(i, st)))
                    base = o_.args[0] if o_.op == 'attr' else None
                    if self.made_here(o_):
                        self.replace_alias(o_, mk('upd', o_, '', self.freeze(i, st), mk('required')), st)
                    elif base is not None and self.made_here(base):
                        self.replace_alias(base, mk('upd', base, o_.args[1], self.freeze(i, st), mk('required')), st)
                    continue
                self.event('mutate', st, seq(self.freeze(o, st), const('delitem')))
                nv = mk('delitem', self.val(o, st), self.freeze(i, st))
                if o.op == 'ref':
                    st.heap[o] = nv
                else:
                    self.replace_alias(o, nv, st)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.event('mutate', st, seq(self.freeze(o, st), const('delattr:' + t.attr)))
        return Flow(st)

    def x_Global(self, s, st, fr):
        return Flow(st)

    x_Nonlocal = x_Global

    def x_Import(self, s, st, fr):
        for al in s.names:
            if al.asname:
                st.vars[(fr.id, al.asname)] = mk('ext', al.name)
            else:
                st.vars[(fr.id, al.name.split('.')[0])] = mk('ext', al.name.split('.')[0])
        return Flow(st)

    def x_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            base = fr.module._pkg(s.level) + ('.' + s.module if s.module else '')
        for al in s.names:
            st.vars[(fr.id, al.asname or al.name)] = self.resolve_ext(base + '.' + al.name)
        return Flow(st)

    def x_FunctionDef(self, s, st, fr):
        st.vars[(fr.id, s.name)] = self.make_closure(s, st, fr)
        for d in s.decorator_list:
            st.vars[(fr.id, s.name)] = mk('call', 'decorated', const(ast.unparse(d)), st.vars[(fr.id, s.name)])
        return Flow(st)

    def x_ClassDef(self, s, st, fr):
        st.vars[(fr.id, s.name)] = mk('localcls', s.name)
        return Flow(st)

    def x_If(self, s, st, fr):
        c = truthy(self.freeze(self.eval(s.test, st, fr), st))
        c = self.decide(c, st)
        if c is TRUE:
            return self.exec_block(s.body, st, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fr)
        base = st.pc
        f1 = self.exec_block(s.body, st.with_(c), fr)
        f2 = self.exec_block(s.orelse, st.with_(not_(c)), fr)
        out = Flow()
        out.absorb(f1)
        out.absorb(f2)
        out.normal = self.merge2(c, f1.normal, f2.normal, base)
        for a, b, cc in ((f1, f2, not_(c)), (f2, f1, c)):
            if a.normal is None and b.normal is not None and not (a.returns or a.breaks or a.continues):
                # the other branch only raises: its negation is a fact, not a path condition
                n = len(base)
                rest = b.normal.pc[n:]
                b.normal.pc = base + tuple(x for x in rest if x is not cc)
                b.normal.facts = b.normal.facts + (cc.args if cc.op == 'and' else (cc,))
        return out

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            self.event('with', st, self.freeze(v, st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        base = st.pc
        entry = st.clone()
        self.ntry += 1
        saved = self.mayraise
        self.mayraise = []
        self.event('try', st, const('all' if any(exception_names(h.type) is None for h in s.handlers) else 'some'))
        nev = len(self.events)
        f = self.exec_block(s.body, st, fr)
        mr, self.mayraise = self.mayraise, saved
        body_events = self.events[nev:]
        precise = mr and all(x[0] == 'exact' for x in mr) and not any(
            e.kind in ('extcall', 'ccall') for e in body_events)
        if precise:
            rc = or_(*[x[2] for x in mr])
        else:
            lab = self.ntry
            calls = []
            for e in body_events:
                if e.kind == 'ccall' and e.data not in calls:
                    calls.append(e.data)
            names = sorted({str(x.args[0]) for x in calls})
            if calls:
                rc = mk('raised', seq(*calls))
            else:
                ext_ = []
                for e in body_events:
                    if e.kind == 'extcall' and e.data not in ext_:
                        ext_.append(e.data)
                rc = mk('raised', seq(*ext_) if ext_ else const(str(lab)))
        self.event('endtry', entry, const(self.ntry))
        out = Flow()
        out.returns += f.returns
        out.breaks += f.breaks
        out.continues += f.continues
        norm = f.normal
        if norm is not None and s.orelse:
            if s.handlers and rc is not FALSE and norm.pc[:len(base)] == base:
                norm.pc = base + (not_(rc),) + norm.pc[len(base):]
            f2 = self.exec_block(s.orelse, norm, fr)
            out.absorb(f2)
            norm = f2.normal
        hn = None
        if s.handlers and rc is not FALSE:
            # state in handlers: entry state, variables assigned by the body unknown
            hst = entry.clone()
            for n in assigned_in(s.body):
                if (fr.id, n) in st.vars or True:
                    hst.vars[(fr.id, n)] = mk('partial', entry.vars.get((fr.id, n), UNBOUND))
            hs, hcs = [], []
            for i, h in enumerate(s.handlers):
                names = exception_names(h.type)
                hc = rc if names is None or precise and len(s.handlers) == 1 else and_(rc, mk('exctype', names))
                hcs.append(hc)
                hstate = hst.with_(hc)
                if h.name:
                    hstate.vars[(fr.id, h.name)] = mk('exc', ast.unparse(h.type) if h.type else '*')
                self.event('handler', hstate, const((ast.unparse(h.type) if h.type else '*')))
                fh = self.exec_block(h.body, hstate, fr)
                if fh.raises:
                    out.raises += fh.raises
                out.returns += fh.returns
                out.breaks += fh.breaks
                out.continues += fh.continues
                if fh.normal is not None:
                    hs.append((fh.normal, NONE))
            if hs:
                hn, _ = self.mergen(hs, base)
            others = out.returns + out.breaks + out.continues
            if len(hcs) == 1:
                rc = hcs[0]         # any other exception is not seen here: after the statement there was none, or one of these
            if norm is not None:
                if hn is not None:
                    out.normal = self.merge2(rc, hn, norm.with_(not_(rc)) if norm.pc == base else norm, base)
                    if out.normal.pc != base:
                        out.normal.pc = base
                elif any(True for h in s.handlers) and others:
                    # handler returned: remaining path is under not raised
                    norm.pc = base + (not_(rc),) + norm.pc[len(base):] if rc is not FALSE else norm.pc
                    out.normal = norm
                else:
                    norm.facts = norm.facts + (not_(rc),)
                    out.normal = norm
            else:
                # body returned (or raised)
                out.returns = [((r[0].with_(not_(rc)) if r in f.returns and r[0].pc == base else r[0]), r[1])
                               for r in out.returns]
                out.normal = hn
        else:
            out.normal = norm
        if s.finalbody:
            if out.normal is not None:
                ff = self.exec_block(s.finalbody, out.normal, fr)
                out.normal = ff.normal
                out.returns += ff.returns
            else:
                rr = []
                for (rs, rv) in out.returns:
                    ff = self.exec_block(s.finalbody, rs, fr)
                    rr.append((ff.normal or rs, rv))
                out.returns = rr
        return out

    # ------------------------------------------------------------ assignment

    def frame_of(self, name, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
        while f is not None:
            if name in f.locals:
                return f
            f = f.parent
        return fr

    def setvar(self, name, v, st, fr):
        f = self.frame_of(name, fr) if name in fr.nonlocals or name not in fr.locals else fr
        st.vars[(f.id, name)] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            c = self.iterable(v, st)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for j in range(i):
                    self.assign(t.elts[j], index(c, const(j)), st, fr)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], index(c, const(j - after)), st, fr)
                mid = index(c, slice_(const(i), const(-after) if after else NONE, NONE))
                self.assign(t.elts[i].value, self.newref(st, mid), st, fr)
            else:
                for j, e in enumerate(t.elts):
                    self.assign(e, self.unpack(c, j, len(t.elts), st), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = attr = None
            if isinstance(t.value, ast.Attribute):
                base, attr = self.eval(t.value.value, st, fr), t.value.attr
                o = self.getattr(base, attr, st)
                base = self.val(base, st)
            elif isinstance(t.value, ast.Subscript) and not isinstance(t.value.slice, ast.Slice) and simple_path(t.value):
                mark = len(self.parts)
                o = self.place(t.value, st, fr)
                self.setitem(o, self.eval_index(t.slice, st, fr), v, st)
                self.sync(st)
                del self.parts[mark:]
                return
            else:
                o = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            self.setitem(o, i, v, st, base, attr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def place(self, e, st, fr):
        "the value of a path, an element of a local container as a part of it"
        if not isinstance(e, ast.Subscript) or isinstance(e.slice, ast.Slice):
            return self.eval(e, st, fr)
        cont = self.place(e.value, st, fr)
        i = self.eval_index(e.slice, st, fr)
        v = self.getitem(cont, i, st)
        return self.part(cont, self.freeze(i, st), v, st) if self.plain_container(cont, st) else v

    def unpack(self, c, j, n, st):
        if c.op == 'seq' and len(c.args) == n:
            return c.args[j]
        while c.op in ('listof', 'sorted') and n == 1:
            c = c.args[0]
        if n == 1 and kind(c) and kind(c)[0] == 'set' and c.op != 'setseq':
            c = mk('setseq', c)
        if n == 1 and c.op == 'setseq':
            one = eq(length(c.args[0]), ONE)
            self.event('assert', st, one)
            if one not in (TRUE, FALSE):
                st.facts = st.facts + (one,)
            return mk('anyof', c.args[0])       # the only one: no order among them
        return index(c, const(j))

    def setattr(self, o, name, v, st):
        o_ = self.val(o, st)
        k = kind(o_)
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] in self.prog.classes:
            for c in self.prog.mro(k[1]):
                if name in c.setters:
                    fi = c.setters[name]
                    ps = fi.params()
                    self.event('setprop', st, seq(o_, const(name), self.freeze(v, st)))
                    if fi.qual in self.contracts:
                        return
                    r, s2 = self.invoke(fi, {ps[0]: o_, ps[1]: v}, st, None)
                    if s2 is None:
                        raise NoReturn()
                    self.copy_state(st, s2)
                    return
            if k[1] in ('Tags', 'TagsBase') and not name.startswith('_'):
                self.event('mutate', st, seq(self.freeze(o_, st), const('setattr:' + name)))
        self.event('setattr', st, seq(self.freeze(o_, st), const(name), self.freeze(v, st)))
        if self.made_here(o_) and isinstance(k, tuple) and k[0] == 'obj':
            self.replace_alias(o, mk('updattr', o_, name, self.freeze(v, st)), st)
            return
        st.heap[('attr', o_, name)] = v

    def made_here(self, o):
        "an object that reached the function as the result of a call: what is written into it is part of its value"
        return isinstance(o, Node) and o.op in ('ccall', 'new', 'mcall', 'upd', 'updattr', 'lv', 'fold', 'foldat') and o not in self.expanding

    def copy_state(self, dst, src):
        if dst is src:
            return
        dst.vars, dst.heap, dst.pc, dst.facts = src.vars, src.heap, src.pc, src.facts

    def mutate(self, ref, new, st, how):
        "update contents of a reference"
        self.event('mutate', st, seq(ref, const(how)))
        st.heap[ref] = new

    def replace_alias(self, old, new, st):
        if old.op in ('const', 'bv', 'bv?'):
            return
        for key, v in list(st.vars.items()):
            if v is old:
                st.vars[key] = new
        for key, v in list(st.heap.items()):
            if v is old and not isinstance(key, Node):
                st.heap[key] = new

    def setitem(self, o, i, v, st, base=None, attr=None):
        o_ = self.val(o, st)
        k = kind(o_)
        fi_ = self.freeze(i, st)
        if isinstance(k, tuple) and k[0] == 'obj':
            fv = self.freeze(v, st)
            self.event('mutate', st, seq(self.freeze(o_, st), const('setitem'), fi_, fv))
            if self.made_here(o_):
                self.replace_alias(o, mk('upd', o_, '', fi_, fv), st)
            elif o_.op == 'attr' and self.made_here(o_.args[0]):
                self.replace_alias(o_.args[0], mk('upd', o_.args[0], o_.args[1], fi_, fv), st)
            elif base is not None and self.made_here(base):
                self.replace_alias(base, mk('upd', base, attr, fi_, fv), st)
            else:
                st.heap[('item', o_, fi_)] = v
            return
        fv = v if (isinstance(k, tuple) and k[0] in ('dict', 'seq')) else self.freeze(v, st)
        self.event('mutate', st, seq(o if o.op == 'ref' else self.freeze(o, st), const('setitem'), fi_, self.freeze(v, st)))
        new = None
        if (isinstance(k, tuple) and k[0] == 'dict') or (k is None and is_const(fi_) and isinstance(cval(fi_), str)):
            new = self.ext.dict_store(o_, fi_, fv)
        elif o_.op == 'seq' and is_num_const(fi_) and -len(o_.args) <= cval(fi_) < len(o_.args):
            a = list(o_.args)
            a[int(cval(fi_))] = fv
            new = seq(*a)
        else:
            new = store(o_, fi_, fv)
        if o.op == 'ref':
            st.heap[o] = new
            return
        # write through a view of a reference?
        root, path = self.view_root(o, st)
        if root is not None and root.op == 'ref':
            st.heap[root] = mk('storev', st.heap[root], path, fi_, fv)
            st.heap[('view', new)] = (root, path)
            self.replace_alias(o, new, st)
            return
        if o_.op == 'attr':
            st.heap[('attr', o_.args[0], o_.args[1])] = new
        self.replace_alias(o, new, st)

    def view_of(self, o, r, path, st):
        "r is a view of the array o"
        if o.op == 'ref' and st.heap.get(('tag', o)) == 'array':
            st.heap[('view', r)] = (o, path)
        elif ('view', o) in st.heap:
            root, p = st.heap[('view', o)]
            st.heap[('view', r)] = (root, subst(path, {mk('hole'): p}))

    def view_root(self, n, st):
        "root of an index/reshape chain and the chain with a hole"
        vr = st.heap.get(('view', n))
        if vr is not None:
            return vr
        return None, None

    # ------------------------------------------------------------ expressions

    def eval(self, e, st, fr):
        self.budget -= 1
        if self.budget < 0:
            raise Budget('budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque(type(e).__name__)
        if hasattr(e, 'lineno'):
            self.loc = (fr.module.relpath, e.lineno, fr.func.qual if fr.func else '?')
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup_name(e.id, st, fr)

    def lookup_name(self, name, st, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = st.vars.get((f.id, name), UNBOUND)
                if v is UNBOUND:
                    self.event('unbound', st, const(name))
                    return v
                if v.op == 'ite':
                    v = self.bound_part(v, name, st)
                return v
            f = f.parent
        return self.lookup_global(name, fr.module, st)

    def bound_part(self, v, name, st):
        "reading a variable that is bound on some paths only: on the others the read raises"
        if v.op != 'ite':
            return v
        c, a, b = v.args
        if a is UNBOUND or b is UNBOUND:
            d = self.decide(c if a is UNBOUND else not_(c), st)
            if d is TRUE:
                self.event('unbound', st, const(name))
            elif d is not FALSE:
                self.event('maybeunbound', st.with_(d), const(name))
            return self.bound_part(b if a is UNBOUND else a, name, st)
        a2, b2 = self.bound_part(a, name, st), self.bound_part(b, name, st)
        return v if a2 is a and b2 is b else ite(c, a2, b2)

    def lookup_global(self, name, module, st):
        g = module.globals.get(name)
        if g is None:
            for base in module.globals.get('*', []):
                m = self.prog.modules.get(base)
                if m and name in m.globals:
                    return self.lookup_global(name, m, st)
            import builtins
            if hasattr(builtins, name):
                return mk('ext', 'builtins.' + name)
            if name in ('__file__', '__name__'):
                return mk('sym', name)
            self.event('undefined', st, const(name))
            return mk('opaque', 'undefined name ' + name)
        return self.global_value(g, name, module, st)

    def global_value(self, g, name, module, st):
        kind_, x = g
        if kind_ == 'func':
            return mk('func', x.qual)
        if kind_ == 'class':
            return mk('cls', x.name)
        if kind_ == 'ext':
            return self.resolve_ext(x)
        key = (module.name, name)
        if key in self.globcache:
            return self.globcache[key]
        # module-level constant: evaluate in a module frame
        fr = Frame(None, FuncInfo(module.short + '.<module>', ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                                                                      ast.Constant(None)), module), module)
        self.globcache[key] = mk('gvar', module.short + '.' + name)
        self.quiet += 1
        saved, savedm = self.loc, self.mayraise
        try:
            s2 = State()
            v = self.freeze(self.eval(x, s2, fr), s2)
        finally:
            self.quiet -= 1
            self.loc = saved
            self.mayraise = savedm
        # mutable module-level objects keep an identity
        self.globcache[key] = v
        if v.op == 'opaque':
            v = self.globcache[key] = mk('gvar', module.short + '.' + name)
        return v

    def resolve_ext(self, dotted):
        "dotted name -> func/cls/module/ext value"
        if dotted in self.prog.modules:
            return mk('ext', dotted)
        if dotted.startswith('razorback'):
            base, _, nm = dotted.rpartition('.')
            m = self.prog.modules.get(base)
            if m is not None:
                if nm in m.globals:
                    return self.global_value(m.globals[nm], nm, m, State())
                for b in m.globals.get('*', []):
                    mm = self.prog.modules.get(b)
                    if mm and nm in mm.globals:
                        return self.global_value(mm.globals[nm], nm, mm, State())
        c = self.ext.canon_ext_value(dotted)
        if c is not None:
            return c
        return mk('ext', dotted)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        f = fr
        while f is not None and getattr(f, 'is_comp', False):
            f = f.parent
        self.setvar(e.target.id, v, st, f or fr)
        return v

    def e_Tuple(self, e, st, fr):
        return self.display(e.elts, st, fr)

    def e_List(self, e, st, fr):
        return self.newref(st, self.display(e.elts, st, fr), 'list')

    def display(self, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.iterable(self.eval(x.value, st, fr), st))
            else:
                parts.append(seq(self.eval(x, st, fr)))
        return concat(*parts)

    def e_Set(self, e, st, fr):
        return self.newref(st, self.ext.mkset(self.freeze(self.display(e.elts, st, fr), st)), 'set')

    def e_Dict(self, e, st, fr):
        d = mk('dict')
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, fr)
            if k is None:
                d = self.ext.dict_update(d, self.val(vv, st))
            else:
                d = self.ext.dict_store(d, self.freeze(self.eval(k, st, fr), st), vv)
        return self.newref(st, d, 'dict')

    def fstr(self, parts):
        "text put together from pieces: adjacent constants joined, what formats as itself left out"
        out = []
        for p in parts:
            p = const(str(cval(p.args[0]))) if p.op == 'fmtval' and p.args[1] == -1 and p.args[2] == '' and p.args[0].op == 'const' and \
                isinstance(cval(p.args[0]), (str, int)) else p
            if p.op == 'const' and out and out[-1].op == 'const':
                out[-1] = const(cval(out[-1]) + cval(p))
            elif not (p.op == 'const' and cval(p) == ''):
                out.append(p)
        return mk('fstr', *out) if not (len(out) == 1 and out[0].op == 'const') else out[0]

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.eval(v.value, st, fr), st)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(str(c.value) if isinstance(c, ast.Constant) else '{}' for c in v.format_spec.values)
                if spec:
                    self.event('format', st, seq(const(spec), x))
                parts.append(mk('fmtval', x, v.conversion, spec))
        return self.fstr(parts)

    def e_IfExp(self, e, st, fr):
        c = self.decide(truthy(self.freeze(self.eval(e.test, st, fr), st)), st)
        if c is TRUE:
            return self.eval(e.body, st, fr)
        if c is FALSE:
            return self.eval(e.orelse, st, fr)
        return self.branch(c, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr), st)

    def branch(self, c, fa, fb, st):
        base = st.pc
        s1, s2 = st.with_(c), st.with_(not_(c))
        try:
            a = fa(s1)
        except NoReturn:
            a, s1 = None, None
        try:
            b = fb(s2)
        except NoReturn:
            b, s2 = None, None
        if s1 is None and s2 is None:
            raise NoReturn()
        m = self.merge2(c, s1, s2, base)
        m.pc = base
        self.copy_state(st, m)
        if s1 is None:
            st.facts += (not_(c),)
            return b
        if s2 is None:
            st.facts += (c,)
            return a
        return a if a is b else ite(c, a, b)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(vals, s):
            v = self.eval(vals[0], s, fr)
            if len(vals) == 1:
                return v
            c = self.decide(truthy(self.freeze(v, s)), s)
            if c is (FALSE if isand else TRUE):
                return v
            if c is (TRUE if isand else FALSE):
                return go(vals[1:], s)
            vf = v
            if kind(self.val(v, s)) == 'bool':
                vf = c
            if isand:
                return self.branch(c, lambda s2: go(vals[1:], s2), lambda s2: FALSE if vf is c else vf, s)
            return self.branch(c, lambda s2: TRUE if vf is c else vf, lambda s2: go(vals[1:], s2), s)
        return go(e.values, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.val(self.eval(e.operand, st, fr), st)
        if isinstance(e.op, ast.Not):
            return not_(truthy(self.freeze(v, st)))
        v = self.freeze(v, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.ext.invert(v)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        av, bv = self.val(a, st), self.val(b, st)
        r = self.ext.binop(self, type(op).__name__, av, bv, st)
        return r

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            res.append(self.compare(op, left, right, st))
            left = right
        return and_(*res) if len(res) > 1 else res[0]

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n in ('Is', 'IsNot') and a.op == 'ref' and b.op == 'ref':
            r = const(a is b)
            return r if n == 'Is' else not_(r)
        a_, b_ = self.val(a, st), self.val(b, st)
        a_, b_ = self.freeze(a_, st), self.freeze(b_, st)
        return self.ext.compare(self, n, a_, b_, st)

    def e_Lambda(self, e, st, fr):
        return self.make_closure(e, st, fr)

    def lambda_of(self, src, st):
        fr = Frame(None, None, next(iter(self.prog.modules.values())))
        return self.make_closure(ast.parse(src, mode='eval').body, st, fr)

    def make_closure(self, node, st, fr):
        i = len(self.closures) + 1
        name = getattr(node, 'name', '<lambda>')
        parent = fr.func.qual if fr.func else '?'
        info = FuncInfo(f'{parent}.{name}', node, fr.module, fr.cls)
        cl = Closure(node, fr, name, info)
        cl.defaults = [self.eval(d, st, fr) for d in node.args.defaults]
        cl.kwdefaults = {a.arg: self.eval(d, st, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
                         if d is not None}
        self.closures[i] = cl
        return mk('clo', i)

    def e_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.getattr(o, e.attr, st)

    def getattr(self, o, name, st):
        o_ = self.val(o, st)
        if o_.op == 'ite' and o_.args[1].op != 'const' and kind(o_) is None:
            pass
        if ('attr', o_, name) in st.heap:
            return st.heap[('attr', o_, name)]
        if o_.op == 'updattr':
            return o_.args[2] if o_.args[1] == name else self.getattr(o_.args[0], name, st)
        if o_.op == 'upd' and o_.args[1]:
            v = self.getattr(o_.args[0], name, st)
            if o_.args[1] == name:
                return mk('upd', self.freeze(v, st), '', *o_.args[2:])
            return mk('bmeth', o_, v.args[1]) if v.op == 'bmeth' and v.args[0] is o_.args[0] else v
        if o_.op == 'ext':
            return self.resolve_ext(o_.args[0] + '.' + name)
        if o_.op == 'super':
            return mk('bsuper', o_.args[0], o_.args[1], name)
        k = kind(o_)
        if o_.op == 'cls':
            if name == '__name__':
                return const(o_.args[0])
            m = self.prog.lookup(o_.args[0], name)
            if m and m[0] == 'method':
                if m[1].kind == 'classm':
                    return mk('bmeth', o_, name)
                return mk('func', m[1].qual)
            if m and m[0] == 'assign':
                return self.class_assign(m[1], st)
            return mk('attr', o_, name)
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] in self.prog.classes:
            v = self.obj_attr(o_, k[1], name, st)
            if o.op == 'ref' and v.op == 'bmeth' and v.args[0] is o_:
                return mk('bmeth', o, v.args[1])
            return v
        if o_.op == 'ite' and isinstance(kind(o_.args[1]), tuple) and isinstance(kind(o_.args[2]), tuple) and \
                kind(o_.args[1])[0] == kind(o_.args[2])[0] == 'obj':
            return ite(o_.args[0], self.getattr(o_.args[1], name, st), self.getattr(o_.args[2], name, st))
        r = self.ext.value_attr(self, o_, name, st)
        if r is not None:
            if name in ('T', 'flat', 'real', 'imag'):
                self.view_of(o, r, mk('attr', mk('hole'), name), st)
            return r
        if o.op == 'ref' or name in self.ext.METHODS:
            return mk('bmeth', o, name)
        return mk('attr', o_, name)

    def class_assign(self, ci, st):
        c, valnode = ci
        fr = Frame(None, FuncInfo(c.name + '.<class>', ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                                                                  ast.Constant(None)), c.module), c.module)
        if isinstance(valnode, ast.Name):
            m = self.prog.lookup(c.name, valnode.id)
            if m and m[0] == 'method':
                return mk('func', m[1].qual)
        return self.eval(valnode, st, fr)

    def obj_attr(self, o, cname, name, st):
        "attribute of a project object"
        if name == '__class__':
            return mk('cls', cname)
        obs = self.ext.observers(self, cname)
        canon = obs.get(name)                # private field -> property name
        if o.op == 'new' and cname in self.ext.NOEXPAND and self.ext.is_observer(self, cname, name):
            return mk('attr', o, name)
        if o.op == 'new':
            ci = self.prog.classes[o.args[0]]
            m = self.prog.lookup(cname, name)
            if ci.is_namedtuple:
                d = dict(o.args[1])
                if name in d:
                    return d[name]
            if m and m[0] == 'getter':
                if m[1].qual in self.callchain[-6:] and False:
                    pass
                v, s2 = self.invoke(m[1], {m[1].params()[0]: o}, st, None)
                if s2 is None:
                    raise NoReturn()
                self.copy_state(st, s2)
                return v
            if m and m[0] == 'method':
                return mk('bmeth', o, name)
            if m and m[0] == 'assign':
                v = self.class_assign(m[1], st)
                if v.op == 'func':
                    return mk('bmeth', o, v.args[0].split('.')[-1])
                return v
            # instance field: expand the constructor
            self.expand_new(o, st)
            if ('attr', o, name) in st.heap:
                return st.heap[('attr', o, name)]
            return mk('attr', o, name)
        m = self.prog.lookup(cname, name)
        if m and m[0] == 'method':
            if m[1].kind == 'static':
                return mk('func', m[1].qual)
            return mk('bmeth', o, name)
        if m and m[0] == 'assign':
            v = self.class_assign(m[1], st)
            if v.op == 'func':
                return mk('bmeth', o, v.args[0].split('.')[-1])
            return v
        if m and m[0] == 'getter':
            if self.ext.is_observer(self, cname, name):
                return mk('attr', o, name)
            v, s2 = self.invoke(m[1], {m[1].params()[0]: o}, st, None)
            if s2 is None:
                raise NoReturn()
            self.copy_state(st, s2)
            return v
        if canon:
            return mk('attr', o, canon)
        return mk('attr', o, name)

    def expand_new(self, o, st):
        key = ('expanded', o)
        if key in st.heap:
            return
        st.heap[key] = True
        cname = o.args[0]
        m = self.prog.lookup(cname, '__init__')
        if not m:
            return
        fi = m[1]
        bound = dict(o.args[1])
        bound = {p: v for p, v in bound.items()}
        args = self.fill_defaults(fi, bound, st)
        args[fi.params()[0]] = o
        self.quiet += 1
        self.expanding.append(o)
        try:
            v, s2 = self.invoke(fi, args, st.clone(), None)
        finally:
            self.quiet -= 1
            self.expanding.pop()
        if s2 is not None:
            for kk, vv in s2.heap.items():
                if kk not in st.heap:
                    st.heap[kk] = vv

    def fill_defaults(self, fi, bound, st):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        fr = Frame(None, fi, fi.module, fi.cls)
        out = dict(bound)
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in out:
                out[p.arg] = self.eval(d, st, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out and d is not None:
                out[p.arg] = self.eval(d, st, fr)
        if a.vararg and a.vararg.arg not in out:
            out[a.vararg.arg] = seq()
        if a.kwarg and a.kwarg.arg not in out:
            out[a.kwarg.arg] = mk('dict')
        for p in pos:
            if p.arg not in out:
                out[p.arg] = mk('opaque', 'missing argument ' + p.arg)
        return out

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        i = self.eval_index(e.slice, st, fr)
        return self.getitem(o, i, st)

    def getitem(self, o, i, st):
        o_ = self.val(o, st)
        i = self.freeze(i, st)
        if o.op == 'ref' and ('ddef', o) in st.heap:
            return self.ext.lookup_or(o_, i, st.heap[('ddef', o)])
        r = self.ext.getitem(self, o_, i, st)
        if o.op == 'ref' and st.heap.get(('tag', o)) == 'array' and self.ext.is_view_index(i):
            st.heap[('view', r)] = (o, mk('idx', mk('hole'), i))
        elif ('view', o) in st.heap and self.ext.is_view_index(i):
            root, p = st.heap[('view', o)]
            st.heap[('view', r)] = (root, mk('idx', p, i))
        return r

    def eval_index(self, s, st, fr):
        return self.eval(s, st, fr)

    def e_Slice(self, e, st, fr):
        f = lambda x: self.freeze(self.eval(x, st, fr), st) if x is not None else NONE
        return slice_(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.opaque('await')

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value else NONE
        f = fr
        while f is not None and '<yield>' not in f.locals:
            f = f.parent
        if f is None:
            return self.opaque('yield')
        y = st.vars[(f.id, '<yield>')]
        st.heap[y] = concat(st.heap[y], seq(self.freeze(v, st)))
        self.event('yield', st, self.freeze(v, st))
        return self.opaque('sent')

    def e_YieldFrom(self, e, st, fr):
        v = self.iterable(self.eval(e.value, st, fr), st)
        f = fr
        while f is not None and '<yield>' not in f.locals:
            f = f.parent
        if f is None:
            return self.opaque('yield')
        y = st.vars[(f.id, '<yield>')]
        v = self.freeze(v, st)
        st.heap[y] = concat(st.heap[y], v)
        self.event('yieldfrom', st, v)
        return NONE

    # ------------------------------------------------------------ iteration

    def iterable(self, v, st):
        "sequence view of a value (what iterating it produces)"
        v_ = self.val(v, st)
        return self.ext.iterable(self, v_, st)

    def family(self, v, st):
        "(n, cond, elem, bv)"
        s = self.iterable(v, st)
        return as_elems(s)

    def e_ListComp(self, e, st, fr):
        return self.newref(st, self.comp(e.generators, [e.elt], st, fr, 'list'), 'list')

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e.generators, [e.elt], st, fr, 'gen')

    def e_SetComp(self, e, st, fr):
        return self.newref(st, self.ext.mkset(self.freeze(self.comp(e.generators, [e.elt], st, fr, 'list'), st)), 'set')

    def e_DictComp(self, e, st, fr):
        return self.newref(st, self.comp(e.generators, [e.key, e.value], st, fr, 'dict'), 'dict')

    def comp(self, gens, elts, st, fr, what):
        cf = Frame(fr, fr.func, fr.module, fr.cls)
        cf.is_comp = True
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    cf.locals.add(n.id)
        return self.comp_rec(gens, elts, st, cf, fr, what)

    def comp_rec(self, gens, elts, st, cf, outer, what):
        g = gens[0]
        it = self.eval(g.iter, st, cf if cf is not outer and gens is not None and getattr(cf, 'started', False) else outer)
        cf.started = True
        src = self.iterable(it, st)
        src = self.freeze_shallow(src, st)
        pieces = src.args if src.op == 'concat' else (src,)
        outs = []
        for piece in pieces:
            if piece.op == 'seq' and len(piece.args) <= MAXUNROLL:
                for i, x in enumerate(piece.args):
                    outs.append(self.comp_body(g, gens, elts, st, cf, x, TRUE, None, what))
                continue
            n, c0, elem, bv = as_elems(piece)
            outs.append(self.comp_body(g, gens, elts, st, cf, elem, c0, (n, bv), what))
        if what == 'dict':
            d = mk('dict')
            for o in outs:
                d = o if d.op == 'dict' and not d.args else self.ext.dict_update(d, o)
            return d
        return concat(*outs)

    def freeze_shallow(self, n, st):
        return n

    def comp_body(self, g, gens, elts, st, cf, elem, c0, binder, what):
        s = st.clone()
        if binder:
            self.binders.append(binder + (c0,))
        nheap = set(k for k in s.heap if isinstance(k, Node))
        try:
            cnd = c0
            s.pc = s.pc + ((c0,) if c0 is not TRUE else ())
            self.assign(g.target, elem, s, cf)
            for t in g.ifs:
                c = truthy(self.freeze(self.eval(t, s, cf), s))
                c = self.decide(c, s)
                cnd = and_(cnd, c)
                s.pc = s.pc + ((c,) if c is not TRUE else ())
            if len(gens) > 1:
                inner = self.comp_rec(gens[1:], elts, s, cf, None, what)
                vals = [inner]
                nested = True
            else:
                vals = [self.eval(x, s, cf) for x in elts]
                nested = False
            if binder is None:
                # unrolled: keep references, but closures over the comprehension scope see the last value
                vals = [self.freeze_new(v, s, nheap) for v in vals]
            else:
                vals = [self.freeze_late(v, s, cf, binder) for v in vals]
            # side effects (heap writes on outer references)
            self.comp_effects(st, s, binder, nheap)
        finally:
            if binder:
                self.binders.pop()
        if what == 'dict' and not nested:
            kf, vf = vals
            if binder is None:
                r = self.ext.dict_store(mk('dict'), kf, vf)
                return r if cnd is TRUE else ite(cnd, r, mk('dict'))
            return close_dmap(binder[0], kf, vf, binder[1], cnd)
        if nested:
            body = vals[0]
            if binder is None:
                return body if cnd is TRUE else ite(cnd, body, seq() if what != 'dict' else mk('dict'))
            if what == 'dict':
                return mk('dflat', close_map(binder[0], body, binder[1], cnd))
            return flatten(close_map(binder[0], body, binder[1], cnd))
        if binder is None:
            return seq(vals[0]) if cnd is TRUE else ite(cnd, seq(vals[0]), seq())
        return close_map(binder[0], vals[0], binder[1], cnd)

    def comp_effects(self, st, s, binder, nheap):
        for k, v in s.heap.items():
            if isinstance(k, Node) and k in nheap and st.heap.get(k) is not v:
                st.heap[k] = v if binder is None else self.opaque('effect in comprehension')
            elif not isinstance(k, Node) and k not in st.heap and k[0] in ('view', 'expanded'):
                pass
        if binder is None:
            for k, v in s.heap.items():
                if k not in st.heap:
                    st.heap[k] = v
        # walrus
        for k, v in s.vars.items():
            if k in st.vars and st.vars[k] is not v:
                st.vars[k] = v if binder is None else self.opaque('walrus in comprehension')

    def freeze_new(self, v, s, nheap):
        return v

    def freeze_late(self, v, s, cf, binder):
        """freeze an element value built inside a comprehension/loop; closures that captured the
        iteration scope itself see the last element (late binding)"""
        clos = [x for x in nodes(v) if x.op == 'clo']
        if clos:
            m = {}
            for c in clos:
                cl = self.closures[c.args[0]]
                s2 = s
                if cl.frame is cf or (cl.frame is not None and cf in _frames(cl.frame)):
                    # the comprehension variables it captured hold the last element when it is called
                    s2 = s.clone()
                    for key, x in s.vars.items():
                        if key[0] == cf.id and isinstance(x, Node):
                            s2.vars[key] = subst(x, {binder[1]: sub(binder[0], ONE)})
                m[c] = self.closure_term(c, s2)
            v = subst(v, m)
        return self.freeze(v, s)

    # ------------------------------------------------------------ loops

    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        src = self.iterable(it, st)
        if src.op == 'ite' and src.args[1].op == 'seq' and src.args[2].op == 'seq' and False:
            pass
        pieces = src.args if src.op == 'concat' else (src,)
        out = Flow()
        cur = st
        brk = []
        base = st.pc
        for piece in pieces:
            if cur is None:
                break
            if piece.op == 'seq' and len(piece.args) <= MAXUNROLL:
                j = 0
                for x in piece.args:
                    if cur is None:
                        break
                    entry = cur.pc
                    self.assign(s.target, x, cur, fr)
                    if len(pieces) == 1:
                        j += 1
                        self.hold_elements(s, None, const(j - 1), TRUE, cur, fr)
                    f = self.exec_block(s.body, cur, fr)
                    out.returns += f.returns
                    out.raises += f.raises
                    brk += f.breaks
                    conts = f.continues + ([f.normal] if f.normal is not None else [])
                    cur, _ = self.mergen([(c, NONE) for c in conts], entry) if conts else (None, None)
                    if cur is not None and not f.returns and not f.breaks:
                        cur.pc = entry
                continue
            f = self.loop(s, piece, cur, fr)
            out.returns += f.returns
            out.raises += f.raises
            brk += f.breaks
            cur = f.normal
        if s.orelse and cur is not None:
            f = self.exec_block(s.orelse, cur, fr)
            out.absorb(f)
            cur = f.normal
        if brk:
            items = [(b, NONE) for b in brk] + ([(cur, NONE)] if cur is not None else [])
            if cur is None and len(brk) >= 1 and not out.returns:
                pass
            cur, _ = self.mergen(items, base)
            if not out.returns:
                n = len(base)
                # all remaining paths: complementary unless some returned/raised
                cur.pc = base
        out.normal = cur
        return out

    def x_While(self, s, st, fr):
        w = counting(s)
        if w is not None:
            start = self.val(self.lookup_name(w.target.id, st, fr), st)
            if kind(start) == 'int' or is_num_const(start):
                f = self.x_For(w, st, fr)
                if f.normal is not None:
                    stop = self.freeze(self.eval(w.iter.args[1], f.normal, fr), f.normal)
                    self.setvar(w.target.id, vmax(start, stop), f.normal, fr)
                return f
        return self.loop(s, None, st, fr, test=s.test)

    def loop(self, s, src, st, fr, test=None):
        "summarise a loop over a symbolic sequence (src) or a while loop"
        base = st.pc
        if test is None:
            n, c0, elem, bv = as_elems(src)
        else:
            n, c0, bv = mk('inf'), TRUE, fresh_bv()
            SYMKIND[bv] = 'int'
            elem = None
        names = assigned_in(s.body) | (assigned_in([s.target]) if test is None else set())
        tnames = assigned_in([s.target]) if test is None else set()
        keys = []
        for nm in sorted(names):
            f = self.frame_of(nm, fr) if nm in fr.nonlocals or nm not in fr.locals else fr
            keys.append((f.id, nm))
        loopid = len(self.loops) + 1 if not self.quiet else 0
        lvsym = {}

        def mklv(key, init):
            Frame._n += 1
            lv = mk('lv', Frame._n)
            kk = kind(init) if isinstance(init, Node) else None
            if kk is not None and kk != 'none':
                if isinstance(kk, tuple) and kk[0] == 'seq':
                    kk = seqk(None)
                if kk == 'int':
                    kk = 'int'
                SYMKIND[lv] = kk
            return lv

        carried_heap = []
        widened = set()
        for attempt in range(8):
            body_st = st.clone()
            lvs = {}
            for key in keys:
                init = st.vars.get(key, UNBOUND)
                iv = init
                lvs[('v', key)] = lv = mklv(key, init)
                if init.op == 'ref':
                    # variable holding a mutable: keep the reference unless rebound
                    if ('v', key) not in widened:
                        del lvs[('v', key)]
                        continue
                body_st.vars[key] = lv
                if ('k', key) in widened and lv in SYMKIND:
                    del SYMKIND[lv]
                    if SYMKIND_HINT.get(key) is not None:
                        SYMKIND[lv] = SYMKIND_HINT[key]
            for hk in carried_heap:
                init = st.heap[hk]
                inner = self.ext.content(init) if isinstance(hk, Node) else None
                if inner is not None:
                    lv = mklv(hk, inner)
                    SYMKIND.setdefault(lv, seqk(None))
                    lvs[('h', hk)] = lv
                    body_st.heap[hk] = self.ext.with_content(init, lv)
                    continue
                lv = mklv(hk, init)
                lvs[('h', hk)] = lv
                body_st.heap[hk] = lv
            final = False
            self.quiet += 1
            evmark = len(self.events)
            saved_mr = self.mayraise
            try:
                fl, _ = self.loop_body(s, body_st.clone(), fr, elem, c0, test, n, bv, base)
            finally:
                self.quiet -= 1
                self.mayraise = saved_mr
            # which heap cells changed?
            new_h = []
            rebound = set()
            kinds_changed = False
            for x in ([fl.normal] if fl.normal is not None else []) + fl.breaks + [r[0] for r in fl.returns] + fl.continues:
                for hk, hv in x.heap.items():
                    if hk in st.heap and st.heap[hk] is not hv and hk not in carried_heap and isinstance(hv, Node):
                        if hk in body_st.heap and body_st.heap[hk] is hv:
                            continue
                        if hk not in new_h:
                            new_h.append(hk)
                for key, v in x.vars.items():
                    # a variable that is not assigned, but whose object the body updates
                    if key not in keys and key in st.vars and v is not body_st.vars.get(key):
                        keys.append(key)
                        kinds_changed = True
                for key in list(keys):
                    init = st.vars.get(key, UNBOUND)
                    if init.op == 'ref' and ('v', key) not in lvs and x.vars.get(key) is not init:
                        rebound.add(('v', key))
                    elif ('v', key) in lvs and ('k', key) not in widened:
                        ev = x.vars.get(key)
                        if ev is not None and ev is not lvs[('v', key)] and ev is not UNBOUND:
                            ke, kl = kind(self.val(ev, x)), kind(lvs[('v', key)])
                            if kl == 'int' and ke == 'num':
                                SYMKIND_HINT[key] = 'num'
                                widened.add(('k', key))
                                kinds_changed = True
            if not new_h and not rebound and not kinds_changed:
                break
            carried_heap += new_h
            widened |= rebound
        # final run with events on
        evmark = len(self.events)
        fl, end = self.loop_body(s, body_st, fr, elem, c0, test, n, bv, base)
        info = LoopInfo(n, bv, c0, lvs, fl, st, self.loc, fr, s, body_st)
        keys = self.drop_temporaries(s, info, keys, fl, fr, body_st, evmark)
        # normal end-of-body state
        conts = [(x, NONE) for x in fl.continues] + ([(fl.normal, NONE)] if fl.normal is not None else [])
        endst, _ = self.mergen(conts, body_st.pc) if conts else (None, None)
        brk_conds = [and_(*x.pc[len(body_st.pc):]) for x in fl.breaks]
        ret_conds = [and_(*x[0].pc[len(body_st.pc):]) for x in fl.returns]
        exits = fl.breaks or fl.returns or test is not None
        res = self.summarise(info, endst, st, fr, n, c0, bv, lvs, keys, bool(exits), brk_conds, test)
        if info.at:
            for e in self.events[evmark:]:
                e.cond = subst(e.cond, info.at)
                if isinstance(e.data, Node):
                    e.data = subst(e.data, info.at)
                e.binders = tuple((subst(a, info.at), b, subst(c, info.at)) for a, b, c in e.binders)
        if not self.quiet:
            self.loops.append(info)
        out = Flow()
        if test is not None and not fl.breaks and not fl.returns:
            out.normal = res
            return out
        if not exits:
            out.normal = res
            return out
        # ---- loops with early exits
        anyret = FALSE
        lvset = set(lvs.values())
        dep = lambda x: any(y.op == 'lv' and y in lvset for y in nodes(x))
        allc = or_(*(brk_conds + ret_conds)) if (brk_conds or ret_conds) else FALSE
        simple = test is None and not any(dep(c) for c in brk_conds + ret_conds) and not fl.breaks
        if simple:
            rc = or_(*ret_conds)
            rst, rv = self.mergen([(x[0], self.freeze(x[1], x[0])) for x in fl.returns], body_st.pc)
            found = close_map(n, rv, bv, and_(c0, rc))
            if not dep(rv):
                hit = lt(ZERO, length(found)) if found.op != 'seq' else const(bool(found.args))
                anyc = self.ext.mkany(close_map(n, rc, bv, c0))
                s1 = st.with_(anyc)
                out.returns.append((s1, index(found, ZERO) if occurs(bv, rv) else rv))
                res2 = res.clone()
                res2.pc = base + (not_(anyc),)
                out.normal = res2
                return out
        if test is None and fl.breaks and not fl.returns and not any(dep(c) for c in brk_conds):
            # leaves at the first iteration with a property: what the variables are then
            mst, _ = self.mergen([(x, NONE) for x in fl.breaks], body_st.pc)
            rc = or_(*brk_conds)
            atbrk = {}
            for key, l in lvs.items():
                v = self.freeze(mst.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(mst, key[1]), mst)
                e = l if endst is None else self.freeze(endst.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(endst, key[1]), endst)
                if v is l:
                    atbrk[key] = None if e is l or endst is None else False
                elif dep(v):
                    atbrk[key] = False
                elif occurs(bv, v):
                    atbrk[key] = index(close_map(n, v, bv, and_(c0, rc)), ZERO)
                else:
                    atbrk[key] = v
            for k in mst.vars:
                if ('v', k) not in lvs and mst.vars[k] is not st.vars.get(k):
                    v = self.freeze(mst.vars[k], mst)
                    atbrk[('v', k)] = False if dep(v) else index(close_map(n, v, bv, and_(c0, rc)), ZERO) if occurs(bv, v) else v
            if not any(v is False for v in atbrk.values()):
                anyc = self.ext.mkany(close_map(n, rc, bv, c0))
                bs = st.with_(anyc)
                for key, v in atbrk.items():
                    if v is not None:
                        if key[0] == 'v':
                            bs.vars[key[1]] = v
                        else:
                            bs.heap[key[1]] = self.boxed(st.heap.get(key[1]), v)
                out.breaks.append(bs)
                r = res.clone()
                r.pc = base + (not_(anyc),)
                out.normal = r
                return out
        # generic: break/return conditions depend on carried values
        idn = mk('loopexit', *[self.canon_loop(info, endst)])
        accm = {l: mk('acc', i) for i, (key, l) in enumerate(self.loop_items(info, endst))}
        accm[info.bv] = mk('acc', 'k')

        def atexit(v, s_):
            v = self.freeze(v, s_)
            return subst(v, accm) if isinstance(v, Node) else v
        if fl.returns:
            rc = or_(*ret_conds)
            c = mk('loopret', idn, subst(rc, accm))
            rst, rv = self.mergen([(x[0], self.freeze(x[1], x[0])) for x in fl.returns], body_st.pc)
            s1 = st.with_(c)
            for key in keys:
                s1.vars[key] = mk('loopvar', idn, atexit(rst.vars.get(key, UNBOUND), rst))
            for hk in carried_heap:
                s1.heap[hk] = mk('loopvar', idn, atexit(rst.heap.get(hk, UNBOUND), rst))
            out.returns.append((s1, mk('loopretval', idn, atexit(rv, rst))))
        bs = None
        if fl.breaks:
            c = mk('loopbrk', idn)
            bs = st.with_(c)
            mst, _ = self.mergen([(x, NONE) for x in fl.breaks], body_st.pc)
            for key in keys:
                v = mst.vars.get(key, UNBOUND)
                bs.vars[key] = mk('loopvar', idn, atexit(v, mst)) if v is not st.vars.get(key, UNBOUND) else v
                kk = kind(self.val(v, mst))
                if kk is not None:
                    SYMKIND[bs.vars[key]] = kk
            for hk in carried_heap:
                bs.heap[hk] = mk('loopvar', idn, atexit(mst.heap.get(hk, UNBOUND), mst))
            info.brk_state = mst
            out.breaks.append(bs)
        if test is not None and isinstance(test, ast.Constant) and test.value:
            out.normal = None
        else:
            r = res.clone()
            if fl.breaks:
                r.pc = base + (not_(mk('loopbrk', idn)),)
            out.normal = r
        return out

    def drop_temporaries(self, s, info, keys, fl, fr, body_st, evmark):
        "names assigned in the body, never read outside it nor before their assignment: no part of the carried state"
        fn = fr.func.node if fr.func is not None else None
        if fn is None or fr.parent is not None:
            return keys
        inside = {id(x) for b in s.body + ([s.target] if isinstance(s, ast.For) else []) for x in ast.walk(b)}
        outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and id(x) not in inside}
        cand = {k for k in info.lvs if k[0] == 'v' and k[1][0] == fr.id and k[1][1] not in outside and k[1][1] not in fr.nonlocals}
        if not cand:
            return keys
        states = ([fl.normal] if fl.normal is not None else []) + list(fl.breaks) + list(fl.continues) + [r[0] for r in fl.returns]
        base = set()

        def lvs_of(t, acc):
            if isinstance(t, Node):
                acc |= {y for y in nodes(t) if y.op == 'lv'}
        for x in states:
            for c in x.pc[len(body_st.pc):]:
                lvs_of(c, base)
        for x, v in [(r[0], r[1]) for r in fl.returns]:
            lvs_of(self.freeze(v, x) if isinstance(v, Node) else v, base)
        for e in self.events[evmark:]:
            lvs_of(e.cond, base)
            lvs_of(e.data, base)
        uses = {}
        for k, l in info.lvs.items():
            u = uses[k] = set()
            for x in states:
                v = x.vars.get(k[1], UNBOUND) if k[0] == 'v' else x.heap.get(k[1])
                if isinstance(v, Node):
                    lvs_of(self.freeze(v, x), u)
        live = {k for k in info.lvs if k not in cand} | {k for k in cand if info.lvs[k] in base}
        while True:
            more = {k for k in cand - live if any(info.lvs[k] in uses[j] for j in live)}
            if not more:
                break
            live |= more
        dead = cand - live
        for k in dead:
            del info.lvs[k]
        gone = {k[1] for k in dead}
        return [k for k in keys if k not in gone]

    def loop_body(self, s, bst, fr, elem, c0, test, n, bv, base):
        mark = len(self.parts)
        self.binders.append((n, bv, c0))
        try:
            if c0 is not TRUE:
                bst.facts = bst.facts + (c0,)
            if test is not None:
                c = truthy(self.freeze(self.eval(test, bst, fr), bst))
                bst.facts = bst.facts + (c,)
                self.while_cond = c
            else:
                self.assign(s.target, elem, bst, fr)
                self.hold_elements(s, n, bv, c0, bst, fr)
            fl = self.exec_block(s.body, bst, fr)
            return fl, None
        finally:
            self.binders.pop()
            del self.parts[mark:]

    def acc_order(self, items, init_of, step_of):
        "order of carried variables that does not depend on their names"
        hole, own = mk('acc', '?'), mk('acc', '!')
        def key(kl):
            k, l = kl
            m = {x: hole for _, x in items}
            m[l] = own
            i, s = init_of(k), step_of(k)
            return (i.dig if isinstance(i, Node) else b'', subst(s, m).dig if isinstance(s, Node) else b'', str(k[1]))
        return sorted(items, key=key)

    def cell(self, st, hk):
        v = st.heap.get(hk)
        c = self.ext.content(v) if isinstance(v, Node) else None
        return v if c is None else c

    def boxed(self, old, new):
        return new if not isinstance(old, Node) or self.ext.content(old) is None else self.ext.with_content(old, new)

    def loop_items(self, info, endst):
        st0 = info.st
        init_of = lambda key: self.freeze(st0.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st0, key[1]), st0)
        def step_of(key):
            if endst is None:
                return None
            v = endst.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(endst, key[1])
            v = self.freeze(v, endst)
            return subst(v, {info.bv: mk('acc', 'k')}) if isinstance(v, Node) else v
        return self.acc_order(list(info.lvs.items()), init_of, step_of)

    def canon_loop(self, info, endst):
        "canonical term for a generic loop"
        lv = info.lvs
        items = self.loop_items(info, endst)
        m, inits, steps = {}, [], []
        for i, (key, l) in enumerate(items):
            m[l] = mk('acc', i)
        m[info.bv] = mk('acc', 'k')
        for key, l in items:
            st0 = info.st
            init = st0.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st0, key[1])
            inits.append(self.freeze(init, st0))
            if endst is not None:
                v = endst.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(endst, key[1])
                steps.append(subst(self.freeze(v, endst), m))
        conds = []
        for b in info.fl.breaks:
            conds.append(subst(and_(*b.pc[len(info.body_pc):]), m))
        return mk('gloop', info.n, seq(*inits), seq(*steps), seq(*conds))

    def summarise(self, info, endst, st, fr, n, c0, bv, lvs, keys, exits, brk, test):
        "state after the loop completed normally (all iterations done)"
        res = st.clone()
        if endst is None:
            return res
        allend = {}
        lvset = {l: key for key, l in lvs.items()}
        for key, l in lvs.items():
            if key[0] == 'v':
                v = endst.vars.get(key[1], UNBOUND)
            else:
                v = self.cell(endst, key[1])
            # references allocated in the iteration are frozen; outer references are kept
            allend[key] = self.freeze_iter(v, endst, st, n, bv)
        deps = lambda x: {y for y in nodes(x) if y.op == 'lv' and y in lvset}
        if test is not None or (exits and brk):
            # unknown iteration count
            g = self.canon_loop(info, endst)
            items = self.loop_items(info, endst)
            for i, (key, l) in enumerate(items):
                info.at[l] = mk('loopat', g, i)
                if l in SYMKIND:
                    SYMKIND[info.at[l]] = SYMKIND[l]
                v = allend[key]
                init = st.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st, key[1])
                nv = init if v is l else mk('loopout', g, i)
                if nv is not init:
                    kk = kind(v)
                    if kk is not None:
                        SYMKIND[nv] = kk
                if key[0] == 'v':
                    res.vars[key[1]] = nv
                else:
                    res.heap[key[1]] = self.boxed(st.heap[key[1]], nv)
            info.allend = allend
            return res
        info.allend = allend
        # pass 1: running sums / invariants, closed form at iteration k
        closed = {}

        def close_at(key, k):
            "value of carried variable at the start of iteration k"
            return closed[key](k)
        pending = dict(lvs)
        progress = True
        final = {}
        while progress and pending:
            progress = False
            for key, l in list(pending.items()):
                init = st.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st, key[1])
                v = allend[key]
                # substitute already closed others
                m = {lvs[o]: closed[o](bv) for o in closed}
                v2 = subst(v, m) if m else v
                d = deps(v2)
                r = None
                if v2 is l:
                    r = (lambda k, init=init: init, init)
                elif not d:
                    # last value (guarded by c0 when filtering)
                    if c0 is TRUE:
                        fin = subst(v2, {bv: sub(n, ONE)})
                        fin = mk('last', n, init, fin) if init is not UNBOUND else fin
                        prev = lambda k, v2=v2, init=init: ite(eq(k, ZERO), init, subst(v2, {bv: sub(k, ONE)}))
                        r = (prev, fin)
                    else:
                        fm = close_map(n, v2, bv, c0)
                        r = (lambda k: mk('opaque', 'filtered loop'), mk('last', length(fm), init, index(fm, const(-1))))
                elif d == {l}:
                    r = self.recurrence(v2, l, init, n, c0, bv, st)
                if r is not None:
                    closed[key], final[key] = r
                    del pending[key]
                    progress = True
        if pending:
            # generic fold over the remaining, mutually dependent, variables
            items = self.acc_order(
                list(pending.items()),
                lambda key: self.freeze(st.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st, key[1]), st),
                lambda key: subst(allend[key], {bv: mk('acc', 'k')}))
            accs = [mk('acc', i) for i in range(len(items))]
            m = {l: accs[i] for i, (key, l) in enumerate(items)}
            m2 = {lvs[o]: closed[o](bv) for o in closed}
            inits, steps = [], []
            for key, l in items:
                init = st.vars.get(key[1], UNBOUND) if key[0] == 'v' else self.cell(st, key[1])
                inits.append(self.freeze(init, st))
                steps.append(subst(subst(allend[key], m2), m))
            body = close_map_raw(n, mk('seq', *steps), bv, c0)
            for i, (key, l) in enumerate(items):
                nv = mk('fold', body, seq(*inits), i)
                info.at[l] = mk('foldat', body, seq(*inits), i, bv)
                kk = kind(l)
                if kk is not None:
                    SYMKIND[nv] = kk
                    SYMKIND[info.at[l]] = kk
                final[key] = nv
        for key, f in closed.items():
            v = f(bv)
            if isinstance(v, Node):
                info.at[lvs[key]] = v
        for key, v in final.items():
            if key[0] == 'v':
                res.vars[key[1]] = v
            else:
                res.heap[key[1]] = self.boxed(st.heap[key[1]], v)
        for hk, hv in endst.heap.items():
            if hk not in res.heap and isinstance(hk, tuple) and hk[0] == 'attr':
                res.heap[hk] = self.opaque('attribute set in loop')
        return res

    def freeze_iter(self, v, endst, st, n=None, bv=None):
        "freeze references allocated during the iteration (keep those of the outer state)"
        if not isinstance(v, Node):
            return v
        has = [x for x in nodes(v) if x.op in ('ref', 'clo')]
        m = {}
        for x in has:
            if x.op == 'ref' and x not in st.heap and x in endst.heap:
                m[x] = self.freeze_iter(endst.heap[x], endst, st, n, bv)
            elif x.op == 'clo':
                s2 = endst
                if bv is not None:
                    # variables of frames older than the iteration hold their last value when it is called
                    old = {k[0] for k in st.vars}
                    s2 = endst.clone()
                    for key, y in endst.vars.items():
                        if key[0] in old and isinstance(y, Node) and occurs(bv, y):
                            s2.vars[key] = subst(y, {bv: sub(n, ONE)})
                m[x] = self.closure_term(x, s2)
        return subst(v, m) if m else v

    def recurrence(self, v, l, init, n, c0, bv, st):
        "closed forms for v = f(l, bv)"
        # conditional step
        def strip(v):
            if v.op == 'ite':
                c, a, b = v.args
                if b is l and not occurs(l, c):
                    cc, vv = strip(a)
                    return and_(c, cc), vv
                if a is l and not occurs(l, c):
                    cc, vv = strip(b)
                    return and_(not_(c), cc), vv
            return TRUE, v
        cond, step = strip(v)
        call = and_(c0, cond)
        # both branches append
        if step.op == 'ite' and not occurs(l, step.args[0]):
            a, b = self.append_delta(step.args[1], l), self.append_delta(step.args[2], l)
            if a is not None and b is not None:
                x = ite(step.args[0], a, b)
                step = concat_raw(l, x)
        dl = self.append_delta(step, l)
        if dl is not None and not occurs(l, dl):
            def upto(nn):
                if dl.op == 'seq' and len(dl.args) == 1:
                    return close_map(nn, dl.args[0], bv, call)
                return flatten(close_map(nn, dl, bv, call))
            return (lambda k: concat(init, upto(k)), concat(self.val(init, st), upto(n)))
        if step.op == 'store' and step.args[0] is l and step.args[1] is bv and isinstance(kind(init), tuple) and kind(init)[0] == 'seq' \
                and length(init) is n:
            # each element of a list replaced by a function of itself
            own = index(l, bv)
            V = subst(step.args[2], {x: index(init, bv) for x in nodes(step.args[2]) if x is own})
            if not occurs(l, V):
                f = lambda nn: close_map(nn, ite(call, V, index(init, bv)), bv, TRUE)
                return (lambda k: concat(f(k), index(init, slice_(k, NONE, NONE))), f(n))
        if step.op == 'store' and step.args[0] is l and not any(occurs(l, x) for x in step.args[1:]):
            pairs = close_map(n, seq(step.args[1], step.args[2]), bv, call)
            return (lambda k: mk('scatter', init, close_map(k, seq(step.args[1], step.args[2]), bv, call)),
                    mk('scatter', init, pairs))
        if step.op == 'dstore' and step.args[0] is l and occurs(l, step.args[1]):
            # the keys stay the same while their values are replaced
            kl = self.ext.keys_of(l)
            if step.args[1] is index(kl, bv):
                step = mk('dstore', l, index(self.ext.keys_of(init), bv), step.args[2])
        if step.op == 'dstore' and step.args[0] is l and not any(occurs(l, x) for x in step.args[1:]):
            d = lambda nn: self.ext.dict_update(init, close_dmap(nn, step.args[1], step.args[2], bv, call))
            return (d, d(n))
        if step.op == 'dstore' and step.args[0] is l and not occurs(l, step.args[1]):
            K, V = step.args[1], step.args[2]
            hole = mk('acc', 'item')
            m = {}
            for x in nodes(V):
                if x.op == 'lookup' and x.args[0] is l and x.args[1] is K:
                    m[x] = hole
                elif x.op == 'getor' and x.args[0] is l and x.args[1] is K:
                    m[x] = mk('itemor', hole, x.args[2])
            V2 = subst(V, m) if m else V
            if m and not occurs(l, V2):
                f = lambda nn: mk('dgroup', init, close_map(nn, seq(K, V2), bv, call))
                return (f, f(n))
        if step.op == 'and' and l in step.args:
            rest = and_(*[x for x in step.args if x is not l])
            if not occurs(l, rest):
                f = lambda nn: and_(init, self.ext.mkall(close_map(nn, rest, bv, call)))
                return (f, f(n))
        if step.op == 'or' and l in step.args:
            rest = or_(*[x for x in step.args if x is not l])
            if not occurs(l, rest):
                f = lambda nn: or_(init, self.ext.mkany(close_map(nn, rest, bv, call)))
                return (f, f(n))
        if step.op in ('max', 'min') and l in step.args:
            rest = [x for x in step.args if x is not l]
            if len(rest) == 1 and not occurs(l, rest[0]):
                f = lambda nn: (vmax if step.op == 'max' else vmin)(init, self.ext.redmm(step.op, close_map(nn, rest[0], bv, call)))
                return (f, f(n))
        if step.op == 'union' and l in step.args:
            rest = [x for x in step.args if x is not l]
            if not any(occurs(l, r) for r in rest):
                f = lambda nn: self.ext.mkunion([init] + [self.ext.mkset(flatten(close_map(nn, self.ext.set_as_seq(r), bv, call))) for r in rest])
                return (f, f(n))
        if kind(l) in ('int', 'num', 'array', 'bool') or step.op == 'poly':
            d = sub(step, l)
            if not occurs(l, d):
                f = lambda nn: add(init, self.ext.mksum(close_map(nn, d, bv, call)))
                return (f, f(n))
        # generic single-variable fold
        acc = mk('acc', 0)
        m = {l: acc}
        body = lambda nn: close_map_raw(nn, mk('seq', subst(v, m)), bv, c0)
        f = lambda nn: mk('fold', body(nn), seq(self.freeze(init, st)), 0)
        r = f(n)
        kk = kind(l)
        if kk is not None:
            SYMKIND[r] = kk
        return (f, r)

    def append_delta(self, step, l):
        if step.op == 'concat' and step.args[0] is l:
            return concat(*step.args[1:])
        if step is l:
            return seq()
        if step.op == 'ite' and not occurs(l, step.args[0]):
            a, b = self.append_delta(step.args[1], l), self.append_delta(step.args[2], l)
            if a is not None and b is not None:
                return ite(step.args[0], a, b)
        return None

    # ------------------------------------------------------------ calls

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup_name('super', st, fr).op == 'ext':
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            selfname = None
            g = fr
            while g is not None and getattr(g, 'is_comp', False):
                g = g.parent
            ps = g.func.params()
            me = st.vars.get((g.id, ps[0])) if ps else None
            cls_ = g.cls.name if g.cls else None
            if e.args:
                c = self.eval(e.args[0], st, fr)
                if c.op == 'cls':
                    cls_ = c.args[0]
                if len(e.args) > 1:
                    me = self.eval(e.args[1], st, fr)
            return mk('super', cls_ or '?', me if me is not None else NONE)
        item = None
        if isinstance(e.func, ast.Attribute) and e.func.attr in ITEM_MUTATORS:
            item = self.item_receiver(e.func.value, st, fr)
        if item is not None:
            cont, key, elem = item
            tmp = self.newref(st, elem, 'item')
            fn = self.getattr(tmp, e.func.attr, st)
        else:
            fn = self.eval(e.func, st, fr)
        pos, kw, skw = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.iterable(self.eval(a.value, st, fr), st)
                parts = v.args if v.op == 'concat' else (v,)
                for p in parts:
                    if p.op == 'seq':
                        pos.extend(p.args)
                    else:
                        pos.append(('*', p))
            else:
                pos.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                d = self.val(v, st)
                lit = self.ext.dict_literal(d)
                if lit is not None:
                    for kk, vv in lit:
                        kw[kk] = vv
                else:
                    skw.append(d)
            else:
                kw[k.arg] = v
        self.loc = (fr.module.relpath, e.lineno, fr.func.qual if fr.func else '?')
        r = self.call(fn, Args(pos, kw, None, skw), st)
        if item is not None:
            new = st.heap.get(tmp)
            if new is not None and new is not elem:
                self.quiet += 1
                try:
                    self.setitem(cont, key, self.freeze(new, st), st)
                finally:
                    self.quiet -= 1
            st.heap.pop(tmp, None)
            st.heap.pop(('tag', tmp), None)
        return r

    def item_receiver(self, v, st, fr):
        """`c[k].mutator(...)` / `d.setdefault(k, x).mutator(...)` on a local container c:
        -> (container ref, key, current element) so that the mutation is written back"""
        if isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice):
            cont = self.eval(v.value, st, fr)
            if cont.op != 'ref' or st.heap.get(('tag', cont)) == 'array':
                return None
            key = self.freeze(self.eval_index(v.slice, st, fr), st)
            elem = self.getitem(cont, key, st)
            if elem.op == 'ref':
                return None
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and v.args:
            cont = self.eval(v.func.value, st, fr)
            if cont.op != 'ref':
                return None
            key = self.freeze(self.eval(v.args[0], st, fr), st)
            d = self.eval(v.args[1], st, fr) if len(v.args) > 1 else NONE
            elem = self.ext.lookup_or(self.val(cont, st), key, self.freeze(d, st))
        else:
            return None
        if elem.op == 'ref':
            return None
        return cont, key, self.freeze(elem, st)

    def call(self, fn, args, st):
        fn = self.val(fn, st) if fn.op == 'ref' else fn
        op = fn.op
        if op == 'clo':
            return self.call_closure(fn, args, st)
        if op == 'func':
            return self.call_func(self.prog.funcs[fn.args[0]], args, st)
        if op == 'cls':
            return self.construct(fn.args[0], args, st)
        if op == 'bmeth':
            return self.call_method(fn.args[0], fn.args[1], args, st)
        if op == 'bsuper':
            return self.call_super(fn, args, st)
        if op == 'ite':
            return self.branch(fn.args[0], lambda s: self.call(fn.args[1], args, s),
                               lambda s: self.call(fn.args[2], args, s), st)
        if op == 'lam' and args.plain() and not args.kw and len(args.pos) >= 1:
            v = fn
            for a in args.pos:
                if v.op != 'lam':
                    break
                v = apply_lam(v, self.freeze(a, st))
            return v
        if op == 'ext':
            return self.ext.call(self, fn.args[0], args, st)
        if op == 'attr':
            return self.ext.call_method(self, fn.args[0], fn.args[1], args, st)
        if fn in self.partials:
            f, a0 = self.partials[fn]
            return self.call(f, Args(list(a0.pos) + list(args.pos), {**a0.kw, **args.kw}, None, list(a0.starkw) + list(args.starkw)), st)
        k = kind(fn)
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] in self.prog.classes:
            return self.call_method(fn, '__call__', args, st)
        self.event('extcall', st, seq(const('<value>'), fn, *[self.freeze(a, st) for a in args.pos if isinstance(a, Node)]))
        return mk('apply', fn, self.args_term(args, st))

    def args_term(self, args, st):
        parts = []
        for p in args.pos:
            if isinstance(p, tuple):
                parts.append(self.freeze(p[1], st))
            else:
                parts.append(seq(self.freeze(p, st)))
        out = [concat(*parts)]
        kws = [mk('kw', k, self.freeze(v, st)) for k, v in sorted(args.kw.items())]
        kws += [mk('kw', '**', self.freeze(d, st)) for d in args.starkw]
        if kws:
            out.append(seq(*kws))
        return mk('args', *out)

    def bind(self, fi, args, st, skip_self=None, checks=True):
        "bind evaluated args to parameters.  returns dict (may contain '**')"
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        vals = list(args.pos)
        if skip_self is not None:
            vals = [skip_self] + vals
        i = 0
        rest = []
        star_seen = False
        while vals:
            v = vals.pop(0)
            if isinstance(v, tuple):
                # unknown-length star argument
                if i < len(pos):
                    # spread lazily over the remaining positional parameters without default
                    need = [p for p in pos[i:] if p not in args.kw]
                    nd = len(a.defaults)
                    req = [p for j, p in enumerate(pos) if j >= i and j < len(pos) - nd and p not in args.kw]
                    if a.vararg is None:
                        nv = len([x for x in vals if not isinstance(x, tuple)])
                        take = req[:len(req) - nv] if nv <= len(req) else []
                        for j, p in enumerate(take):
                            bound[p] = index(v[1], const(j))
                        i += len(take)
                        continue
                    for j, p in enumerate(req):
                        bound[p] = index(v[1], const(j))
                    i += len(req)
                    rest.append(index(v[1], slice_(const(len(req)), NONE, NONE)))
                else:
                    rest.append(v[1])
                star_seen = True
                continue
            if i < len(pos) and not star_seen:
                bound[pos[i]] = v
                i += 1
            elif star_seen and i < len(pos) and a.vararg is None:
                bound[pos[i]] = v
                i += 1
            else:
                rest.append(seq(v))
        if a.vararg:
            bound[a.vararg.arg] = concat(*rest)
        elif rest and checks:
            self.event('arity', st, seq(const(fi.qual), const('too many positional arguments')))
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in args.kw.items():
            if k in names:
                if k in bound and checks:
                    self.event('arity', st, seq(const(fi.qual), const('multiple values for ' + k)))
                bound[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = mk('dict')
            for x in args.starkw:
                d = self.ext.dict_update(d, x)
            for k, v in extra.items():
                d = self.ext.dict_store(d, const(k), v)
            bound[a.kwarg.arg] = d
            if args.starkw:
                for p in pos + [x.arg for x in a.kwonlyargs]:
                    if p not in bound:
                        dflt = self.default_of(fi, p, st)
                        bound[p] = mk('kwget', seq(*args.starkw), p, dflt)
        else:
            if extra and checks:
                self.event('arity', st, seq(const(fi.qual), const('unexpected keyword ' + ','.join(extra))))
            if args.starkw:
                for p in pos + [x.arg for x in a.kwonlyargs]:
                    if p not in bound:
                        dflt = self.default_of(fi, p, st)
                        bound[p] = mk('kwget', seq(*[self.freeze(x, st) for x in args.starkw]), p, dflt)
        return bound

    def default_of(self, fi, p, st):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        fr = Frame(None, fi, fi.module, fi.cls)
        for q, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if q.arg == p:
                return self.eval(d, st, fr)
        for q, d in zip(a.kwonlyargs, a.kw_defaults):
            if q.arg == p and d is not None:
                return self.eval(d, st, fr)
        return mk('required')

    def call_closure(self, fn, args, st, checks=True):
        cl = self.closures[fn.args[0]]
        a = cl.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = self.bind(cl.info, args, st, checks=checks)
        for p, d in zip(names[len(names) - len(cl.defaults):], cl.defaults):
            if p not in bound:
                bound[p] = d
        for p, d in cl.kwdefaults.items():
            bound.setdefault(p, d)
        for p in names:
            if p not in bound:
                if checks:
                    self.event('arity', st, seq(const(cl.info.qual), const('missing argument ' + p)))
                bound[p] = mk('opaque', 'missing argument ' + p)
        if a.vararg:
            bound.setdefault(a.vararg.arg, seq())
        if cl.info.qual in self.callchain and isinstance(cl.node, ast.FunctionDef):
            fb = {p: self.freeze(v, st) for p, v in bound.items()}
            # recursive functions are told apart by order of appearance, not by name
            rid = self.__dict__.setdefault('_recs', {}).setdefault(cl.info.qual, 'rec%d' % len(self.__dict__.get('_recs', ())))
            self.event('rcall', st, seq(const(rid), *[fb[p] for p in names]))
            r = mk('rcall', rid, *[fb[p] for p in names])
            if cl.info.is_gen:
                SYMKIND[r] = seqk()
            return r
        v, s2 = self.invoke(cl.info, bound, st, cl.frame)
        if s2 is None:
            raise NoReturn()
        self.copy_state(st, s2)
        return v

    def call_func(self, fi, args, st, selfval=None):
        bound = self.bind(fi, args, st, selfval)
        if fi.qual in self.contracts or fi.qual in self.callchain:
            return self.ccall(fi, bound, st)
        names = fi.params()
        full = self.fill_defaults(fi, bound, st)
        for p in names:
            if full[p].op == 'opaque' and full[p].args[0].startswith('missing argument'):
                self.event('arity', st, seq(const(fi.qual), full[p]))
        v, s2 = self.invoke(fi, full, st, None)
        if s2 is None:
            raise NoReturn()
        self.copy_state(st, s2)
        return v

    def ccall(self, fi, bound, st):
        full = self.fill_defaults(fi, bound, st)
        for p, v in full.items():
            if v.op == 'opaque' and str(v.args[0]).startswith('missing argument'):
                self.event('arity', st, seq(const(fi.qual), v))
        a = fi.node.args
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            order.append(a.vararg.arg)
        if a.kwarg:
            order.append(a.kwarg.arg)
        raw = {p: full[p] for p in order}
        t = mk('ccall', fi.qual, tuple((p, self.freeze(full[p], st)) for p in order))
        self.event('ccall', st, t)
        h = self.ext.CCALL_EFFECTS.get(fi.qual)
        if h:
            h(self, raw, st)
        return t

    def construct(self, cname, args, st):
        ci = self.prog.classes.get(cname)
        if ci.is_namedtuple:
            names = getattr(ci, 'annots', [])
            b = {}
            for n_, v in zip(names, args.pos):
                b[n_] = v
            b.update(args.kw)
            if len(args.pos) > len(names) or set(b) - set(names) or any(
                    n_ not in b and n_ not in ci.assigns for n_ in names):
                self.event('arity', st, seq(const(cname), const('namedtuple fields')))
            for n_ in names:
                if n_ not in b and n_ in ci.assigns:
                    b[n_] = self.class_assign((ci, ci.assigns[n_]), st)
            t = mk('new', cname, tuple((n_, self.freeze(b.get(n_, self.opaque('missing')), st)) for n_ in names))
            self.event('new', st, t)
            return t
        m = self.prog.lookup(cname, '__init__')
        if not m:
            t = mk('new', cname, ())
            self.event('new', st, t)
            return t
        fi = m[1]
        bound = self.bind(fi, args, st, mk('sym', '<new>'))
        full = self.fill_defaults(fi, bound, st)
        a = fi.node.args
        for p, v in full.items():
            if v.op == 'opaque' and str(v.args[0]).startswith('missing argument'):
                self.event('arity', st, seq(const(cname), v))
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
        if a.vararg:
            order.append(a.vararg.arg)
        if a.kwarg:
            order.append(a.kwarg.arg)
        t = mk('new', cname, tuple((p, self.freeze(full[p], st)) for p in order))
        self.event('new', st, t)
        if cname in self.ext.MUTABLE_CLASSES and fi.qual not in self.callchain:
            return self.newref(st, t, cname)
        return t

    def call_method(self, o, name, args, st):
        o_ = self.val(o, st)
        if o_.op == 'cls':
            m = self.prog.lookup(o_.args[0], name)
            return self.call_func(m[1], args, st, o_)
        k = kind(o_)
        if isinstance(k, tuple) and k[0] == 'obj' and k[1] in self.prog.classes:
            m = self.prog.lookup(k[1], name)
            if m and m[0] == 'method':
                if m[1].kind == 'static':
                    return self.call_func(m[1], args, st)
                if m[1].kind == 'classm':
                    return self.call_func(m[1], args, st, mk('cls', k[1]))
                grow = self.ext.GROW.get(m[1].qual)
                if grow and (o.op == 'ref' or self.made_here(o_)):
                    b = self.bind(m[1], args, st, o_)
                    rest = [p for p in m[1].params()[1:] if p in b]
                    if len(rest) == 1:
                        x = b[rest[0]]
                        self.ccall(m[1], b, st)
                        more = seq(self.freeze(x, st)) if grow == 'append' else self.freeze(self.iterable(x, st), st)
                        new = self.ext.grown(o_, more)
                        if o.op == 'ref':
                            st.heap[o] = new
                        else:
                            self.replace_alias(o_, new, st)
                        return NONE
                return self.call_func(m[1], args, st, o_)
            if m and m[0] == 'assign':
                v = self.class_assign(m[1], st)
                if v.op == 'func':
                    return self.call_func(self.prog.funcs[v.args[0]], args, st, o_)
        return self.ext.call_method(self, o, name, args, st)

    def call_super(self, fn, args, st):
        cname, me, name = fn.args
        mro = self.prog.mro(cname)
        for c in mro[1:]:
            if name in c.methods:
                return self.call_func(c.methods[name], args, st, me)
        if name == '__init__':
            return NONE
        self.event('extcall', st, seq(const('super.' + name), self.freeze(me, st), self.args_term(args, st)))
        return mk('mcall', 'super.' + name, me, self.args_term(args, st))


class LoopInfo:
    def __init__(self, n, bv, c0, lvs, fl, st, loc, fr, node, body_st):
        self.n, self.bv, self.c0, self.lvs, self.fl, self.st, self.loc, self.fr, self.node = n, bv, c0, lvs, fl, st, loc, fr, node
        self.body_pc = body_st.pc
        self.at = {}
        self.qual = fr.func.qual if fr.func else '?'
        self.allend = None

    def lv(self, name):
        for key, l in self.lvs.items():
            if key[0] == 'v' and key[1][1] == name:
                return l


class NoReturn(Exception):
    pass


SYMKIND_HINT = {}

ITEM_MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'pop', 'remove', 'discard', 'clear', 'sort', 'reverse'}


def _frames(f):
    while f is not None:
        yield f
        f = f.parent


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def store(o, i, v):
    # full-slice store replaces the contents
    if i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
        return mk('fill', shape_of(o), v)
    if o.op == 'store' and i.dig < o.args[1].dig and separate(i, o.args[1]):
        # no element is written by both: in any order
        return mk('store', store(o.args[0], i, v), o.args[1], o.args[2])
    return mk('store', o, i, v)


def separate(i, j):
    "no element is at both indices of an array: from different starts at the same steps, or at different fixed places"
    if i.op == 'seq' and j.op == 'seq' and len(i.args) == len(j.args):
        return any(separate(a, b) for a, b in zip(i.args, j.args))
    if is_num_const(i) and is_num_const(j):
        return cval(i) != cval(j) and (cval(i) >= 0) == (cval(j) >= 0)
    a, b = strided(i), strided(j)
    return bool(a and b and a[1] == b[1] and (a[0] - b[0]) % a[1])


def strided(i):
    if i.op == 'slice' and is_num_const(i.args[2]) and cval(i.args[2]) > 1 and \
            (i.args[0] is NONE or is_num_const(i.args[0]) and cval(i.args[0]) >= 0):
        return (0 if i.args[0] is NONE else cval(i.args[0])), cval(i.args[2])


def shape_of(o):
    if o.op == 'call' and o.args[0] in ('empty', 'zeros', 'ones', 'full') and len(o.args) > 1:
        return o.args[1]
    if o.op == 'fill':
        return o.args[0]
    return mk('shape', o)


def concat_raw(a, b):
    return concat(a, b)


def close_map_raw(n, body, bv, cond=TRUE):
    lvl = 1 + max(body.maxbv, cond.maxbv)
    canon = mk('bv', lvl)
    b, c = subst(body, {bv: canon}), subst(cond, {bv: canon})
    if c is TRUE:
        return mk('map', lvl, n, b)
    return mk('fmap', lvl, n, c, b)
