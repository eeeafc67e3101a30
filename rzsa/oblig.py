"""Facets of a function: what it returns, demands, changes -- as normal-form terms."""
from .terms import *
from . import terms as T
from .interp import Interp, Budget, NoReturn, UNBOUND
from .loader import AnalysisBroken
from . import ext, spec


class Facets:
    "result of interpreting one function"

    def __init__(self, qual):
        self.qual = qual
        self.ret = None
        self.guards = []         # list of (term, loc)
        self.fields = {}         # (root term, attr) -> final value
        self.mut = []            # (root term, how, cond, loc)
        self.acts = []           # operations that change an object of the caller and are not followed into
        self.io = []             # (name, args, cond, loc)
        self.calls = []          # contract calls
        self.bugs = []           # (kind, data, loc): unbound / undefined / arity / typeerror / format
        self.events = []
        self.noreturn = False
        self.visited = set()
        self.lines = set()
        self.loc = None
        self.error = None
        self._vocab = None


    def vocab(self):
        "operators the function's facets are written with"
        if self._vocab is None:
            from .diff import tokens
            v = set(tokens(self.ret)) if self.ret is not None else set()
            for g, l in self.guards:
                v |= tokens(g)
            for x in self.fields.values():
                v |= tokens(x)
            for k in self.fields:
                v |= {('attr', k[1])} if isinstance(k[1], str) else set()
            for t, e, l in self.calls:
                v |= tokens(t)
            self._vocab = frozenset(v)
        return self._vocab


def quantify(e, c):
    "close condition c over the binders of event e"
    for n, bv, c0 in reversed(e.binders):
        if not occurs(bv, c) and c0 is TRUE:
            # constant over the iterations: holds vacuously for zero iterations
            c = or_(c, not_(lt(ZERO, n))) if n.op != 'inf' else c
            continue
        c = ext.mkall(close_map(n, c, bv, c0))
    return c


def close_event(e, *xs):
    "(condition, data...) of an event as one closed term: over all the iterations it occurs in"
    t = seq(e.cond, *[x for x in xs])
    for n, bv, c0 in reversed(e.binders):
        t = close_map(n, t, bv, c0)
    return t


def root_of(n):
    "object a term designates a part of"
    while True:
        if n.op in ('attr', 'idx', 'lookup', 'T', 'arr', 'slice', 'getor', 'view'):
            n = n.args[0]
            continue
        return n


def origin(n, depth=0):
    "object the caller gave, that a term without identity of its own still designates: after item assignments, on one of the paths, carried by a loop"
    n = root_of(n)
    if n.op == 'sym' or depth > 12:
        return n
    rest = ()
    if n.op in ('store', 'dstore', 'storev'):
        rest = n.args[:1]
    elif n.op in ('arr', 'astype'):     # the conversion keeps what is already an array of the type wanted
        rest = n.args[:1]
    elif n.op == 'ite':
        rest = n.args[1:]
    elif n.op in ('fold', 'foldat'):
        i = n.args[2]
        step = carried_step(n.args[0], i)
        if step is not None and kept(step, i):
            rest = (n.args[1].args[i],)
    for x in rest:
        o = origin(x, depth + 1)
        if o.op == 'sym':
            return o
    return n


def changed(x):
    "what names the object changed, however it was arrived at"
    r = root_of(x)
    o = origin(x)
    return (o.dig, x.dig if o is r else 'carried')


def carried_step(body, i):
    for a in reversed(body.args):
        if isinstance(a, Node) and a.op == 'seq' and i < len(a.args):
            return a.args[i]
    return None


def kept(step, i, depth=0):
    "is the value carried still the object it was, with items assigned?"
    step = root_of(step)
    if step.op == 'acc':
        return step.args[0] == i
    if depth > 12:
        return False
    if step.op in ('store', 'dstore', 'storev'):
        return kept(step.args[0], i, depth + 1)
    if step.op == 'ite':
        return any(kept(x, i, depth + 1) for x in step.args[1:])
    return False


IO_OPEN = {'builtins.open', 'numpy.loadtxt', 'numpy.fromfile', '.read', '.seek', '.readline', '.readlines', 'glob.glob',
           'os.stat', '.mkdir', '.write', '.iterdir', 'os.listdir', 'os.path.isfile', '.exists', '.is_dir', '.resolve', '.absolute',
           'os.path.abspath', '.close'}


EFFECTS = {'open', 'loadtxt', 'fromfile', 'read', 'seek', 'readline', 'readlines', 'glob', 'iglob', 'stat', 'mkdir', 'makedirs', 'write',
           'iterdir', 'listdir', 'isfile', 'isdir', 'exists', 'is_dir', 'is_file', 'close', 'echo', 'print', 'secho', 'remove', 'unlink',
           'rmdir', 'rename', 'replace_', 'touch', 'write_text', 'write_bytes', 'save', 'savetxt', 'tofile', 'walk', 'scandir', 'memmap',
           'chdir', 'system', 'popen', 'run', 'warn', 'seed', 'random', 'rand', 'shuffle', 'getcwd', 'environ', 'getenv', 'dump', 'rmtree',
           'move', 'copyfile', 'truncate', 'flush', 'writelines'}


CHANGERS = set('update setdefault pop popitem clear append extend insert remove sort reverse add discard __setitem__ __delitem__ __setattr__ __delattr__ '
               '__init__'.split())


def acting(d):
    "a method that changes its receiver, an object of the project"
    n = d.args[0]
    if n.op != 'const' or not isinstance(cval(n), str) or '.' not in cval(n) or cval(n).split('.')[-1] not in CHANGERS or len(d.args) < 2:
        return False
    k = kind(d.args[1])
    return isinstance(k, tuple) and k[0] == 'obj'


def effectful(d):
    n = d.args[0]
    return n.op == 'const' and isinstance(cval(n), str) and cval(n).split('.')[-1] in EFFECTS


def analyse(prog, qual, args=None, contracts=(), facts=(), pre=None, budget=400000, work=1000000):
    fi = prog.func(qual)
    f = Facets(qual)
    f.loc = (fi.module.relpath, fi.node.lineno)
    I = Interp(prog, set(contracts) - {fi.qual, qual}, budget=budget)
    from .interp import State
    st0 = State(facts=tuple(facts))
    try:
        with T.limit(work):
            v, st = I.run(fi, dict(args or {}), state=st0)
    except (Budget, T.Blowup) as e:
        f.error = 'budget'
        v, st = mk('opaque', 'budget'), None
    except NoReturn:
        v, st = mk('noreturn'), None
    except RecursionError:
        f.error = 'recursion'
        v, st = mk('opaque', 'recursion'), None
    f.interp = I
    f.ret = v
    f.noreturn = st is None
    f.visited, f.lines = I.visited, I.visited_lines
    f.events = I.events
    depth = 0
    for e in I.events:
        if e.kind == 'try':
            depth += 1
        elif e.kind == 'endtry':
            depth -= 1
        elif e.kind == 'assert':
            if depth == 0:
                f.guards.append((quantify(e, or_(not_(e.cond), e.data)), e.loc))
        elif e.kind == 'raise':
            if depth == 0:
                f.guards.append((quantify(e, not_(e.cond)), e.loc))
        elif e.kind == 'mutate':
            f.mut.append((e.data.args[0], e.data.args[1], e, e.loc))
            k = kind(e.data.args[0])
            if isinstance(k, tuple) and k[0] == 'obj' and (e.binders or cval(e.data.args[1]) != 'setitem'):
                f.acts.append((e.data, e, e.loc))
        elif e.kind == 'extcall' and acting(e.data):
            f.acts.append((e.data, e, e.loc))
        elif e.kind == 'with' or e.kind == 'extcall' and effectful(e.data):
            f.io.append((e.kind, e.data, e, e.loc))
        elif e.kind == 'ccall':
            f.calls.append((e.data, e, e.loc))
            if e.data.args[0] in spec.ACTING and e.data.args[1]:
                f.acts.append((e.data, e, e.loc))
        elif e.kind in ('unbound', 'undefined', 'arity', 'typeerror', 'format'):
            f.bugs.append((e.kind, e.data, e.cond, e.loc))
    if st is not None:
        for hk, hv in st.heap.items():
            if isinstance(hk, tuple) and hk[0] == 'attr' and isinstance(hv, Node):
                o = hk[1]
                k = kind(o)
                nm = hk[2]
                if isinstance(k, tuple) and k[0] == 'obj' and k[1] in prog.classes:
                    nm = ext.observers(I, k[1]).get(nm, nm)
                f.fields[(o, nm)] = I.freeze(hv, st)
            elif isinstance(hk, tuple) and hk[0] == 'item' and isinstance(hv, Node):
                f.fields[(hk[1], hk[2])] = I.freeze(hv, st)
    f.state = st
    return f


def conj(gs):
    out = []

    def parts(g):
        if g.op == 'and':
            for x in g.args:
                yield from parts(x)
        elif g.op == 'or' and sum(x.op == 'and' for x in g.args) == 1:
            both = next(x for x in g.args if x.op == 'and')
            rest = [x for x in g.args if x is not both]
            for x in both.args:
                yield from parts(or_(*rest, x))
        else:
            yield g
    for g in gs:
        for c in parts(g):
            if c is TRUE or c in out:
                continue
            out.append(c)
    return out
