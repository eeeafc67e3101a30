"""Parse the repository and build symbol tables (no import of the code under analysis)."""
import ast
import os

REPO = os.environ.get('RZSA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class AnalysisBroken(Exception):
    "an anchor the analysis needs is missing: exit code 2"


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, kind='func'):
        self.qual, self.node, self.module, self.cls, self.kind = qual, node, module, cls, kind
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f'<{self.qual}>'


def own_nodes(fn):
    "nodes of a function body, not entering nested functions/lambdas/classes"
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = node.bases
        self.methods, self.getters, self.setters, self.assigns = {}, {}, {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                decs = [ast.unparse(d) for d in st.decorator_list]
                kind = 'method'
                if any(d.split('.')[-1] in ('property', 'cached_property') for d in decs):
                    self.getters[st.name] = FuncInfo(f'{name}.{st.name}', st, module, self, 'getter')
                    continue
                if any(d.endswith('.setter') for d in decs):
                    self.setters[st.name] = FuncInfo(f'{name}.{st.name}.setter', st, module, self, 'setter')
                    continue
                if 'staticmethod' in decs:
                    kind = 'static'
                if 'classmethod' in decs:
                    kind = 'classm'
                self.methods[st.name] = FuncInfo(f'{name}.{st.name}', st, module, self, kind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.assigns[st.target.id] = st.value
                self.annots = getattr(self, 'annots', []) + [st.target.id]

    @property
    def is_namedtuple(self):
        return any(ast.unparse(b).split('.')[-1] == 'NamedTuple' for b in self.bases)


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.globals = {}
        self.relpath = os.path.relpath(path, REPO)
        self._collect(tree.body)

    def _pkg(self, level):
        parts = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.globals[st.name] = ('func', FuncInfo(f'{self.short}.{st.name}', st, self))
            elif isinstance(st, ast.ClassDef):
                self.globals[st.name] = ('class', ClassInfo(st.name, st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.globals[a.asname] = ('ext', a.name)
                    else:
                        self.globals[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    base = self._pkg(st.level) + ('.' + st.module if st.module else '')
                for a in st.names:
                    if a.name == '*':
                        self.globals.setdefault('*', []).append(base)
                    else:
                        self.globals[a.asname or a.name] = ('ext', base + '.' + a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = ('assign', st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.globals[e.id] = ('assign', ast.Subscript(st.value, ast.Constant(i), ast.Load()))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.globals[st.target.id] = ('assign', st.value)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                self._collect(st.body)
                self._collect(getattr(st, 'orelse', []))
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    saved = dict(self.globals)
                    self._collect(h.body)
                    # a fallback definition does not override a successful import
                    for k, v in saved.items():
                        if k != '*' and v[0] in ('ext', 'func', 'class'):
                            self.globals[k] = v
                self._collect(st.orelse)
                self._collect(st.finalbody)

    @property
    def short(self):
        return self.name.split('.', 1)[1] if '.' in self.name else self.name


class Program:
    def __init__(self, src=SRC, overrides=None):
        self.modules = {}
        self.files = []
        root = os.path.join(src, 'razorback')
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py') or f == '_version.py':
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if overrides and p in overrides:
                    s = overrides[p]
                else:
                    with open(p, encoding='utf-8') as h:
                        s = h.read()
                try:
                    tree = ast.parse(s, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f'cannot parse {p}: {e}')
                self.modules[rel] = Module(rel, p, tree, s)
                self.files.append(p)
        if not self.modules:
            raise AnalysisBroken(f'no module found under {root}')
        self.classes, self.funcs = {}, {}
        for m in self.modules.values():
            for k, v in m.globals.items():
                if k == '*':
                    continue
                if v[0] == 'class':
                    self.classes.setdefault(k, v[1])
                elif v[0] == 'func':
                    self.funcs[v[1].qual] = v[1]
        for c in self.classes.values():
            for f in list(c.methods.values()) + list(c.getters.values()) + list(c.setters.values()):
                self.funcs.setdefault(f.qual, f)

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            # moved to another module of the package, same name?
            name = qual.split('.')[-1]
            c = [x for q, x in self.funcs.items() if x.cls is None and q.split('.')[-1] == name]
            if '.' in qual and qual.split('.')[0] not in self.classes and len(c) == 1:
                return c[0]
            raise AnalysisBroken(f'anchor function {qual} not found')
        return f

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f'anchor class {name} not found')
        return c

    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            n = todo.pop(0)
            c = self.classes.get(n)
            if c is None or c in out:
                continue
            out.append(c)
            for b in c.bases:
                todo.append(ast.unparse(b).split('.')[-1])
        return out

    def lookup(self, cname, attr):
        "-> (kind, info) over the MRO"
        for c in self.mro(cname):
            if attr in c.getters:
                return 'getter', c.getters[attr]
            if attr in c.methods:
                return 'method', c.methods[attr]
            if attr in c.assigns:
                return 'assign', (c, c.assigns[attr])
        return None

    def is_subclass(self, a, b):
        if a == b:
            return True
        for c in self.mro(a):
            if c.name == b:
                return True
            for base in c.bases:
                if ast.unparse(base).split('.')[-1] == b:
                    return True
        return False
