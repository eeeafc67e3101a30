"""Behaviour-preserving AST edits of one module: list of (description, line, qualname, source)."""
import ast
import builtins
import copy
from mutants import functions

BI = set(dir(builtins))


def own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def stores(nodes):
    out = set()
    for r in nodes:
        for n in ast.walk(r):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def loads(nodes):
    return {n.id for r in nodes for n in ast.walk(r) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def comp_targets(nodes):
    out = set()
    for r in nodes:
        for n in ast.walk(r):
            if isinstance(n, ast.comprehension):
                out |= stores([n.target])
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                a = n.args
                out |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
                for v in (a.vararg, a.kwarg):
                    if v:
                        out.add(v.arg)
    return out


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [v.arg for v in (a.vararg, a.kwarg) if v]


def bodies(fn):
    for n in [fn] + [x for x in own(fn)]:
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def name(x):
    return ast.Name(x, ast.Load())


def refactors(src):
    res = []
    base = ast.parse(src)
    nfun = len(functions(base))
    for fi in range(nfun):
        def fresh():
            t = ast.parse(src)
            q, fn = functions(t)[fi]
            return t, q, fn
        t, qual, fn = fresh()
        is_doc = bool(fn.body) and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str)
        start = 1 if is_doc else 0
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
        globs = {n for x in t.body for n in stores([x])} | {a.asname or a.name for x in t.body if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}

        def emit(desc, t, line=0):
            ast.fix_missing_locations(t)
            try:
                s = ast.unparse(t)
                ast.parse(s)
            except Exception as e:
                return
            res.append((desc, line or fn.lineno, qual, s))
        # 1 rename locals
        t, q, f = fresh()
        loc = stores(f.body) - set(params(f)) - comp_targets(f.body)
        nl = {x for n in ast.walk(f) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        loc -= nl
        loc -= {(a.asname or a.name).split('.')[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += '_r'
            if isinstance(n, ast.FunctionDef) and n.name in loc:
                n.name += '_r'
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += '_r'
        if loc:
            emit('rename locals', t)
        # 2 return temp
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for i in range(len(b) - 1, -1, -1):
                if isinstance(b[i], ast.Return) and b[i].value is not None:
                    b[i:i + 1] = [ast.Assign([ast.Name('_result', ast.Store())], b[i].value), ast.Return(name('_result'))]
                    k += 1
        if k:
            emit('return through a temporary', t)
        # 3 hoist call arguments of simple statements
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for i in range(len(b) - 1, -1, -1):
                st = b[i]
                if isinstance(st, (ast.Return, ast.Assign, ast.Expr)) and isinstance(getattr(st, 'value', None), ast.Call):
                    c = st.value
                    if isinstance(c.func, (ast.Name, ast.Attribute)) and c.args and not isinstance(c.args[0], (ast.Starred, ast.Constant, ast.Name, ast.GeneratorExp)):
                        v = f'_arg{k}'
                        k += 1
                        b.insert(i, ast.Assign([ast.Name(v, ast.Store())], c.args[0]))
                        c.args[0] = name(v)
        if k:
            emit('hoist first call argument', t)
        # 4 extract suffix
        for cut in range(start + 1, len(fn.body)):
            t, q, f = fresh()
            suf = f.body[cut:]
            if isgen or not isinstance(suf[-1], ast.Return) or any(isinstance(x, (ast.Nonlocal, ast.Global)) for s_ in f.body for x in ast.walk(s_)):
                continue
            if any(isinstance(x, ast.FunctionDef) for s_ in f.body[:cut] for x in ast.walk(s_)):
                continue
            if 'super' in loads(suf):
                continue
            avail = (set(params(f)) | stores(f.body[:cut])) - comp_targets(f.body[:cut]) | set(params(f))
            need = sorted(loads(suf) & avail)
            h = ast.FunctionDef(f'_{f.name.strip("_")}_tail', ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), suf, [], None, None, type_params=[])
            f.body[cut:] = [ast.Return(ast.Call(name(h.name), [name(x) for x in need], []))]
            t.body.append(h)
            emit(f'extract tail from statement {cut} into a helper', t, fn.body[cut].lineno)
        # 5 extract right-hand sides
        assigns = [i for i, n in enumerate([x for x in own(fn) if isinstance(x, ast.Assign)])]
        for i in assigns:
            t, q, f = fresh()
            st = [x for x in own(f) if isinstance(x, ast.Assign)][i]
            v = st.value
            if isinstance(v, (ast.Constant, ast.Name)) or 'super' in loads([v]) or any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(v)):
                continue
            avail = set(params(f)) | stores(f.body)
            inner = comp_targets([v])
            need = sorted((loads([v]) & avail) - inner)
            if loads([v]) & {x.name for x in own(f) if isinstance(x, ast.FunctionDef)}:
                pass
            h = ast.FunctionDef('_compute', ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(v)], [], None, None, type_params=[])
            st.value = ast.Call(name('_compute'), [name(x) for x in need], [])
            t.body.append(h)
            emit('extract expression into a helper', t, st.lineno)
        # 6 invert ifs
        nif = len([x for x in own(fn) if isinstance(x, ast.If)])
        for i in range(nif):
            t, q, f = fresh()
            st = [x for x in own(f) if isinstance(x, ast.If)][i]
            neg = st.test.operand if isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not) else ast.UnaryOp(ast.Not(), st.test)
            st.test, st.body, st.orelse = neg, (st.orelse or [ast.Pass()]), st.body
            emit('invert if', t, st.lineno)
            # 7 else after return
            t, q, f = fresh()
            for p, fld, b in list(bodies(f)):
                for j, st in enumerate(b):
                    if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)) and j + 1 < len(b):
                        if st is [x for x in own(f) if isinstance(x, ast.If)][i]:
                            st.orelse = b[j + 1:]
                            del b[j + 1:]
                            emit('else after return', t, st.lineno)
                            break
                else:
                    continue
                break
        # 8 comprehension -> loop
        for i in assigns + [-1 - j for j in range(len([x for x in own(fn) if isinstance(x, ast.Return)]))]:
            t, q, f = fresh()
            for p, fld, b in list(bodies(f)):
                for j, st in enumerate(b):
                    lst = [x for x in own(f) if isinstance(x, ast.Assign)] if i >= 0 else [x for x in own(f) if isinstance(x, ast.Return)]
                    if st is not lst[i if i >= 0 else -1 - i]:
                        continue
                    v = st.value
                    wrap = None
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('tuple', 'list', 'set') and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
                        wrap, v = v.func.id, v.args[0]
                    if isinstance(v, ast.ListComp) or wrap:
                        pass
                    elif isinstance(v, ast.DictComp):
                        pass
                    else:
                        continue
                    d = isinstance(v, ast.DictComp)
                    if comp_targets([v]) & (set(params(f)) | stores(f.body) - comp_targets(f.body)):
                        continue
                    # rename targets apart
                    if d:
                        inner = ast.Assign([ast.Subscript(name('_acc'), v.key, ast.Store())], v.value)
                    else:
                        inner = ast.Expr(ast.Call(ast.Attribute(name('_acc'), 'append', ast.Load()), [v.elt], []))
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs):
                            inner = ast.If(c, [inner], [])
                        inner = ast.For(g.target, g.iter, [inner], [])
                    st.value = name('_acc') if not wrap or wrap == 'list' else ast.Call(name(wrap), [name('_acc')], [])
                    b[j:j + 1] = [ast.Assign([ast.Name('_acc', ast.Store())], ast.Dict([], []) if d else ast.List([], ast.Load())), inner, st]
                    emit('comprehension to loop', t, st.lineno)
                    break
                else:
                    continue
                break
        # 10 append loop -> comprehension
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for j in range(len(b) - 1):
                a, l = b[j], b[j + 1]
                if isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(l, ast.For) and len(l.body) == 1 and not l.orelse:
                    x = l.body[0]
                    ifs = []
                    if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                        ifs, x = [x.test], x.body[0]
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) and isinstance(a.targets[0], ast.Name) and x.value.func.value.id == a.targets[0].id:
                        a.value = ast.ListComp(x.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)])
                        b[j + 1] = ast.Pass()
                        k += 1
        if k:
            emit('append loop to comprehension', t)
        # 11 flip comparisons
        t, q, f = fresh()
        k = 0
        FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FL:
                n.ops[0] = FL[type(n.ops[0])]()
                n.left, n.comparators[0] = n.comparators[0], n.left
                k += 1
        if k:
            emit('flip comparisons', t)
        # 12 de Morgan
        t, q, f = fresh()
        k = 0

        class DM(ast.NodeTransformer):
            def visit_If(self, n):
                nonlocal k
                self.generic_visit(n)
                if isinstance(n.test, ast.BoolOp):
                    o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
                    k += 1
                return n
        DM().visit(f)
        if k:
            emit('de Morgan', t)
        # 13 conditional expressions to statements
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for j, st in enumerate(b):
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
                    b[j] = ast.If(st.value.test, [ast.Assign(copy.deepcopy(st.targets), st.value.body)], [ast.Assign(st.targets, st.value.orelse)])
                    k += 1
                elif isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
                    b[j] = ast.If(st.value.test, [ast.Return(st.value.body)], [ast.Return(st.value.orelse)])
                    k += 1
        if k:
            emit('conditional expression to if', t)
        # 14 asserts to raise
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for j, st in enumerate(b):
                if isinstance(st, ast.Assert):
                    b[j] = ast.If(ast.UnaryOp(ast.Not(), st.test), [ast.Raise(ast.Call(name('AssertionError'), [st.msg] if st.msg else [], []), None)], [])
                    k += 1
        if k:
            emit('assert to raise', t)
        # 15 unpack in body
        t, q, f = fresh()
        k = 0
        for n in list(own(f)):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
                n.body.insert(0, ast.Assign([n.target], name('_pair')))
                n.target = ast.Name('_pair', ast.Store())
                k += 1
        if k == 1:
            emit('unpack loop target in the body', t)
        # 16 hoist constants to module level
        t, q, f = fresh()
        cs = [n for n in own(f) if isinstance(n, ast.Constant) and isinstance(n.value, (float, str)) and not (is_doc and n is f.body[0].value) and len(str(n.value)) > 2]
        js = {x for n in ast.walk(f) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
        cs = [c for c in cs if c not in js]
        class HC(ast.NodeTransformer):
            def visit_Constant(self, n):
                return name('_K0') if n is c0 else n
        if cs:
            c0 = cs[0]
            v = c0.value
            HC().visit(f)
            t.body.insert(1 if isinstance(t.body[0], ast.Expr) else 0, ast.Assign([ast.Name('_K0', ast.Store())], ast.Constant(v)))
            if not any(isinstance(x, ast.ImportFrom) and x.module == '__future__' for x in t.body):
                emit('constant to module level', t)
        # 17 swap independent adjacent assignments
        t, q, f = fresh()
        for p, fld, b in list(bodies(f)):
            for j in range(len(b) - 1):
                x, y = b[j], b[j + 1]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and all(isinstance(z.targets[0], ast.Name) for z in (x, y)):
                    if not (stores([x]) & (loads([y]) | stores([y]))) and not (stores([y]) & loads([x])):
                        if not any(isinstance(z, ast.Call) for z in ast.walk(x)) or not any(isinstance(z, ast.Call) for z in ast.walk(y)):
                            b[j], b[j + 1] = y, x
                            emit('swap independent assignments', t, x.lineno)
                            b[j], b[j + 1] = x, y
        # 18 dead statements
        t, q, f = fresh()
        f.body.insert(start, ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(0)))
        emit('dead assignment', t)
        t, q, f = fresh()
        f.body.insert(start, ast.If(ast.Constant(False), [ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(0))], []))
        emit('dead branch', t)
        # 19 comprehension variable renamed / generator to list
        t, q, f = fresh()
        k = 0

        class G2L(ast.NodeTransformer):
            def visit_Call(self, n):
                nonlocal k
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'all', 'any', 'sum', 'min', 'max', 'set', 'sorted', 'dict') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                    g = n.args[0]
                    n.args[0] = ast.ListComp(g.elt, g.generators)
                    k += 1
                return n
        G2L().visit(f)
        if k:
            emit('generator to list', t)
        # 20 range loop
        t, q, f = fresh()
        k = 0
        for n in list(own(f)):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Name):
                n.body.insert(0, ast.Assign([n.target], ast.Subscript(ast.Name('_items', ast.Load()), name('_i'), ast.Load())))
                n.target = ast.Name('_i', ast.Store())
                it = n.iter
                n.iter = ast.Call(name('range'), [ast.Call(name('len'), [name('_items')], [])], [])
                for p, fld, b in list(bodies(f)):
                    if n in b:
                        b.insert(b.index(n), ast.Assign([ast.Name('_items', ast.Store())], ast.Call(name('list'), [it], [])))
                        k += 1
                        break
                break
        if k:
            emit('loop over positions', t)
        # 21 augmented assignment on scalars spelled out
        t, q, f = fresh()
        k = 0
        for p, fld, b in list(bodies(f)):
            for j, st in enumerate(b):
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.value, (ast.Constant, ast.Tuple)):
                    b[j] = ast.Assign([st.target], ast.BinOp(name(st.target.id), st.op, st.value))
                    k += 1
        if k:
            emit('augmented assignment spelled out', t)
        # 22 chained comparison split
        t, q, f = fresh()
        k = 0

        class CC(ast.NodeTransformer):
            def visit_Compare(self, n):
                nonlocal k
                self.generic_visit(n)
                if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
                    k += 1
                    return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
                return n
        CC().visit(f)
        if k:
            emit('split chained comparison', t)
    return res
