"""AST mutants of one module: list of (description, line, qualname, source)."""
import ast
import copy

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult, ast.MatMult: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {'floor': 'ceil', 'ceil': 'floor', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'minimum': 'maximum',
         'sorted': 'list', 'abs': 'float', 'real': 'imag', 'imag': 'real', 'append': 'extend', 'reversed': 'iter',
         'conj': 'copy', 'starts': 'stops', 'stops': 'starts', 'start': 'stop', 'stop': 'start', 'union': 'intersection',
         'intersection': 'union', 'product': 'zip', 'zip': 'product', 'sum': 'max', 'mean': 'sum', 'median': 'mean', 'T': 'real',
         'issubset': 'issuperset', 'isclose': 'equal', 'sin': 'cos', 'cos': 'sin', 'isfile': 'exists', 'zeros': 'ones', 'ones': 'zeros',
         'inputs': 'outputs', 'outputs': 'inputs', 'signals': '_signals_'}


def functions(tree):
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                walk(c, pre + [c.name])
            elif isinstance(c, ast.FunctionDef):
                out.append(('.'.join(pre + [c.name]), c))
            elif isinstance(c, (ast.If, ast.Try)):
                walk(c, pre)
    walk(tree, [])
    return out


def mutants(src):
    tree = ast.parse(src)
    res = []
    for qual, fn in functions(tree):
        doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str) else None
        locs = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})

        def emit(desc, node):
            try:
                s = ast.unparse(tree)
            except Exception:
                return
            res.append((desc, getattr(node, 'lineno', fn.lineno), qual, s))
        inraise = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Raise) and n.exc is not None:
                for x in ast.walk(n.exc):
                    inraise.add(x)
            if isinstance(n, ast.JoinedStr):
                for x in ast.walk(n):
                    inraise.add(x)
            if isinstance(n, ast.Assert) and n.msg is not None:
                for x in ast.walk(n.msg):
                    inraise.add(x)
        for n in list(ast.walk(fn)):
            if n in inraise:
                continue
            if isinstance(n, ast.Constant) and n is not doc:
                v = n.value
                alts = []
                if isinstance(v, bool):
                    alts = [not v]
                elif isinstance(v, int):
                    alts = [v + 1, v - 1] if v else [1]
                elif isinstance(v, float):
                    alts = [v * 2]
                elif isinstance(v, str) and v:
                    alts = [v + 'X']
                elif v is None:
                    alts = [0]
                for a in alts:
                    n.value = a
                    emit(f'const {v!r}->{a!r}', n)
                n.value = v
            elif isinstance(n, ast.Compare):
                for i, o in enumerate(n.ops):
                    for a in CMP.get(type(o), []):
                        n.ops[i] = a()
                        emit(f'cmp {type(o).__name__}->{a.__name__}', n)
                        n.ops[i] = o
            elif isinstance(n, ast.BinOp):
                o = n.op
                a = BIN.get(type(o))
                if a:
                    n.op = a()
                    emit(f'bin {type(o).__name__}->{a.__name__}', n)
                    n.op = o
                if not isinstance(o, (ast.Add, ast.Mult)):
                    n.left, n.right = n.right, n.left
                    emit('swap operands', n)
                    n.left, n.right = n.right, n.left
            elif isinstance(n, ast.AugAssign):
                o = n.op
                a = BIN.get(type(o))
                if a:
                    n.op = a()
                    emit(f'aug {type(o).__name__}->{a.__name__}', n)
                    n.op = o
            elif isinstance(n, ast.BoolOp):
                o = n.op
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                emit('boolop', n)
                n.op = o
                vs = n.values
                for i in range(len(vs)):
                    if len(vs) > 1:
                        n.values = vs[:i] + vs[i + 1:]
                        emit(f'drop bool operand {i}', n)
                n.values = vs
            elif isinstance(n, ast.UnaryOp):
                o = n.op
                if isinstance(o, (ast.Not, ast.USub)):
                    n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not()
                    if isinstance(o, ast.USub):
                        emit('drop minus', n)
                    else:
                        op = n.operand
                        n.operand = ast.UnaryOp(ast.Not(), op)
                        emit('drop not', n)
                        n.operand = op
                    n.op = o
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    emit('swap args', n)
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                ks = n.keywords
                for i in range(len(ks)):
                    n.keywords = ks[:i] + ks[i + 1:]
                    emit(f'drop kwarg {ks[i].arg}', n)
                n.keywords = ks
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                    sv = (n.func, n.args)
                    par = replace(fn, n, n.args[0])
                    if par:
                        emit('unwrap call ' + ast.unparse(sv[0])[:30], n)
                        par()
                if len(n.args) == 0 and not n.keywords and isinstance(n.func, ast.Attribute):
                    par = replace(fn, n, n.func.value)
                    if par:
                        emit('unwrap method ' + n.func.attr, n)
                        par()
            elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
                v = n.attr
                n.attr = NAMES[v]
                emit(f'attr {v}->{n.attr}', n)
                n.attr = v
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = n.id
                if v in NAMES:
                    n.id = NAMES[v]
                    emit(f'name {v}->{n.id}', n)
                    n.id = v
                if v in locs:
                    i = locs.index(v)
                    for a in {locs[i - 1], locs[(i + 1) % len(locs)]} - {v}:
                        n.id = a
                        emit(f'var {v}->{a}', n)
                        n.id = v
            elif isinstance(n, ast.Slice):
                for f in ('lower', 'upper', 'step'):
                    v = getattr(n, f)
                    if v is not None:
                        setattr(n, f, None)
                        emit(f'drop slice {f}', n)
                        setattr(n, f, v)
            elif isinstance(n, ast.If):
                t = n.test
                n.test = ast.UnaryOp(ast.Not(), t)
                emit('negate if', n)
                n.test = ast.Constant(True)
                emit('if True', n)
                n.test = ast.Constant(False)
                emit('if False', n)
                n.test = t
            elif isinstance(n, ast.IfExp):
                n.body, n.orelse = n.orelse, n.body
                emit('swap ifexp', n)
                n.body, n.orelse = n.orelse, n.body
            elif isinstance(n, ast.comprehension):
                v = n.ifs
                if v:
                    n.ifs = []
                    emit('drop comp if', n.iter)
                    n.ifs = v
            elif isinstance(n, ast.For):
                it = n.iter
                n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [it], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
                emit('skip first iteration', n)
                n.iter = it
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    for i, st in enumerate(list(b)):
                        if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Continue, ast.Break, ast.Return, ast.With, ast.Try, ast.For, ast.If)):
                            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                                continue
                            b[i] = ast.copy_location(ast.Pass(), st)
                            emit(f'delete {ast.unparse(st)[:40]!r}', st)
                            b[i] = st
                        if i + 1 < len(b) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and st.lineno > fn.lineno + 1:
                            if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                                b[i], b[i + 1] = b[i + 1], b[i]
                                emit(f'swap stmts {ast.unparse(st)[:30]!r}', st)
                                b[i], b[i + 1] = b[i + 1], b[i]
    return res


def replace(root, old, new):
    for p in ast.walk(root):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return lambda p=p, f=f: setattr(p, f, old)
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return lambda v=v, i=i: v.__setitem__(i, old)
    return None
