"""Small syntactic variants of functions, for the positive controls of the thorough tier."""
import ast
import copy


class _Site(ast.NodeTransformer):
    pass


def _stmts(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, ast.stmt):
                        yield n, f, i, s


def fn_nodes(tree):
    for b in tree.body:
        if isinstance(b, ast.FunctionDef):
            yield b.name, b
        elif isinstance(b, ast.ClassDef):
            for c in b.body:
                if isinstance(c, ast.FunctionDef):
                    yield b.name + '.' + c.name, c


SW = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
      ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BW = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
RENAME = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'deepcopy': 'copy', 'zeros': 'ones', 'ones': 'zeros',
          'mean': 'median', 'std': 'var', 'var': 'std', 'floor': 'ceil', 'ceil': 'floor', 'append': 'extend', 'inv': 'pinv',
          'randn': 'rand', 'rand': 'randn', 'isnan': 'isinf', 'isinf': 'isnan', 'exp': 'log', 'log': 'exp', 'int': 'round'}
MODATTR = set()
NOISE = {'print', 'message', 'warn', 'display_gammar_settings', 'printer'}


def is_noise(n):
    return isinstance(n, ast.Call) and ((isinstance(n.func, ast.Name) and n.func.id in NOISE) or
                                        (isinstance(n.func, ast.Attribute) and n.func.attr in NOISE))


def mutations(fn):
    """yield (description, undoable action) pairs; action() applies, returns undo"""
    noise = set()
    for n in ast.walk(fn):
        if is_noise(n):
            for x in ast.walk(n):
                noise.add(id(x))
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) else None
    names = sorted({a.arg for a in fn.args.args} - {'self', 'cls'})
    locs = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    for n in ast.walk(fn):
        if id(n) in noise or n is doc:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Constant) and n.value is not None:
            v = n.value
            alts = []
            if v is True or v is False:
                alts = [not v]
            elif isinstance(v, (int, float)):
                alts = [v + 1] + ([v - 1] if v else [])
            elif isinstance(v, str):
                alts = [v + 'x']
            for a in alts:
                def act(n=n, a=a):
                    o = n.value
                    n.value = a
                    return lambda: setattr(n, 'value', o)
                yield 'L%d const %r->%r' % (ln, v, a), act
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                if type(op) in SW:
                    def act(n=n, i=i, op=op):
                        n.ops[i] = SW[type(op)]()
                        return lambda: n.ops.__setitem__(i, op)
                    yield 'L%d cmp %s' % (ln, type(op).__name__), act
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BW:
            def act(n=n):
                o = n.op
                n.op = BW[type(o)]()
                return lambda: setattr(n, 'op', o)
            yield 'L%d bin %s' % (ln, type(n.op).__name__), act
        if isinstance(n, ast.BoolOp):
            def act(n=n):
                o = n.op
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                return lambda: setattr(n, 'op', o)
            yield 'L%d boolop' % ln, act
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def act(n=n):
                o = n.test
                n.test = ast.UnaryOp(op=ast.Not(), operand=o)
                ast.fix_missing_locations(ast.copy_location(n.test, o))
                return lambda: setattr(n, 'test', o)
            yield 'L%d negate' % ln, act
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def act(n=n):
                n.args[0], n.args[1] = n.args[1], n.args[0]

                def undo():
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                return undo
            yield 'L%d swapargs %s' % (ln, ast.unparse(n)[:50]), act
        if isinstance(n, ast.Call) and n.keywords and len(n.keywords) >= 1 and not is_noise(n):
            for i, k in enumerate(n.keywords):
                def act(n=n, i=i):
                    o = n.keywords.pop(i)
                    return lambda: n.keywords.insert(i, o)
                yield 'L%d dropkw %s' % (ln, k.arg), act
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in RENAME:
            def act(n=n):
                o = n.func.attr
                n.func.attr = RENAME[o]
                return lambda: setattr(n.func, 'attr', o)
            yield 'L%d rename %s->%s' % (ln, n.func.attr, RENAME[n.func.attr]), act
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in RENAME:
            def act(n=n):
                o = n.func.id
                n.func.id = RENAME[o]
                return lambda: setattr(n.func, 'id', o)
            yield 'L%d rename %s->%s' % (ln, n.func.id, RENAME[n.func.id]), act
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                def act(n=n, part=part):
                    o = getattr(n, part)
                    e = ast.Constant(value=1) if o is None and part == 'lower' else \
                        ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1)) if o is None else \
                        ast.BinOp(left=o, op=ast.Add(), right=ast.Constant(value=1))
                    setattr(n, part, ast.fix_missing_locations(e))
                    return lambda: setattr(n, part, o)
                yield 'L%d slice %s' % (ln, part), act
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                def act(n=n, i=i):
                    o = n.values[i]
                    n.values[i] = ast.Constant(value=isinstance(n.op, ast.And))
                    return lambda: n.values.__setitem__(i, o)
                yield 'L%d drop operand %d' % (ln, i), act
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
            sib = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and
                          x.value.id == n.value.id and isinstance(x.ctx, ast.Load) and x.attr not in MODATTR})
            if n.value.id not in ('np', 'os', 'sys', 'plt', 'scipy', 'json', 'copy', 'math', 'time') and n.attr in sib and len(sib) > 1:
                j = sib[(sib.index(n.attr) + 1) % len(sib)]

                def act(n=n, j=j):
                    o = n.attr
                    n.attr = j
                    return lambda: setattr(n, 'attr', o)
                yield 'L%d attr %s.%s->%s' % (ln, n.value.id, n.attr, j), act
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            j = locs[(locs.index(n.id) + 1) % len(locs)]

            def act(n=n, j=j):
                o = n.id
                n.id = j
                return lambda: setattr(n, 'id', o)
            yield 'L%d local %s->%s' % (ln, n.id, j), act
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Name, ast.BinOp)):
            def act(n=n):
                o = n.slice
                n.slice = ast.Constant(value=0)
                return lambda: setattr(n, 'slice', o)
            yield 'L%d index %s->0' % (ln, ast.unparse(n)[:40]), act
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            j = names[(names.index(n.id) + 1) % len(names)]

            def act(n=n, j=j):
                o = n.id
                n.id = j
                return lambda: setattr(n, 'id', o)
            yield 'L%d name %s->%s' % (ln, n.id, j), act
    for par, f, i, s in list(_stmts(fn)):
        if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or is_noise(s.value)):
            continue
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise, ast.If)):
            def act(par=par, f=f, i=i, s=s):
                b = getattr(par, f)
                b[i] = ast.copy_location(ast.Pass(), s)
                return lambda: b.__setitem__(i, s)
            yield 'L%d delete %s' % (s.lineno, ast.unparse(s).split('\n')[0][:60]), act
