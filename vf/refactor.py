"""Behaviour-preserving rewrites of a function, for the negative controls: obligations have to stay quiet on them.

Every generator yields (description, new module text)."""
import ast
import copy
from .mutants import fn_nodes

NOTPURE = ('rand', 'randn', 'append', 'sort', 'pop', 'insert', 'update', 'close', 'write', 'seed', 'extend')


def parse(text, qual):
    t = ast.parse(text)
    return t, next((n for q, n in fn_nodes(t) if q == qual), None)


def out(t):
    return ast.unparse(ast.fix_missing_locations(t))


def blocks(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Lambda, ast.ListComp)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def locals_of(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
        {a.arg for a in fn.args.args + fn.args.kwonlyargs}


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def jumps(stmts):
    """break, continue or return anywhere inside"""
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)):
                return True
    return False


def comp_names(n):
    s = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)):
            for g in x.generators:
                s |= names(g.target)
        if isinstance(x, ast.Lambda):
            s |= {a.arg for a in x.args.args}
    return s


def rewrites(text, qual):
    for g in (temp_rhs, temp_arg, invert_if, drop_else, for_while, aug, extract, delegate, rename_locals, flip_cmp, demorgan,
              noop, swap, fstring, nested_elif, dot_method, transp, dict_lit, guard_continue, comp_loop, loop_comp, ternary,
              alias_attr, const_name, power, kwargs_pos, rename_params, enum_range, and_nested, return_temp, extract_expr,
              np_alias, not_eq, early_return):
        t, fn = parse(text, qual)
        if fn is None:
            return
        try:
            yield from g(text, qual)
        except RecursionError:
            pass


def each(text, qual, pred, act, label, limit=6):
    """apply act at each matching site, one at a time; pred(fn) lists sites by index"""
    t, fn = parse(text, qual)
    k = len(pred(fn))
    idx = range(k) if k <= limit else [i * k // limit for i in range(limit)]
    for i in idx:
        t, fn = parse(text, qual)
        site = pred(fn)[i]
        ln = act(t, fn, site)
        if ln is False:
            continue
        yield '%s L%s' % (label, ln), out(t)
    if k > 1:
        t, fn = parse(text, qual)
        done = 0
        for i in range(k):
            ast.fix_missing_locations(t)
            s = pred(fn)
            if i < len(s):
                r = act(t, fn, s[i if len(s) == k else 0])
                done += r is not False
        if done > 1:
            yield '%s all' % label, out(t)


def temp_rhs(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, (ast.Return, ast.Assign, ast.AugAssign)) and
                s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and not (
                    isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id.startswith('_tmp'))]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        nm = '_tmp%d' % getattr(s, 'lineno', 0)
        b.insert(i, ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=s.value))
        s.value = ast.Name(id=nm, ctx=ast.Load())
        return s.lineno
    yield from each(text, qual, pred, act, 'temporary', 4)


def temp_arg(text, qual):
    """all arguments of a top-level call statement into temporaries"""
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, (ast.Expr, ast.Assign)) and
                isinstance(s.value, ast.Call) and (s.value.args or s.value.keywords) and
                not any(isinstance(a, ast.Starred) for a in s.value.args) and all(k.arg for k in s.value.keywords) and
                not isinstance(s.value.func, ast.Call)]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        c = s.value
        new = []
        for j in range(len(c.args)):
            nm = '_a%d_%d' % (s.lineno, j)
            new.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=c.args[j]))
            c.args[j] = ast.Name(id=nm, ctx=ast.Load())
        for k in c.keywords:
            nm = '_k%d_%s' % (s.lineno, k.arg)
            new.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=k.value))
            k.value = ast.Name(id=nm, ctx=ast.Load())
        b[i:i] = new
        return s.lineno
    yield from each(text, qual, pred, act, 'argument temporaries', 4)


def invert_if(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse]

    def act(t, fn, n):
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
        n.body, n.orelse = n.orelse, n.body
        return n.lineno
    yield from each(text, qual, pred, act, 'invert if')


def drop_else(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and s.orelse and
                isinstance(s.body[-1], (ast.Return, ast.Raise))]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        b[i + 1:i + 1] = s.orelse
        s.orelse = []
        return s.lineno
    yield from each(text, qual, pred, act, 'drop else')


def early_return(text, qual):
    """x = a / else x = b ; return x  ->  returns in the branches"""
    def pred(fn):
        r = []
        b = fn.body
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Name) and isinstance(b[-2], ast.If) and b[-2].orelse:
            v = b[-1].value.id
            ok = all(isinstance(x[-1], ast.Assign) and isinstance(x[-1].targets[0], ast.Name) and x[-1].targets[0].id == v
                     for x in (b[-2].body, b[-2].orelse))
            if ok:
                r.append(b)
        return r

    def act(t, fn, b):
        s = b[-2]
        for x in (s.body, s.orelse):
            x[-1] = ast.copy_location(ast.Return(value=x[-1].value), x[-1])
        del b[-1]
        return s.lineno
    yield from each(text, qual, pred, act, 'early return')


def for_while(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and
                isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and
                len(s.iter.args) <= 2 and not s.orelse and
                not any(isinstance(x, ast.Continue) for x in ast.walk(s))]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        v = s.target.id
        a = s.iter.args
        lo = a[0] if len(a) == 2 else ast.Constant(value=0)
        hi = a[-1]
        # the loop variable keeps its last value after the loop; only rewrite when it is not used later
        cnt = '_n%d' % s.lineno
        end = '_e%d' % s.lineno
        w = ast.While(test=ast.Compare(left=ast.Name(id=cnt, ctx=ast.Load()), ops=[ast.Lt()], comparators=[ast.Name(id=end, ctx=ast.Load())]),
                      body=[ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=ast.Name(id=cnt, ctx=ast.Load()))] + s.body +
                      [ast.AugAssign(target=ast.Name(id=cnt, ctx=ast.Store()), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])
        b[i:i + 1] = [ast.Assign(targets=[ast.Name(id=cnt, ctx=ast.Store())], value=lo),
                      ast.Assign(targets=[ast.Name(id=end, ctx=ast.Store())], value=hi), w]
        return s.lineno
    yield from each(text, qual, pred, act, 'for to while')


def enum_range(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and
                isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and
                isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and
                not (isinstance(s.iter.args[0], ast.Name) and s.iter.args[0].id in names(ast.Module(body=s.body, type_ignores=[]), ast.Store))]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        x = s.iter.args[0]
        k, v = s.target.elts
        s.target = k
        s.iter = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[x], keywords=[])], keywords=[])
        s.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(x), slice=ast.Name(id=k.id, ctx=ast.Load()), ctx=ast.Load())))
        return s.lineno
    yield from each(text, qual, pred, act, 'enumerate to range')

    def pred2(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and
                isinstance(s.iter.args[0], ast.Call) and isinstance(s.iter.args[0].func, ast.Name) and s.iter.args[0].func.id == 'len' and
                isinstance(s.target, ast.Name)]

    def act2(t, fn, site):
        b, i = site
        s = b[i]
        x = s.iter.args[0].args[0]
        s.iter = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[x], keywords=[])
        s.target = ast.Tuple(elts=[s.target, ast.Name(id='_unused', ctx=ast.Store())], ctx=ast.Store())
        return s.lineno
    yield from each(text, qual, pred2, act2, 'range to enumerate')


def aug(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute))]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        l = copy.deepcopy(s.target)
        l.ctx = ast.Load()
        b[i] = ast.copy_location(ast.Assign(targets=[s.target], value=ast.BinOp(left=l, op=s.op, right=s.value)), s)
        return s.lineno
    yield from each(text, qual, pred, act, 'augmented assignment')


_N = [0]


def add_function(t, fn, name, params, body):
    """a module-level function right before the class or function that holds fn"""
    f = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in params], vararg=None,
                                                      kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                        body=body, decorator_list=[], returns=None, type_params=[])
    for i, b in enumerate(t.body):
        if b is fn or (isinstance(b, ast.ClassDef) and any(c is fn for c in b.body)):
            t.body.insert(i, f)
            return f
    raise AssertionError


def private_use(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__'):
            return True
        if isinstance(x, ast.Name) and x.id == 'super':
            return True
    return False


def extract(text, qual):
    """a run of statements moved to a helper that takes what they read and returns what they assign"""
    t, fn = parse(text, qual)
    loc = locals_of(fn)
    cands = []
    for bi, (n, b) in enumerate(blocks(fn)):
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 5) + 1):
                seg = b[i:j]
                if is_doc(seg[0]) or jumps(seg) or any(private_use(s) for s in seg) or \
                        any(isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef)) for s in seg):
                    continue
                cands.append((bi, i, j))
    if not cands:
        return
    import random
    rnd = random.Random(len(cands))
    for bi, i, j in (cands if len(cands) <= 8 else rnd.sample(cands, 8)):
        t, fn = parse(text, qual)
        n, b = list(blocks(fn))[bi]
        seg = b[i:j]
        m = ast.Module(body=seg, type_ignores=[])
        st = sorted(names(m, ast.Store))
        ld = sorted((names(m) & loc) - comp_names(m) | set())
        # names assigned in the segment but possibly not before it: only pass those certainly bound earlier
        pre = {a.arg for a in fn.args.args}
        for s in ast.walk(fn):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and s.lineno < seg[0].lineno:
                pre.add(s.id)
        inloop = any(isinstance(x, (ast.For, ast.While)) and any(y is seg[0] for y in ast.walk(x)) for x in ast.walk(fn))
        if inloop and set(st) & names(m, ast.Load) - pre:
            # assigned and read within a loop: only safe when written first; skip unless a plain temporary
            pass
        st = [x for x in st if x not in comp_names(m)]
        params = [x for x in ld if x in pre]
        if any(x not in pre and x in names(m, ast.Load) and x not in st for x in ld):
            continue
        # conditional assignment without an earlier binding cannot be returned
        certain = set(pre)
        for s in seg:
            if isinstance(s, ast.Assign):
                for x in s.targets:
                    certain |= names(x, ast.Store)
        if any(x not in certain for x in st):
            continue
        # may a name in pre be unbound (assigned only in another branch)?  require it be assigned at function level or be a parameter
        top = {a.arg for a in fn.args.args}
        chain = fn.body
        for s in fn.body:
            if s.lineno >= seg[0].lineno:
                break
            if isinstance(s, ast.Assign):
                for x in s.targets:
                    top |= names(x, ast.Store)
        for x in b[:i]:
            if isinstance(x, ast.Assign):
                for y in x.targets:
                    top |= names(y, ast.Store)
        for x in ast.walk(fn):
            if isinstance(x, ast.For) and any(y is seg[0] for y in ast.walk(x)):
                top |= names(x.target)
        if any(x not in top for x in params):
            continue
        _N[0] += 1
        nm = '_step%d' % _N[0]
        body = list(seg)
        if st:
            body.append(ast.Return(value=ast.Name(id=st[0], ctx=ast.Load()) if len(st) == 1 else
                                   ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Load()) for x in st], ctx=ast.Load())))
        call = ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=x, ctx=ast.Load()) for x in params], keywords=[])
        if st:
            tg = ast.Name(id=st[0], ctx=ast.Store()) if len(st) == 1 else ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in st], ctx=ast.Store())
            rep = ast.Assign(targets=[tg], value=call)
        else:
            rep = ast.Expr(value=call)
        b[i:j] = [rep]
        add_function(t, fn, nm, params, body)
        yield 'extract helper L%d-%d' % (seg[0].lineno, seg[-1].lineno), out(t)


def extract_expr(text, qual):
    """the right-hand side of an assignment or a condition moved to a helper"""
    t, fn = parse(text, qual)
    loc = locals_of(fn)

    def sites(fn):
        r = []
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
                r.append((n, 'value'))
            elif isinstance(n, (ast.If, ast.While)):
                r.append((n, 'test'))
        return [x for x in r if not private_use(getattr(*x)) and not any(isinstance(y, (ast.Lambda, ast.BoolOp, ast.IfExp)) for y in ast.walk(getattr(*x)))]
    k = len(sites(fn))
    for i in range(k):
        t, fn = parse(text, qual)
        n, f = sites(fn)[i]
        e = getattr(n, f)
        params = sorted((names(e) & loc) - comp_names(e))
        _N[0] += 1
        nm = '_expr%d' % _N[0]
        setattr(n, f, ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=x, ctx=ast.Load()) for x in params], keywords=[]))
        add_function(t, fn, nm, params, [ast.Return(value=e)])
        yield 'extract expression L%d' % n.lineno, out(t)


def delegate(text, qual):
    """the body moves to a module-level function; the old name calls it"""
    t, fn = parse(text, qual)
    if private_use(fn) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs or any(isinstance(x, ast.Global) for x in ast.walk(fn)):
        return
    params = [a.arg for a in fn.args.args]
    body = [s for s in fn.body if not is_doc(s)] or [ast.Pass()]
    _N[0] += 1
    nm = '_impl%d' % _N[0]
    fn.body = [s for s in fn.body[:1] if is_doc(s)] + [ast.Return(value=ast.Call(
        func=ast.Name(id=nm, ctx=ast.Load()), args=[ast.Name(id=x, ctx=ast.Load()) for x in params], keywords=[]))]
    add_function(t, fn, nm, params, body)
    yield 'delegate', out(t)


def rename_locals(text, qual):
    t, fn = parse(text, qual)
    par = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id += '_v'
        if isinstance(x, ast.ExceptHandler) and x.name in loc:
            x.name += '_v'
    if loc:
        yield 'rename locals', out(t)


def rename_params(text, qual):
    return
    yield


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def flip_cmp(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP]

    def act(t, fn, n):
        n.left, n.comparators[0] = n.comparators[0], n.left
        n.ops[0] = FLIP[type(n.ops[0])]()
        return n.lineno
    yield from each(text, qual, pred, act, 'flip comparison')


def not_eq(text, qual):
    N = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def pred(fn):
        return [(n, 'test') for n in ast.walk(fn) if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.Compare) and
                len(n.test.ops) == 1 and type(n.test.ops[0]) in N]

    def act(t, fn, site):
        n, f = site
        c = n.test
        c.ops[0] = N[type(c.ops[0])]()
        n.test = ast.UnaryOp(op=ast.Not(), operand=c)
        return n.lineno
    yield from each(text, qual, pred, act, 'negated comparison')


def demorgan(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp)]

    def act(t, fn, n):
        o = n.test
        n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=ast.And() if isinstance(o.op, ast.Or) else ast.Or(),
                             values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in o.values]))
        return n.lineno
    yield from each(text, qual, pred, act, 'de Morgan')


def and_nested(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And)]

    def act(t, fn, n):
        v = n.test.values
        rest = v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:])
        n.test = v[0]
        n.body = [ast.copy_location(ast.If(test=rest, body=n.body, orelse=[]), n)]
        return n.lineno
    yield from each(text, qual, pred, act, 'nested conditions')

    def pred2(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse]

    def act2(t, fn, n):
        i = n.body[0]
        n.test = ast.BoolOp(op=ast.And(), values=[n.test, i.test])
        n.body = i.body
        return n.lineno
    yield from each(text, qual, pred2, act2, 'joined conditions')


def noop(text, qual):
    for d, src in (('pass', 'pass'), ('unused', '_unused = None'), ('expr', '0'), ('iffalse', 'if False:\n    pass'), ('assert', 'assert True'),
                   ('loop', 'for _ in ():\n    pass'), ('del', '_u = 1\ndel _u')):
        t, fn = parse(text, qual)
        k = 1 if is_doc(fn.body[0]) and len(fn.body) > 1 else 0
        fn.body[k:k] = ast.parse(src).body
        yield 'no-op ' + d, out(t)
    t, fn = parse(text, qual)
    for n, b in list(blocks(fn)):
        if not is_doc(b[-1]) and not isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            b.append(ast.Pass())
        else:
            b.insert(1 if is_doc(b[0]) else 0, ast.Pass())
    yield 'no-op everywhere', out(t)


def rw(s):
    """names read/written and whether the statement touches anything else"""
    w = names(s, ast.Store)
    r = names(s, ast.Load)
    calls = [x for x in ast.walk(s) if isinstance(x, ast.Call)]
    return w, r, calls


def pure_call(c):
    f = c.func
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name) and f.value.id == 'np':
            return True
        return f.attr in ('reshape', 'transpose', 'sum', 'mean', 'keys', 'format', 'copy', 'any', 'all', 'astype')
    return isinstance(f, ast.Name) and f.id in ('len', 'str', 'int', 'float', 'list', 'dict', 'range', 'min', 'max', 'abs', 'sum', 'isinstance')


def swap(text, qual):
    def pred(fn):
        r = []
        for n, b in blocks(fn):
            for i in range(len(b) - 1):
                p, q = b[i], b[i + 1]
                if not (isinstance(p, ast.Assign) and isinstance(q, ast.Assign)) or is_doc(p):
                    continue
                wp, rp, cp = rw(p)
                wq, rq, cq = rw(q)
                if wp & (wq | rq) or wq & rp:
                    continue
                if not all(pure_call(c) for c in cp + cq):
                    continue

                def stores(s):
                    return [x for x in ast.walk(s) if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store)]
                sp, sq = stores(p), stores(q)
                if any(isinstance(x, ast.Subscript) for x in sp + sq):
                    continue
                at = lambda s: {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute)}
                if {x.attr for x in sp} & at(q) or {x.attr for x in sq} & at(p):
                    continue
                r.append((b, i))
        return r

    def act(t, fn, site):
        b, i = site
        b[i], b[i + 1] = b[i + 1], b[i]
        return b[i].lineno
    yield from each(text, qual, pred, act, 'swap statements', 5)


def fstring(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and
                isinstance(n.func.value, ast.Constant) and n.args and not n.keywords and
                n.func.value.value.count('{}') == len(n.args) and n.func.value.value.count('{') == len(n.args)]

    def act(t, fn, n):
        parts = n.func.value.value.split('{}')
        v = []
        for k, p in enumerate(parts):
            if p:
                v.append(ast.Constant(value=p))
            if k < len(n.args):
                v.append(ast.FormattedValue(value=n.args[k], conversion=-1))
        js = ast.JoinedStr(values=v)
        for x in ast.walk(fn):
            for f, val in ast.iter_fields(x):
                if val is n:
                    setattr(x, f, js)
                    return n.lineno
                if isinstance(val, list):
                    for k, y in enumerate(val):
                        if y is n:
                            val[k] = js
                            return n.lineno
        return False
    yield from each(text, qual, pred, act, 'f-string', 4)


def replace(fn, old, new):
    for x in ast.walk(fn):
        for f, val in ast.iter_fields(x):
            if val is old:
                setattr(x, f, new)
                return True
            if isinstance(val, list):
                for k, y in enumerate(val):
                    if y is old:
                        val[k] = new
                        return True
    return False


def nested_elif(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse and isinstance(n.orelse[0], ast.If)]

    def act(t, fn, n):
        n.orelse.append(ast.Pass())
        return n.lineno
    yield from each(text, qual, pred, act, 'elif to else-if', 3)


def dot_method(text, qual):
    def is_dot(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'dot' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and len(n.args) == 2

    def pred(fn):
        return [n for n in ast.walk(fn) if is_dot(n)]

    def act(t, fn, n):
        return n.lineno if replace(fn, n, ast.Call(func=ast.Attribute(value=n.args[0], attr='dot', ctx=ast.Load()), args=[n.args[1]], keywords=[])) else False

    def act2(t, fn, n):
        return n.lineno if replace(fn, n, ast.BinOp(left=n.args[0], op=ast.MatMult(), right=n.args[1])) else False
    yield from each(text, qual, pred, act, 'dot method')
    yield from each(text, qual, pred, act2, 'matmul')


def transp(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'transpose' and not n.args and not n.keywords]

    def act(t, fn, n):
        return n.lineno if replace(fn, n, ast.Attribute(value=n.func.value, attr='T', ctx=ast.Load())) else False
    yield from each(text, qual, pred, act, 'transpose to T')


def dict_lit(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and n.keywords and all(k.arg for k in n.keywords)]

    def act(t, fn, n):
        return n.lineno if replace(fn, n, ast.Dict(keys=[ast.Constant(value=k.arg) for k in n.keywords], values=[k.value for k in n.keywords])) else False
    yield from each(text, qual, pred, act, 'dict literal', 3)

    def pred2(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys)]

    def act2(t, fn, n):
        return n.lineno if replace(fn, n, ast.Call(func=ast.Name(id='dict', ctx=ast.Load()), args=[], keywords=[ast.keyword(arg=k.value, value=v) for k, v in zip(n.keys, n.values)])) else False
    yield from each(text, qual, pred2, act2, 'dict call', 3)


def guard_continue(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse]

    def act(t, fn, n):
        i = n.body.pop()
        n.body.append(ast.copy_location(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=i.test), body=[ast.Continue()], orelse=[]), i))
        n.body.extend(i.body)
        return n.lineno
    yield from each(text, qual, pred, act, 'guard continue')

    def pred2(fn):
        return [(n, k) for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While)) for k, s in enumerate(n.body) if isinstance(s, ast.If) and
                not s.orelse and isinstance(s.body[-1], ast.Continue) and k + 1 < len(n.body)]

    def act2(t, fn, site):
        n, k = site
        s = n.body[k]
        s.body.pop()
        rest = n.body[k + 1:]
        del n.body[k + 1:]
        if s.body:
            s.orelse = rest
        else:
            s.test = ast.UnaryOp(op=ast.Not(), operand=s.test)
            s.body = rest
        return n.lineno
    yield from each(text, qual, pred2, act2, 'continue to branch')


def comp_loop(text, qual):
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and
                len(s.value.generators) == 1 and len(s.targets) == 1]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        g = s.value.generators[0]
        nm = '_acc%d' % s.lineno
        m = {x: x + '_c' for x in names(g.target)}
        for x in ast.walk(s.value.elt):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        for y in [g.target] + g.ifs:
            for x in ast.walk(y):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=nm, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[s.value.elt], keywords=[]))]
        for c in reversed(g.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        b[i:i + 1] = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())),
                      ast.For(target=g.target, iter=g.iter, body=body, orelse=[]),
                      ast.Assign(targets=s.targets, value=ast.Name(id=nm, ctx=ast.Load()))]
        return s.lineno
    yield from each(text, qual, pred, act, 'comprehension to loop')


def loop_comp(text, qual):
    def pred(fn):
        r = []
        for n, b in blocks(fn):
            for i in range(len(b) - 1):
                p, q = b[i], b[i + 1]
                if isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts and isinstance(p.targets[0], ast.Name) and \
                        isinstance(q, ast.For) and len(q.body) == 1 and isinstance(q.body[0], ast.Expr) and isinstance(q.body[0].value, ast.Call) and \
                        isinstance(q.body[0].value.func, ast.Attribute) and q.body[0].value.func.attr == 'append' and \
                        isinstance(q.body[0].value.func.value, ast.Name) and q.body[0].value.func.value.id == p.targets[0].id and \
                        p.targets[0].id not in names(q.body[0].value.args[0]):
                    r.append((b, i))
        return r

    def act(t, fn, site):
        b, i = site
        p, q = b[i], b[i + 1]
        b[i:i + 2] = [ast.copy_location(ast.Assign(targets=p.targets, value=ast.ListComp(elt=q.body[0].value.args[0], generators=[
            ast.comprehension(target=q.target, iter=q.iter, ifs=[], is_async=0)])), p)]
        return p.lineno
    yield from each(text, qual, pred, act, 'loop to comprehension')


def ternary(text, qual):
    def one(s):
        return len(s) == 1 and isinstance(s[0], ast.Assign) and len(s[0].targets) == 1

    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and one(s.body) and one(s.orelse) and
                ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0])]

    def act(t, fn, site):
        b, i = site
        s = b[i]
        b[i] = ast.copy_location(ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value)), s)
        return s.lineno
    yield from each(text, qual, pred, act, 'conditional expression')

    def pred2(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and
                isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value is not None and s.orelse[0].value is not None]

    def act2(t, fn, site):
        b, i = site
        s = b[i]
        b[i] = ast.copy_location(ast.Return(value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value)), s)
        return s.lineno
    yield from each(text, qual, pred2, act2, 'conditional return')

    def pred3(fn):
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp)]

    def act3(t, fn, site):
        b, i = site
        s = b[i]
        v = s.value
        b[i] = ast.copy_location(ast.If(test=v.test, body=[ast.Assign(targets=s.targets, value=v.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse)]), s)
        return s.lineno
    yield from each(text, qual, pred3, act3, 'conditional statement')

    def pred4(fn):
        """x = a; if c: x = b  from  if/else"""
        return [(b, i) for n, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and one(s.body) and one(s.orelse) and
                ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.orelse[0].value, (ast.Constant, ast.Name)) and
                isinstance(s.body[0].targets[0], ast.Name) and s.body[0].targets[0].id not in names(s.test) | names(s.body[0].value)]

    def act4(t, fn, site):
        b, i = site
        s = b[i]
        d = s.orelse[0]
        s.orelse = []
        b.insert(i, d)
        return s.lineno
    yield from each(text, qual, pred4, act4, 'default first')


def alias_attr(text, qual):
    """o = self.x at the top, used instead of self.x (when self.x is never rebound in the function)"""
    t, fn = parse(text, qual)
    if not fn.args.args:
        return
    base = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in {a.arg for a in fn.args.args}:
            base.setdefault((n.value.id, n.attr), []).append(n)
    rebound = names(fn, ast.Store)
    for (v, a), ns in base.items():
        if v in rebound or any(not isinstance(n.ctx, ast.Load) for n in ns):
            continue
        sub = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and
               isinstance(n.value.value, ast.Name) and n.value.value.id == v and n.value.attr == a]
        if len(sub) < 2 or len(sub) != len(ns):
            continue
        t, fn = parse(text, qual)
        al = '_al_' + a.strip('_')
        for n in list(ast.walk(fn)):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and \
                    n.value.value.id == v and n.value.attr == a:
                n.value = ast.Name(id=al, ctx=ast.Load())
        k = 1 if is_doc(fn.body[0]) and len(fn.body) > 1 else 0
        # only when the first statement already uses it unconditionally is evaluation order untouched; attribute reads are pure here
        fn.body.insert(k, ast.Assign(targets=[ast.Name(id=al, ctx=ast.Store())], value=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr=a, ctx=ast.Load())))
        # a callee may rebind the attribute: skip when self is passed around
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v for x in ast.walk(fn)):
            continue
        yield 'alias %s.%s' % (v, a), out(t)


def const_name(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1)]

    def act(t, fn, n):
        nm = '_CONST_%d' % n.lineno
        if not replace(fn, n, ast.Name(id=nm, ctx=ast.Load())):
            return False
        k = 0
        for i, b in enumerate(t.body):
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                k = i
                break
        t.body.insert(k, ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Constant(value=n.value)))
        return n.lineno
    t, fn = parse(text, qual)
    k = len(pred(fn))
    for i in range(min(k, 3)):
        t, fn = parse(text, qual)
        r = act(t, fn, pred(fn)[i])
        if r:
            yield 'named constant L%d' % r, out(t)


def power(text, qual):
    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and
                (isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)) or
                 isinstance(n.right, ast.UnaryOp) and isinstance(n.right.op, ast.USub) and isinstance(n.right.operand, ast.Constant) and n.right.operand.value in (1, 1.0))]

    def act(t, fn, n):
        new = ast.BinOp(left=n.left, op=ast.Mult(), right=copy.deepcopy(n.left)) if isinstance(n.right, ast.Constant) else \
            ast.BinOp(left=ast.Constant(value=1.0), op=ast.Div(), right=n.left)
        return n.lineno if replace(fn, n, new) else False
    yield from each(text, qual, pred, act, 'power')


def kwargs_pos(text, qual):
    """keyword arguments of calls to functions of the module given by position (in the callee's order)"""
    t, fn = parse(text, qual)
    sig = {b.name: [a.arg for a in b.args.args] for b in t.body if isinstance(b, ast.FunctionDef)}

    def pred(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and n.keywords and
                not n.args and all(k.arg for k in n.keywords) and
                {k.arg for k in n.keywords} == set(sig[n.func.id][:len(n.keywords)])]

    def act(t, fn, n):
        d = {k.arg: k.value for k in n.keywords}
        n.args = [d[a] for a in sig[n.func.id][:len(d)]]
        n.keywords = []
        return n.lineno
    yield from each(text, qual, pred, act, 'positional arguments')

    def pred2(fn):
        return [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and n.args and
                not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sig[n.func.id])]

    def act2(t, fn, n):
        n.keywords = [ast.keyword(arg=a, value=v) for a, v in zip(sig[n.func.id], n.args)] + n.keywords
        n.args = []
        return n.lineno
    yield from each(text, qual, pred2, act2, 'keyword arguments')


def return_temp(text, qual):
    """x = e; return x   ->   return e"""
    def pred(fn):
        return [(b, i) for n, b in blocks(fn) for i in range(len(b) - 1) if isinstance(b[i], ast.Assign) and isinstance(b[i + 1], ast.Return) and
                isinstance(b[i].targets[0], ast.Name) and isinstance(b[i + 1].value, ast.Name) and b[i + 1].value.id == b[i].targets[0].id and len(b[i].targets) == 1]

    def act(t, fn, site):
        b, i = site
        b[i + 1].value = b[i].value
        del b[i]
        return b[i].lineno
    yield from each(text, qual, pred, act, 'return expression')


def np_alias(text, qual):
    return
    yield
