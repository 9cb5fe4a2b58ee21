"""Models of the library calls the package makes (numpy, builtins, files, random numbers, user callbacks)."""
from fractions import Fraction
from . import terms as T
from . import ops as O
from .terms import mk, num, string, TRUE, FALSE, NONE, ite, and_, or_, not_, truth, is_bool
from .interp import Unsupported, NOOP_EXT, UNDEF
from .program import MUTATORS

HALF = num(Fraction(1, 2))


def kwnode(k, v):
    return mk('kw', v, data=k)


def pure(it, st, name, args, kwargs, star=()):
    a = [it.val(st, x) for x in args]
    a += [kwnode(k, it.val(st, v)) for k, v in sorted(kwargs.items())]
    a += list(star)
    return mk('call', *a, data=name)


def getarg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def shape_arg(it, st, args, kwargs):
    s = getarg(args, kwargs, 0, 'shape')
    if s is None:
        s = kwargs.get('size', NONE)
    s = it.val(st, s)
    if s.op == 'list' and len(s.args) == 1:
        return s.args[0]
    return s


def external(it, st, name, args, kwargs, star=(), e=None):
    if name in NOOP_EXT or name.startswith('warnings.'):
        return NONE
    V = lambda x: it.val(st, x)
    if star and name not in ('zip', 'dict', 'print', 'max', 'min') and not name.startswith('plt.'):
        return pure(it, st, name, args, kwargs, star)
    f = TABLE.get(name)
    if f is not None:
        r = f(it, st, args, kwargs)
        if r is not None:
            if f is f_asarray and len(args) == 1 and r is args[0] and e is not None:
                it.inlined.add(e)           # the same array, not a new one
            return r
    short = name.split('.')[-1]
    if name in ('sys.exit', 'exit', 'quit', 'os._exit'):
        it.raise_here(st, TRUE, 'SystemExit')
        return UNDEF
    if name.startswith('np.random.'):
        return rng(it, st, short, args, kwargs)
    if name.startswith('random.') or name.startswith('os.urandom') or name.startswith('secrets.') or \
            name in ('time.time', 'time.time_ns', 'uuid.uuid4'):
        if name.startswith('time.'):
            return mk('sym', data='clock')
        v = pure(it, st, name, args, kwargs)
        it.event(st, 'otherrandom', v)
        return v
    if name.startswith('datetime.'):
        return mk('sym', data='clock')
    if name.startswith(FS):
        v = pure(it, st, name, args, kwargs, star)
        if name in FS_READ:
            it.maycalls.append(v)
            return v
        it.event(st, 'fs', v)
        it.maycalls.append(v)
        return v
    if name in ('open', 'h5py.File'):
        v = pure(it, st, name, args, kwargs, star)
        it.maycalls.append(v)
        it.event(st, 'fs', v)
        return v
    if name == 'json.dump':
        a = [V(x) for x in args]
        kw = {k: V(v) for k, v in kwargs.items() if k not in ('sort_keys', 'indent')}
        it.event(st, 'fs', mk('call', *(a + [kwnode(k, v) for k, v in sorted(kw.items())]), data='json.dump'))
        return NONE
    if name in ('json.load', 'np.loadtxt', 'np.load', 'np.genfromtxt'):
        v = pure(it, st, name, args, kwargs, star)
        it.maycalls.append(v)
        return v
    if name in ('np.savetxt', 'np.save', 'np.savez'):
        it.event(st, 'fs', pure(it, st, name, args, kwargs, star))
        return NONE
    if name.startswith('plt.'):
        v = pure(it, st, name, args, kwargs, star)
        it.event(st, 'plt', v)
        return v
    if short == 'Pool' or name.startswith('multiprocessing'):
        v = pure(it, st, name, args, kwargs, star)
        it.event(st, 'mp', v)
        return v
    v = pure(it, st, name, args, kwargs, star)
    if name in MAYRAISE:
        it.maycalls.append(v)
    return v


FS = ('os.makedirs', 'os.mkdir', 'os.remove', 'os.rename', 'os.unlink', 'os.listdir', 'shutil.', 'os.replace', 'os.rmdir')
FS_READ = ('os.listdir',)
MAYRAISE = {'np.linalg.cholesky', 'np.linalg.inv', 'np.linalg.solve', 'int', 'float'}


def rng(it, st, short, args, kwargs):
    V = lambda x: it.val(st, x)
    if short in ('rand', 'randn'):
        dims = [V(a) for a in args]
        return it.draw(st, 'uniform' if short == 'rand' else 'normal', mk('list', *dims))
    if short in ('random_sample', 'random', 'ranf', 'sample', 'standard_normal'):
        s = getarg(args, kwargs, 0, 'size', NONE)
        s = V(s)
        if s is NONE:
            s = num(1)
        return it.draw(st, 'normal' if short == 'standard_normal' else 'uniform', s)
    if short in ('normal', 'uniform'):
        names = ('loc', 'scale') if short == 'normal' else ('low', 'high')
        a = V(getarg(args, kwargs, 0, names[0], num(0)))
        b = V(getarg(args, kwargs, 1, names[1], num(1)))
        s = V(getarg(args, kwargs, 2, 'size', NONE))
        z = it.draw(st, short, num(1) if s is NONE else s)
        if short == 'normal':
            return T.add(a, T.mul(b, z))
        return T.add(a, T.mul(T.sub(b, a), z))
    if short == 'seed':
        a = V(getarg(args, kwargs, 0, 'seed', NONE))
        st.chans['rng'] = mk('seeded', a)
        return NONE
    v = pure(it, st, 'np.random.' + short, args, kwargs)
    cur = st.chans.get('rng') or mk('chan', data='rng')
    v = mk('draw', cur, *v.args, data=short)
    st.chans['rng'] = mk('rngstep', cur, *v.args[1:], data=short)
    return v


def callback(it, st, f, args, kwargs, star=()):
    """call of a value supplied by the user (model, sum-of-squares, prior ...)"""
    fv = it.val(st, f)
    if fv.op == 'sym' and fv.data == 'progressbar':
        return NONE
    a = [it.val(st, x) for x in args]
    a += [kwnode(k, it.val(st, v)) for k, v in sorted(kwargs.items())]
    a += list(star)
    v = mk('app', fv, *a)
    it.event(st, 'user:' + root_name(fv), v)
    it.maycalls.append(v)
    return v


def root_name(f):
    while True:
        if f.op == 'attr':
            return str(f.data)
        if f.op == 'getitem':
            if f.args[1].op == 'str':
                return f.args[1].data
            f = f.args[0]
            continue
        if f.op == 'sym':
            return str(f.data)
        return f.op


# ------------------------------------------------------------------ functions
def _e1(op):
    def g(it, st, args, kwargs):
        if len(args) != 1 or kwargs:
            return None
        x = it.val(st, args[0])
        return T.lift(lambda y: mk(op, y), [x], protect_bool=True)
    return g


def f_sqrt(it, st, a, k):
    return T.power(it.val(st, a[0]), HALF)


def f_exp(it, st, a, k):
    def g(x):
        if x.op == 'num' and x.data == 0:
            return num(1)
        if x.op == 'log':
            return x.args[0]
        return mk('exp', x)
    return T.lift(g, [it.val(st, a[0])], protect_bool=True)


def f_log(it, st, a, k):
    if len(a) != 1:
        return None

    def g(x):
        if x.op == 'num' and x.data == 1:
            return num(0)
        if x.op == 'exp':
            return x.args[0]
        return mk('log', x)
    return T.lift(g, [it.val(st, a[0])], protect_bool=True)


def f_abs(it, st, a, k):
    def g(x):
        if x.op == 'num':
            return num(abs(x.data))
        if x.op == 'abs':
            return x
        if x.op == 'poly':
            c, y = T._content(x)
            items = T.poly_items(y)
            m, lc = T._lead({m: q for m, q in items.items() if m != ()} or items)
            if lc < 0:
                y = T.neg(y)
            r = mk('abs', y)
            return T.mul(num(c), r)
        return mk('abs', x)
    return T.lift(g, [it.val(st, a[0])], protect_bool=True)


def f_dot(it, st, a, k):
    if len(a) != 2:
        return None
    return O.dot(it.val(st, a[0]), it.val(st, a[1]))


def f_multidot(it, st, a, k):
    v = it.val(st, a[0])
    if v.op != 'list':
        return None
    r = v.args[-1]
    for x in reversed(v.args[:-1]):
        r = O.dot(x, r)
    return r


def f_transpose(it, st, a, k):
    if len(a) != 1 or k:
        return None
    return O.transpose(it.val(st, a[0]))


LOW = ('float32', 'float16', 'single', 'half', 'f4', 'f2', 'f', 'e')
INTS = ('int', 'int8', 'int16', 'int32', 'int64', 'int_', 'intp', 'uint8', 'uint16', 'uint32', 'uint64', 'i4', 'i8', 'i')


def kind_of_dtype(it, st, dt):
    """'low' (loses digits), 'int' (loses fractions) or None"""
    if dt is None:
        return None
    d = it.val(st, dt)
    nm = d.data.split('.')[-1] if d.op in ('builtin', 'ext', 'str', 'attr', 'const') and isinstance(d.data, str) else ''
    return 'low' if nm in LOW else 'int' if nm in INTS else None


def made(it, st, v, dt):
    """a new array of the given element type"""
    kind = kind_of_dtype(it, st, dt)
    r = it.alloc(st, mk('f32', v) if kind == 'low' else v)
    if kind == 'int':
        it.dtypes[r] = 'int'
    return r


def f_alloc(op):
    def g(it, st, a, k):
        if op == 'full':
            s = shape_arg(it, st, a, k)
            v = it.val(st, getarg(a, k, 1, 'fill_value', num(0)))
            return made(it, st, T.mul(mk('ones', s), v), getarg(a, k, 2, 'dtype'))
        return made(it, st, mk(op, shape_arg(it, st, a, k)), getarg(a, k, 1, 'dtype'))
    return g


def f_like(op):
    def g(it, st, a, k):
        x = it.val(st, a[0])
        r = made(it, st, mk(op, O.shape(x)), getarg(a, k, 1, 'dtype'))
        if 'dtype' not in k and it.dtypes.get(a[0]):
            it.dtypes[r] = it.dtypes[a[0]]
        return r
    return g


def f_eye(it, st, a, k):
    if len(a) != 1:
        return None
    return it.alloc(st, mk('eye', it.val(st, a[0])))


def f_array(it, st, a, k):
    x = getarg(a, k, 0, 'object')
    if x is None:
        return None
    if set(k) - {'object', 'dtype', 'copy', 'ndmin'}:
        return None
    v = it.val(st, x)
    dt = getarg(a, k, 1, 'dtype')
    if 'ndmin' in k:
        n = it.val(st, k['ndmin'])
        if n == num(1) and dt is None:
            r = it.alloc(st, atleast1d(v))
            it.arrays.add(r)
            return r
        if n == num(2) and dt is None:
            return it.alloc(st, atleast2d(v))
        if n != num(0):
            return None
    if dt is not None:
        d = it.val(st, dt)
        if d.op == 'builtin' and d.data == 'int':
            v = T.lift(lambda y: y if y.op in ('list', 'zeros', 'ones') else O.to_int(y), [v], protect_bool=True)
    r = made(it, st, v, dt)
    it.arrays.add(r)
    return r


def f_asarray(it, st, a, k):
    if len(a) != 1 or k:
        return f_array(it, st, a, k)
    return a[0]


def f_copy(it, st, a, k):
    x = getarg(a, k, 0, 'a') if a else k.get('x')
    return copy_value(it, st, x)


def copy_value(it, st, x):
    def one(leaf):
        if leaf.op == 'ref' and leaf in it.cls_of:
            r = it.alloc(st, None, it.cls_of[leaf])
            for (o, s), v in list(st.heap.items()):
                if o is leaf:
                    st.heap[(r, s)] = v
            return r
        c = it.content(st, leaf)
        r = it.alloc(st, c)
        if leaf.op in ('sym', 'attr', 'getitem', 'mu') and leaf in it.types:
            it.types[r] = it.types[leaf]
        for (o, s), v in list(st.heap.items()):
            if o is leaf and s != '*':
                st.heap[(r, s)] = v
        return r
    return it.map_leaves(x, one)


def f_deepcopy(it, st, a, k):
    v = it.val(st, a[0])
    r = it.alloc(st, mk('deepcopy', v))
    it.opaque.add(r)
    cls = it.types.get(a[0]) or it.cls_of.get(a[0])
    return r


def f_shallow(it, st, a, k):
    v = it.val(st, a[0])
    if v.op in ('sym', 'attr', 'getitem', 'mu', 'with', 'rec'):
        r = it.alloc(st, mk('copyof', v))
        return mk('copyof', v)
    return copy_value(it, st, a[0])


def f_minmax(op):
    def g(it, st, a, k):
        if k:
            return None
        vs = [it.val(st, x) for x in a]
        if len(vs) == 1:
            if vs[0].op == 'list' and vs[0].args:
                return T.minmax(op, list(vs[0].args))
            return T.lift(lambda x: T.minmax(op, [O.dim(x.args[0], 0), O.dim(x.args[0], 1)]) if x.op == 'shape'
                          else mk('a' + op, x, data=None), vs, protect_bool=True)
        return T.minmax(op, vs)
    return g


def f_red(op):
    def g(it, st, a, k):
        x = it.val(st, a[0] if a else k.get('a'))
        if set(k) - {'axis', 'ddof', 'a'}:
            return None
        ax = it.val(st, getarg(a, k, 1, 'axis', NONE))
        dd = it.val(st, k.get('ddof', num(0)))
        if op in ('amin', 'amax') and ax is NONE:
            return T.lift(lambda y: mk(op, y, data=None), [x], protect_bool=True)
        return O.reduce_(op, x, ax, dd)
    return g


def f_bsum(it, st, a, k):
    x = it.val(st, a[0])
    b = string('b')             # over the first axis; for vectors also the total
    if len(a) > 1:
        return T.add(it.val(st, a[1]), O.reduce_('sum', x, b))
    return O.reduce_('sum', x, b)


def f_any(it, st, a, k):
    if len(a) != 1 or k:
        return None
    return mkbool(O.any_(elementwise(it, st, a[0])))


def f_all(it, st, a, k):
    if len(a) != 1 or k:
        return None
    return mkbool(not_(O.any_(not_(truth(elementwise(it, st, a[0]))))))


def elementwise(it, st, x):
    v = O.bare(it.val(st, x))
    if v.op == 'list':
        return or_(*v.args) if False else v
    return v


def f_bany(it, st, a, k):
    v = it.val(st, a[0])
    if v.op == 'list':
        return or_(*[truth(x) for x in v.args])
    return O.any_(v)


def f_ball(it, st, a, k):
    v = it.val(st, a[0])
    if v.op == 'list':
        return and_(*[truth(x) for x in v.args])
    return not_(O.any_(not_(truth(v))))


def mkbool(v):
    return v if v in (TRUE, FALSE) else mk('npb', v)


def f_isnan(it, st, a, k):
    def g(x):
        if x.op == 'const':
            return TRUE if x.data == 'nan' else FALSE
        if x.op == 'num':
            return FALSE
        return mk('isnan', x)
    r = T.lift(g, [it.val(st, a[0])], protect_bool=True)
    return mkbool(r)


def f_isinf(it, st, a, k):
    return mkbool(T.lift(lambda x: TRUE if x.op == 'const' and x.data == 'inf' else mk('isinf', x), [it.val(st, a[0])],
                         protect_bool=True))


def f_round(it, st, a, k):
    if len(a) > 1 or k:
        return None
    return O.to_int(it.val(st, a[0]), 'round')


def f_int(how):
    def g(it, st, a, k):
        if len(a) != 1 or k:
            return None
        v = it.val(st, a[0])
        return O.to_int(v, how)
    return g


def f_float(it, st, a, k):
    v = it.val(st, a[0])
    if v.op == 'str':
        if v.data.lower() in ('inf', '+inf'):
            return mk('const', data='inf')
        if v.data.lower() == 'nan':
            return mk('const', data='nan')
        return None
    if is_bool(O.bare(v)):
        return O.to_int(v)
    return v


def f_bool(it, st, a, k):
    return truth(it.val(st, a[0])) if a else FALSE


def f_len(it, st, a, k):
    c = it.content(st, a[0])
    if c is None:
        c = it.val(st, a[0])
    return O.dim(c if c.op in ('list', 'append', 'lconcat', 'dict') else it.val(st, c), 0)


def f_range(it, st, a, k):
    vs = [it.val(st, x) for x in a]
    for nm in ('start', 'stop', 'step'):
        pass
    if len(vs) == 1:
        return mk('range', num(0), vs[0], num(1))
    if len(vs) == 2:
        return mk('range', vs[0], vs[1], num(1))
    if len(vs) == 3:
        return mk('range', *vs)
    return None


def f_arange(it, st, a, k):
    start = k.get('start')
    stop = k.get('stop')
    step = k.get('step')
    a = list(a)
    if stop is not None:
        a = [start if start is not None else num(0), stop] + ([step] if step is not None else [])
        return it.alloc(st, f_range(it, st, a, {}))
    if step is not None:
        a = a + [step] if len(a) == 2 else [num(0)] + a + [step]
    r = f_range(it, st, a, {})
    return r if r is None else it.alloc(st, r)


def f_enumerate(it, st, a, k):
    s = getarg(a, k, 1, 'start', num(0))
    return mk('enumerate', a[0], it.val(st, s))


def f_zip(it, st, a, k):
    return mk('zip', *a) if a else None


def f_reversed(it, st, a, k):
    return mk('reversed', a[0])


def f_list(it, st, a, k):
    if not a:
        return it.alloc(st, mk('list'))
    c = it.content(st, a[0])
    if c is None:
        c = it.val(st, a[0])
    if c.op in ('enumerate', 'zip', 'items', 'reversed'):
        n, f, els = it.seq_of(st, c)
        if els is not None:
            return it.alloc(st, mk('list', *els))
        return it.alloc(st, mk('tolist', it.val(st, c)))
    if c.op == 'range':
        n, f, els = it.seq_of(st, c)
        if els is not None:
            return it.alloc(st, mk('list', *els))
    return it.alloc(st, c)


def f_tuple(it, st, a, k):
    if not a:
        return mk('list')
    return it.val(st, f_list(it, st, a, k))


def f_dict(it, st, a, k):
    d = mk('dict', data=())
    if a:
        c = it.content(st, a[0])
        if c is None:
            return None
        if c.op == 'zip' or c.op == 'list':
            n, f, els = it.seq_of(st, c)
            if els is None:
                return it.alloc(st, mk('dictof', it.val(st, c)))
            for x in els:
                xc = it.content(st, x)
                if xc.op != 'list' or len(xc.args) != 2:
                    return None
                d = O.dict_set(d, it.val(st, xc.args[0]), xc.args[1])
        else:
            d = c
    for kk, v in k.items():
        d = O.upd(d, string(kk), v)
    return it.alloc(st, d)


def f_str(it, st, a, k):
    if not a:
        return string('')
    v = it.val(st, a[0])
    return T.cat([v])


def f_isinstance(it, st, a, k):
    x = a[0]
    t = it.val(st, a[1])
    types = list(t.args) if t.op == 'list' else [t]

    def leafcheck(v):
        if v.op == 'ref':
            c = it.content(st, v)
            cls = it.cls_of.get(v)
            for tt in types:
                if cls is not None:
                    if tt.op == 'class' and it.fun_table.get(tt) is cls:
                        return TRUE
            if v in it.arrays:
                return TRUE if any('ndarray' in str(tt.data) for tt in types) else FALSE
            v = it.val(st, v)
        if v.op in ('reshape', 'zeros', 'ones', 'eye', 'dot', 'T', 'flat'):
            return TRUE if any('ndarray' in str(tt.data) for tt in types) else FALSE
        if v is NONE or v.op in ('str', 'cat'):
            if v.op == 'str' and any(tt.data == 'str' for tt in types):
                return TRUE
            return FALSE
        return or_(*[mk('isinst', v, data=str(tt.data)) for tt in types])
    return it.map_leaves(x, leafcheck)


def f_vars(it, st, a, k):
    return it.get_attr(st, a[0], '__dict__')


def f_hasattr(it, st, a, k):
    n = it.val(st, a[1])

    def one(leaf):
        if n.op == 'str' and leaf.op == 'ref' and leaf in it.cls_of and leaf not in it.opaque:
            v = it.get_attr(st, leaf, n.data)
            return it.map_leaves(v, lambda x: FALSE if x.op == 'const' and x.data == 'undef' else TRUE)
        return mk('hasattr', it.val(st, leaf), n)
    return it.map_leaves(a[0], one)


def f_getattr(it, st, a, k):
    n = it.val(st, a[1])
    if n.op == 'str' and len(a) == 2:
        return it.get_attr(st, a[0], n.data)
    if n.op == 'str':
        h = f_hasattr(it, st, a[:2], k)
        return T.ite(h, it.get_attr(st, a[0], n.data), a[2])
    return mk('getattr', *[it.val(st, x) for x in a])


def f_slice(it, st, a, k):
    v = [it.val(st, x) for x in a]
    if k or not 1 <= len(v) <= 3:
        return None
    if len(v) == 1:
        v = [NONE] + v
    return mk('slice', *(v + [NONE])[:3])


def f_setattr(it, st, a, k):
    n = it.val(st, a[1])
    if n.op != 'str':
        raise Unsupported('setattr')
    it.set_attr(st, a[0], n.data, a[2])
    return NONE


def f_concat(axis_default=0):
    def g(it, st, a, k):
        x = it.val(st, a[0])
        if x.op != 'list':
            return None
        ax = it.val(st, getarg(a, k, 1, 'axis', num(axis_default)))
        parts = []
        for p in x.args:
            if p.op == 'concat' and p.data == ax:
                parts.extend(p.args)
            else:
                parts.append(p)
        return it.alloc(st, mk('concat', *parts, data=ax))
    return g


def f_npappend(it, st, a, k):
    ax = getarg(a, k, 2, 'axis')
    if ax is None:
        return None
    return it.alloc(st, mk('concat', it.val(st, a[0]), it.val(st, a[1]), data=it.val(st, ax)))


def f_reshape(it, st, a, k):
    return O.reshape(it.val(st, a[0]), it.val(st, getarg(a, k, 1, 'newshape')))


def f_flat(it, st, a, k):
    return flat(it.val(st, a[0]))


def flat(x):
    def g(x):
        if x.op in ('flat',):
            return x
        if x.op == 'reshape':
            return mk('flat', x.args[0])
        c, y = O._split_const(x)
        return T.mul(num(c), mk('flat', y)) if c != 1 else mk('flat', x)
    return T.lift(g, [x], protect_bool=True)


def f_where(it, st, a, k):
    if len(a) == 3:
        c = O.bare(it.val(st, a[0]))
        if is_bool(c):
            return ite(c, it.val(st, a[1]), it.val(st, a[2]))
        return None
    if len(a) == 1:
        return mk('list', mk('flatnonzero', O.bare(it.val(st, a[0]))))
    return None


def f_flatnonzero(it, st, a, k):
    return it.alloc(st, mk('flatnonzero', O.bare(it.val(st, a[0]))))


def f_nonzero(it, st, a, k):
    return mk('list', mk('flatnonzero', O.bare(it.val(st, a[0]))))


def f_ix(it, st, a, k):
    return mk('ix', *[it.val(st, x) for x in a])


def f_join(it, st, a, k):
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(T.sym('os.sep'))
        parts.append(it.val(st, x))
    return T.cat(parts)


def f_norm(it, st, a, k):
    if len(a) != 1 or k:
        return None

    def g(x):
        c, y = O._split_const(x)
        return T.mul(num(abs(c)), mk('norm', y)) if c != 1 else mk('norm', x)
    return T.lift(g, [it.val(st, a[0])], protect_bool=True)


def f_chol(it, st, a, k):
    v = T.lift(lambda x: mk('chol', x), [it.val(st, a[0])], protect_bool=True)
    it.maycalls.append(v)
    return v


def f_solve(it, st, a, k):
    return O.solve(it.val(st, a[0]), it.val(st, a[1]))


def f_inv(it, st, a, k):
    return O.inv(it.val(st, a[0]))


def f_sq(it, st, a, k):
    return T.power(it.val(st, a[0]), num(2))


def f_bin(fn):
    def g(it, st, a, k):
        if len(a) != 2 or k:
            return None
        return fn(it.val(st, a[0]), it.val(st, a[1]))
    return g


def f_clip(it, st, a, k):
    if len(a) != 3:
        return None
    x, lo, hi = [it.val(st, y) for y in a]
    return T.minmax('min', [T.minmax('max', [x, lo]), hi])


def f_diag(it, st, a, k):
    if len(a) != 1 or k:
        return None
    return it.alloc(st, mk('diagflat', it.val(st, a[0])))


def atleast2d(v):
    return T.lift(lambda x: x if x.op in ('diagflat', 'eye') else mk('atleast2d', x), [v])


def f_atleast2d(it, st, a, k):
    if len(a) != 1 or k:
        return None
    r = it.alloc(st, atleast2d(it.val(st, a[0])))
    it.view(st, r, a[0])
    return r


def atleast1d(v):
    def f(x):
        if x.op in ('list', 'zeros', 'ones', 'diagflat', 'eye', 'arange', 'concat', 'dot', 'atleast2d'):
            return x
        return T.ite(T.eq0(O.ndim(x)), mk('list', x), x)
    return T.lift(f, [v])


def f_atleast1d(it, st, a, k):
    if len(a) != 1 or k:
        return None
    r = it.alloc(st, atleast1d(it.val(st, a[0])))
    it.view(st, r, a[0])
    it.arrays.add(r)
    return r


def f_sort(it, st, a, k):
    x = it.val(st, a[0])
    ax = it.val(st, getarg(a, k, 1, 'axis', num(-1)))
    return it.alloc(st, mk('npsort', x, data=ax))


def f_sorted(it, st, a, k):
    x = it.val(st, a[0])
    key = k.get('key')
    rev = it.val(st, k.get('reverse', FALSE))
    kk = keyfn(it, st, key)
    return it.alloc(st, mk('sorted', x, kk, rev))


def keyfn(it, st, key):
    """value of the sort key at a generic element"""
    if key is None or key is NONE:
        return NONE
    if key.op in ('fun', 'bound'):
        s = st.copy()
        v = it.apply(s, key, [T.sym('<elem>')], {})
        return it.val(s, v)
    return it.val(st, key)


def f_isa_eq(it, st, a, k):
    if len(a) != 2:
        return None
    x, y = it.val(st, a[0]), it.val(st, a[1])
    if x.id > y.id:
        x, y = y, x
    return mk('arreq', x, y)


def f_super(it, st, a, k):
    return mk('sym', data='super')


def f_identity(it, st, a, k):
    return a[0] if a else None


def f_map(it, st, a, k):
    if len(a) != 2:
        return None
    n, f, els = it.seq_of(st, a[1])
    if els is None:
        return None
    return it.alloc(st, mk('list', *[it.apply(st, a[0], [x], {}) for x in els]))


TABLE = {
    'np.sqrt': f_sqrt, 'math.sqrt': f_sqrt, 'scipy.sqrt': f_sqrt,
    'np.exp': f_exp, 'math.exp': f_exp, 'np.log': f_log, 'math.log': f_log,
    'np.abs': f_abs, 'abs': f_abs, 'np.absolute': f_abs, 'math.fabs': f_abs, 'np.fabs': f_abs,
    'np.sin': _e1('sin'), 'scipy.sin': _e1('sin'), 'math.sin': _e1('sin'),
    'np.cos': _e1('cos'), 'scipy.cos': _e1('cos'), 'math.cos': _e1('cos'),
    'np.dot': f_dot, 'np.matmul': f_dot, 'np.linalg.multi_dot': f_multidot,
    'np.transpose': f_transpose,
    'np.zeros': f_alloc('zeros'), 'np.ones': f_alloc('ones'), 'np.empty': f_alloc('zeros'), 'np.full': f_alloc('full'),
    'np.zeros_like': f_like('zeros'), 'np.ones_like': f_like('ones'), 'np.empty_like': f_like('zeros'),
    'np.eye': f_eye, 'np.identity': f_eye,
    'np.array': f_array, 'np.asarray': f_asarray, 'np.copy': f_copy, 'np.asanyarray': f_asarray, 'np.ascontiguousarray': f_asarray,
    'vars': f_vars, 'copy.deepcopy': f_deepcopy, 'copy.copy': f_shallow,
    'min': f_minmax('min'), 'max': f_minmax('max'), 'np.minimum': f_minmax('min'), 'np.maximum': f_minmax('max'),
    'np.sum': f_red('sum'), 'np.mean': f_red('mean'), 'np.var': f_red('var'), 'np.std': f_red('std'),
    'np.min': f_red('amin'), 'np.max': f_red('amax'), 'np.amin': f_red('amin'), 'np.amax': f_red('amax'),
    'np.average': None, 'sum': f_bsum, 'math.fsum': f_bsum,
    'np.any': f_any, 'np.all': f_all, 'any': f_bany, 'all': f_ball,
    'np.isnan': f_isnan, 'math.isnan': f_isnan, 'np.isinf': f_isinf, 'math.isinf': f_isinf,
    'int': f_int('int'), 'np.fix': f_int('int'), 'np.trunc': f_int('int'), 'math.trunc': f_int('int'),
    'np.floor': f_int('floor'), 'math.floor': f_int('floor'), 'np.ceil': f_int('ceil'), 'math.ceil': f_int('ceil'),
    'round': f_round, 'np.round': f_round, 'np.rint': f_round,
    'float': f_float, 'bool': f_bool, 'len': f_len, 'range': f_range, 'np.arange': f_arange,
    'enumerate': f_enumerate, 'zip': f_zip, 'reversed': f_reversed, 'list': f_list, 'tuple': f_tuple, 'dict': f_dict,
    'str': f_str, 'isinstance': f_isinstance, 'hasattr': f_hasattr, 'getattr': f_getattr, 'setattr': f_setattr,
    'np.concatenate': f_concat(0), 'np.vstack': f_concat(0), 'np.hstack': None, 'np.append': f_npappend,
    'np.reshape': f_reshape, 'np.ravel': f_flat, 'np.where': f_where, 'np.flatnonzero': f_flatnonzero,
    'slice': f_slice, 'np.nonzero': f_nonzero, 'np.ix_': f_ix, 'os.path.join': f_join,
    'np.linalg.norm': f_norm, 'np.linalg.cholesky': f_chol, 'np.linalg.solve': f_solve, 'np.linalg.inv': f_inv,
    'np.square': f_sq, 'np.add': f_bin(T.add), 'np.subtract': f_bin(T.sub), 'np.multiply': f_bin(T.mul),
    'np.divide': f_bin(T.div), 'np.true_divide': f_bin(T.div), 'np.power': f_bin(T.power), 'math.pow': f_bin(T.power),
    'pow': f_bin(T.power), 'np.clip': f_clip, 'np.diagflat': f_diag, 'np.atleast_2d': f_atleast2d, 'np.atleast_1d': f_atleast1d,
    'np.sort': f_sort, 'sorted': f_sorted, 'np.array_equal': f_isa_eq,
    'np.logical_or': f_bin(lambda a, b: or_(O.bare(a), O.bare(b))),
    'np.logical_and': f_bin(lambda a, b: and_(O.bare(a), O.bare(b))),
    'np.logical_not': lambda it, st, a, k: not_(truth(it.val(st, a[0]))),
    'np.less': f_bin(T.lt), 'np.greater': f_bin(lambda a, b: T.lt(b, a)),
    'np.squeeze': None, 'iter': f_identity, 'map': f_map, 'super': f_super,
    'np.size': lambda it, st, a, k: O.size(it.val(st, a[0])) if len(a) == 1 else None,
    'np.shape': lambda it, st, a, k: O.shape(it.val(st, a[0])),
    'np.ndim': lambda it, st, a, k: O.ndim(it.val(st, a[0])),
    'callable': lambda it, st, a, k: mk('pred', it.val(st, a[0]), data='callable'),
    'type': lambda it, st, a, k: mk('typeof', it.val(st, a[0])),
    'np.float64': f_float, 'np.int64': f_int('int'),
}


# ------------------------------------------------------------------ methods
def method(it, st, recv, name, args, kwargs, star, e):
    V = lambda x: it.val(st, x)
    rv0 = recv
    if recv.op == 'sym' and recv.data == 'progressbar':
        return NONE
    if recv.op == 'attr' and 'wbarstatus' in str(recv.data):
        return NONE
    if recv.op == 'sym' and recv.data == 'super':
        return NONE
    if recv.op == 'sym' and recv.data == 'clock':
        return mk('sym', data='clock')
    # attribute that holds a function value supplied from outside
    if name in MUTATORS and not star:
        r = mutate(it, st, recv, name, args, kwargs)
        if r is not None:
            return r
    if name == 'copy' and not args:
        return copy_value(it, st, recv)
    f = METHODS.get(name)
    if f is not None and not star:
        r = f(it, st, recv, args, kwargs)
        if r is not None:
            return r
    if name in ('close', 'flush') and not args:
        return NONE
    rv = V(recv)
    if recv.op == 'super':
        return NONE
    a = [V(x) for x in args] + [kwnode(k, V(v)) for k, v in sorted(kwargs.items())] + list(star)
    if name in ('write', 'writelines', 'create_dataset'):
        it.event(st, 'fs', mk('mcall', rv, *a, data=name))
        return mk('mcall', rv, *a, data=name)
    v = mk('mcall', rv, *a, data=name)
    if name in PURE_METHODS:
        return v
    it.event(st, 'm:' + name, v)
    it.maycalls.append(v)
    return v


PURE_METHODS = {'lower', 'upper', 'strip', 'split', 'endswith', 'startswith', 'isdigit', 'rstrip', 'lstrip', 'replace',
                'index', 'count', 'find', 'join', 'tolist', 'item', 'nonzero', 'argmax', 'argmin', 'cumsum', 'squeeze',
                'swapaxes', 'diagonal', 'trace', 'conj', 'title', 'capitalize', 'zfill', 'get_legend_handles_labels',
                'pdf', 'cdf', 'strftime'}


def mutate(it, st, recv, name, args, kwargs):
    V = lambda x: it.val(st, x)

    def on(f):
        it.update_content(st, recv, f)
        return NONE
    c = it.content(st, recv)
    if name == 'append' and len(args) == 1:
        x = args[0]
        if not any(g[0] == 'r' for g in x.fm) and x.op not in ('sym', 'attr', 'getitem', 'mu'):
            x = V(x)
        return on(lambda c: T.lift(lambda c: mk('list', *(c.args + (x,))) if c.op == 'list' else mk('append', c, x), [c]))
    if name == 'extend':
        x = it.content(st, args[0])
        if x is None:
            x = V(args[0])
        return on(lambda c: T.lift(T.lconcat, [c, x]))
    if name == 'update':
        u = it.content(st, args[0]) if args else mk('dict', data=())
        if len(args) <= 1 and ((c is not None and (c.op in ('dict', 'upd', 'dmerge') or recv.op == 'ref')) or
                               (u is not None and u.op in ('dict', 'upd') and recv.op in ('attr', 'sym', 'getitem'))):
            if u is None:
                u = V(args[0])

            def g(c):
                c = it.dict_update(st, c, u)
                for k, v in kwargs.items():
                    c = O.upd(c, string(k), v)
                return c
            return on(g)
        return None
    if name == 'sort' and recv.op != 'module':
        kk = keyfn(it, st, kwargs.get('key'))
        rev = V(kwargs.get('reverse', FALSE))
        if args or 'axis' in kwargs:
            ax = V(args[0] if args else kwargs['axis'])
            return on(lambda c: mk('npsort', V(c), data=ax))
        return on(lambda c: mk('sorted', V(c), kk, rev))
    if name == 'pop':
        if len(args) >= 1:
            k = V(args[0])
            r = O.getitem(c if c is not None else V(recv), k)
            on(lambda c: O.dict_del(c, k) if k.op == 'str' else mk('popped', c, k))
            return r
        r = O.getitem(c if c is not None else V(recv), num(-1))
        on(lambda c: mk('popped', c, num(-1)))
        return r
    if name in ('clear',):
        return on(lambda c: mk('dict', data=()) if c.op in ('dict', 'upd') else mk('list'))
    if name in ('fill',):
        v = V(args[0])
        return on(lambda c: O.filled(c, v))
    if name in ('insert', 'remove', 'reverse', 'setdefault', 'resize', 'popitem', 'itemset', 'put'):
        a = [V(x) for x in args]
        on(lambda c: mk('mutated', c, *a, data=name))
        return mk('mcall', V(recv), *a, data=name)
    return None


def m_red(op):
    f = f_red(op)

    def g(it, st, r, a, k):
        return f(it, st, [r] + list(a), k)
    return g


def m_reshape(it, st, r, a, k):
    if not a:
        return None
    vs = [it.val(st, x) for x in a]
    d = vs[0] if len(vs) == 1 else mk('list', *vs)
    return O.reshape(it.val(st, r), d)


def m_format(it, st, r, a, k):
    t = it.val(st, r)
    return O.fmt(t, [it.val(st, x) for x in a], {kk: it.val(st, v) for kk, v in k.items()})


def m_astype(it, st, r, a, k):
    t = it.val(st, a[0]) if a else None
    v = it.val(st, r)
    if t is not None and (t.data in ('int', 'np.int64', 'np.int32') or t.op == 'str' and t.data == 'int'):
        return it.alloc(st, O.to_int(v))
    if t is not None and kind_of_dtype(it, st, a[0]) == 'low':
        return it.alloc(st, mk('f32', v))
    if t is not None and t.data in ('float', 'np.float64'):
        r = it.alloc(st, v)
        it.dtypes[r] = 'float'
        return r
    return mk('mcall', v, *( [t] if t is not None else []), data='astype')


def m_keys(it, st, r, a, k):
    c = it.content(st, r)
    return mk('keys', it.val(st, r) if c is None or c.op != 'dict' else c)


def m_items(it, st, r, a, k):
    return mk('items', r)


def m_values(it, st, r, a, k):
    return mk('values', r)


def m_get(it, st, r, a, k):
    c = it.content(st, r)
    if c is None:
        return None
    kk = it.val(st, a[0])
    if len(a) == 1 and c.op == 'call' and 'h5py' in str(c.data):
        return mk('getitem', c, kk)         # file handle: same as indexing
    d = a[1] if len(a) > 1 else NONE
    if c.op == 'dict' and not O.const_key(kk) and 0 < len(c.args) <= 12 and all(O.const_key(x) for x in c.data):
        r = d
        for x, v in reversed(list(zip(c.data, c.args))):
            r = ite(T.eq(kk, x), v, r)
        return r
    inn = O.contains(kk, it.val(st, c))
    return ite(inn, O.getitem(c, kk), d)


def m_any(it, st, r, a, k):
    return f_any(it, st, [r] + list(a), k)


def m_all(it, st, r, a, k):
    return f_all(it, st, [r] + list(a), k)


def m_str(name):
    def g(it, st, r, a, k):
        v = it.val(st, r)
        if v.op == 'str' and not a:
            return string(getattr(v.data, name)())
        return None
    return g


def m_join(it, st, r, a, k):
    if len(a) != 1 or k:
        return None
    sep, x = it.val(st, r), it.val(st, a[0])
    if x.op != 'list' or not x.args:
        return None
    parts = []
    for i, p in enumerate(x.args):
        if i:
            parts.append(sep)
        parts.append(p)
    return T.cat(parts)


METHODS = {
    'join': m_join,
    'sum': m_red('sum'), 'mean': m_red('mean'), 'var': m_red('var'), 'std': m_red('std'),
    'max': m_red('amax'), 'min': m_red('amin'),
    'reshape': m_reshape, 'format': m_format, 'astype': m_astype, 'keys': m_keys, 'items': m_items, 'values': m_values,
    'get': m_get, 'any': m_any, 'all': m_all, 'lower': m_str('lower'), 'upper': m_str('upper'),
    'transpose': lambda it, st, r, a, k: O.transpose(it.val(st, r)) if not a and not k else None,
    'dot': lambda it, st, r, a, k: O.dot(it.val(st, r), it.val(st, a[0])),
    'flatten': lambda it, st, r, a, k: it.alloc(st, flat(it.val(st, r))),
    'ravel': lambda it, st, r, a, k: flat(it.val(st, r)),
    'tolist': lambda it, st, r, a, k: it.alloc(st, mk('tolist', mk('f64', it.val(st, r)) if it.dtypes.get(r) == 'float' else it.val(st, r))),
    '__len__': lambda it, st, r, a, k: f_len(it, st, [r], {}),
}
