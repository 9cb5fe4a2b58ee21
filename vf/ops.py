"""Value-level operations: indexing, containers and the library functions the package uses, in normal form."""
from fractions import Fraction
from . import terms as T
from .terms import mk, num, string, lift, TRUE, FALSE, NONE, ite, is_bool, eq, NONE as _N

INDEX_ARRAYS = ('_parind',)     # attributes holding arrays of indices
LENS = {}        # mu node -> length term (list-valued loop variables whose length is known)


def is_int(n):
    return n.op == 'num' and n.data.denominator == 1


def nonneg_int(n):
    """integer-valued by construction"""
    if n.op == 'num':
        return n.data.denominator == 1
    if n.op in ('dim', 'size', 'ndim', 'K', 'int', 'floor', 'ceil', 'round', 'count'):
        return True
    if n.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and nonneg_int(a) for a, e in m)
                   for m, c in n.data)
    if n.op in ('min', 'max'):
        return all(nonneg_int(a) for a in n.args)
    return False


def bare(n):
    return n.args[0] if n.op == 'npb' else n


def to_int(x, how='int'):
    def f(x):
        x = bare(x)
        if x.op == 'num':
            v = x.data
            if v.denominator == 1:
                return x
            q = v.numerator // v.denominator
            if how == 'floor':
                return num(q)
            if how == 'ceil':
                return num(q + 1)
            if how == 'int':
                return num(q if v > 0 else q + 1)
        if nonneg_int(x):
            return x
        if x.op == 'str':
            try:
                return num(int(x.data))
            except ValueError:
                pass
        if is_bool(x):
            return ite(x, num(1), num(0)) if x not in (TRUE, FALSE) else num(1 if x is TRUE else 0)
        return mk(how, x)
    return lift(f, [x], protect_bool=True)


# ------------------------------------------------------------------ containers
def full_slice(i):
    return i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE and (i.args[2] is NONE)


def norm_index(i):
    if i.op == 'ix':
        if len(i.args) == 1:
            return norm_index(i.args[0])
        return i
    if i.op == 'list' and i.data == 'tup':
        xs = [norm_index(a) for a in i.args]
        while len(xs) > 1 and (full_slice(xs[-1]) or xs[-1].op == 'ellipsis'):
            xs.pop()
        if len(xs) == 1:
            return xs[0]
        return mk('list', *xs, data='tup')
    if i.op == 'slice':
        a, b, c = i.args
        if a.op == 'num' and a.data == 0 and (c is NONE or (c.op == 'num' and c.data > 0)):
            a = NONE
        if c.op == 'num' and c.data == 1:
            c = NONE
        return mk('slice', a, b, c)
    if i.op == 'npb':
        return i.args[0]
    return i


def list_len(n):
    """length term of a sequence value"""
    return dim(n, 0)


def dim(x, i):
    def f(x):
        x0 = x
        if x.op == 'list':
            if i == 0:
                return num(len(x.args))
            if x.args:
                return dim(x.args[0], i - 1)
        if x.op == 'dict' and i == 0:
            return num(len(x.args))
        if i == 0 and x in LENS:
            return LENS[x]
        if x.op == 'append' and i == 0:
            return T.add(dim(x.args[0], 0), num(1))
        if x.op == 'lconcat' and i == 0:
            return T.add(dim(x.args[0], 0), dim(x.args[1], 0))
        if x.op == 'str' and i == 0:
            return num(len(x.data))
        if x.op in ('zeros', 'ones', 'full', 'empty'):
            s = x.args[0]
            if s.op == 'list':
                if i < len(s.args):
                    return s.args[i]
            elif i == 0 and s.op not in ('shape',):
                return s
            elif s.op == 'shape':
                return dim(s.args[0], i)
        if x.op == 'getitem' and i == 0 and x.args[1].op == 'attr' and x.args[1].data in INDEX_ARRAYS:
            return dim(x.args[1], 0)
        if x.op == 'getitem' and i == 0 and x.args[1].op in ('flatnonzero', 'argsort'):
            return dim(x.args[1], 0)
        if x.op == 'getitem' and x.args[1].op == 'ix' and i < len(x.args[1].args):
            return dim(x.args[1].args[i], 0)
        if x.op == 'eye' and i < 2:
            return x.args[0]
        if x.op == 'npsort':
            return dim(x.args[0], i)
        if x.op == 'T' and i < 2 and x.args[0].op not in ('sym',):
            return dim(x.args[0], 1 - i)
        if x.op in ('upd',) and x.args[0].op != 'dict':
            if not (x.args[1].op == 'str'):
                return dim(x.args[0], i)
        if x.op == 'reshape':
            s = x.args[1]
            if s.op == 'list' and i < len(s.args) and not (s.args[i].op == 'num' and s.args[i].data < 0):
                return s.args[i]
        if x.op == 'range' and i == 0:
            return range_len(*x.args)
        if x.op == 'call' and (x.data in ('np.real', 'np.imag') and len(x.args) == 1 or
                               x.data == 'scipy.fftpack.fft' and all(a.op == 'kw' and a.data == 'axis' for a in x.args[1:])):
            return dim(x.args[0], i)
        if x.op == 'getitem' and i == 0 and x.args[1].op == 'list' and x.args[1].args and x.args[1].args[0].op == 'slice' and all(q is NONE for q in x.args[1].args[0].args) and \
                x.args[0].op in ('call', 'upd'):
            return dim(x.args[0], 0)
        if x.op == 'poly':
            ds = []
            for m in T.poly_items(x):
                for a, _ in m:
                    if a.op == 'num' or a.op == 'getitem' and a.args[1].op == 'list' and all(q.op in ('num', 'K') for q in a.args[1].args):
                        continue
                    ds.append(dim(a, i) if a.op in ('call', 'getitem') else None)
            if ds and ds[0] is not None and all(d is ds[0] for d in ds) and ds[0].op == 'dim' and \
                    not any(ds[0].args[0] is a for m in T.poly_items(x) for a, _ in m):
                return ds[0]
        if x.op in ('keys', 'items', 'values', 'sorted') and i == 0:
            return dim(x.args[0], 0)
        if x.op == 'shape' and i == 0:
            return ndim(x.args[0])
        if x.op == 'getitem' and x.args[1].op in ('K', 'num') and x.args[0].op in ('zeros', 'ones'):
            return dim(x.args[0], i + 1)
        return mk('dim', _split_const(x)[1], data=i)
    return lift(f, [x], protect_bool=True)


def ziplen(Ns):
    """number of tuples zip() yields"""
    xs = []

    def put(n):
        if n.op == 'ziplen':
            for a in n.args:
                put(a)
        elif n.op == 'dim' and n.data == 0 and n.args[0].op == 'getitem' and n.args[0].args[1].op == 'slice' and \
                n.args[0].args[1].args[0] is NONE and n.args[0].args[1].args[2] is NONE:
            s = mk('atmost', n.args[0].args[1].args[1])
            if s not in xs:
                xs.append(s)                        # x[:n]
            put(dim(n.args[0].args[0], 0))
        elif n not in xs:
            xs.append(n)
    for n in Ns:
        put(n)
    if len(xs) == 1:
        return xs[0]
    return mk('ziplen', *sorted(xs, key=lambda n: n.key))


def range_len(a, b, s):
    if s.op == 'num' and s.data == 1:
        return T.sub(b, a)
    if s.op == 'num' and s.data == -1:
        return T.sub(a, b)
    return to_int(T.div(T.sub(b, a), s), 'ceil')


def shape(x):
    def f(x):
        if x.op in ('zeros', 'ones') and x.args[0].op == 'list':
            return mk('list', *x.args[0].args)
        if x.op == 'upd':
            return f(x.args[0])
        return mk('shape', x)
    return lift(f, [x], protect_bool=True)


def ndim(x):
    def f(x):
        if x.op == 'list' and x.args:
            return T.add(num(1), f(x.args[0]))
        if x.op in ('num', 'str', 'dim', 'size', 'ndim', 'K'):
            return num(0)
        return mk('ndim', x)
    return lift(f, [x], protect_bool=True)


# names that hold one-dimensional arrays wherever they occur
VECTORS = set('''xi oldmean meanchain oldmeanchain theta oldpar newpar old_theta mu sigma thetasig thetamu thetasigma lower_limits
    upper_limits sos _value _initial_value _lower_limits _upper_limits _thetamu _thetasigma _meanchain'''.split())


def is_vector(x):
    """one-dimensional: a known vector, one column or row of a table, or such shifted and scaled by numbers"""
    if x.op in ('sym', 'attr'):
        return x.data in VECTORS
    if x.op == 'getitem' and x.args[1].op == 'list' and x.args[1].data == 'tup' and len(x.args[1].args) == 2:
        return sorted((full_slice(i), _scalar_index(i)) for i in x.args[1].args) == [(False, True), (True, False)]
    if x.op == 'poly':
        at = {a for m, _ in x.data for a, _ in m}
        return any(is_vector(a) for a in at) and all(is_vector(a) or a.op == 'getitem' and _scalar_index(a.args[1]) or
                                                     a.op in ('sum', 'dim', 'size', 'num') for a in at)
    return False


def size(x):
    def f(x):
        if x.op in ('sym', 'attr') and x.data in VECTORS:
            return dim(x, 0)
        if x.op == 'list' and len(x.args) == 1:
            return num(1) if x.args[0].op == 'num' else f(x.args[0])
        if x.op == 'upd':
            return f(x.args[0])
        if x.op == 'list' and all(a.op in ('num',) for a in x.args):
            return num(len(x.args))
        if x.op == 'reshape':
            return f(x.args[0])
        if x.op in ('zeros', 'ones'):
            s = x.args[0]
            if s.op == 'list':
                r = num(1)
                for a in s.args:
                    r = T.mul(r, a)
                return r
            if s.op != 'shape':
                return s
        return mk('size', _split_const(x)[1])
    return lift(f, [x], protect_bool=True)


def const_key(k):
    return k.op in ('str', 'num', 'true', 'false', 'none') or (k.op == 'list' and all(const_key(a) for a in k.args))


def clip_stop(b, i):
    """x[a:len(x)+c] with c >= 0 is x[a:]"""
    def one(s, ax):
        if s.op == 'slice' and s.args[1] is not NONE and s.args[2] is NONE:
            d = T.sub(s.args[1], dim(b, ax))
            if d.op == 'num' and d.data >= 0:
                return mk('slice', s.args[0], NONE, NONE)
        return s
    if i.op == 'slice':
        return norm_index(one(i, 0))
    if i.op == 'list' and i.data == 'tup' and any(x.op == 'slice' for x in i.args) and \
            all(x.op in ('slice', 'num', 'K') for x in i.args):
        return norm_index(mk('list', *[one(x, ax) for ax, x in enumerate(i.args)], data='tup'))
    return i


CALLABLE = ('fun', 'bound', 'ext', 'class', 'builtin')


def getitem(base, idx):
    idx = norm_index(idx)

    def f(b, i):
        i = clip_stop(b, norm_index(i))
        if b.op == 'getitem' and b.args[1].op == 'slice' and b.args[1].args[2] is NONE and \
                (i.op == 'K' or (is_int(i) and i.data >= 0)):
            lo = b.args[1].args[0]
            if lo is NONE or (is_int(lo) and lo.data >= 0):
                return f(b.args[0], i if lo is NONE else T.add(i, lo))
        if full_slice(i):
            return b
        if b.op == 'getitem' and b.args[1].op == 'range' and i.op == 'list' and i.data == 'tup' and len(i.args) == 2 and \
                full_slice(i.args[0]) and _scalar_index(i.args[1]):
            return f(b.args[0], mk('list', b.args[1], i.args[1], data='tup'))       # x[rows][:, j]
        if b.op == 'const' and b.data == 'undef':
            return b
        if b.op in ('list', 'str') and is_int(i):
            k = int(i.data)
            if b.op == 'list':
                if -len(b.args) <= k < len(b.args):
                    return b.args[k]
        if b.op == 'list' and i.op == 'slice' and all(a is NONE or is_int(a) for a in i.args):
            v = [None if a is NONE else int(a.data) for a in i.args]
            return mk('list', *b.args[slice(*v)])
        if b.op == 'list' and i.op == 'list' and i.data == 'tup' and is_int(i.args[0]):
            k = int(i.args[0].data)
            if -len(b.args) <= k < len(b.args):
                rest = i.args[1:]
                return getitem(b.args[k], rest[0] if len(rest) == 1 else mk('list', *rest, data='tup'))
        if b.op == 'dict' and const_key(i):
            if i in b.data:
                return b.args[b.data.index(i)]
        if b.op == 'dict' and b.args and not const_key(i) and all(a.op in CALLABLE for a in b.args):
            r = b.args[-1]                  # a table of functions; another key is a KeyError
            for k, a in list(zip(b.data, b.args))[-2::-1]:
                r = T.ite(eq(i, k), a, r)
            return r
        if b.op == 'upd':
            k = norm_index(b.args[1])
            if k is i:
                return b.args[2]
            if const_key(k) and const_key(i) and not (k.op == 'num' and i.op == 'num' and
                                                      (k.data < 0) != (i.data < 0)):
                return f(b.args[0], i)
            if k.op == 'str' or i.op == 'str':
                if const_key(k) and const_key(i):
                    return f(b.args[0], i)
        if b.op == 'append':
            if i.op == 'num' and i.data == -1:
                return b.args[1]
            if i.op == 'num' and i.data < -1:
                return f(b.args[0], T.add(i, num(1)))
            L = dim(b.args[0], 0)
            if L is i:
                return b.args[1]
            d = T.sub(i, L)
            if d.op == 'num' and d.data == -1 and b.args[0].op == 'append':
                return f(b.args[0], i)
            if d.op == 'num' and d.data < 0:
                return f(b.args[0], i)
        if b.op == 'range' and i.op != 'slice' and not (i.op == 'num' and i.data < 0):
            return T.add(b.args[0], T.mul(b.args[2], i))
        if b.op == 'shape' and is_int(i) and i.data >= 0:
            return dim(b.args[0], int(i.data))
        if b.op in ('zeros', 'ones') and is_int(b.args[0]) and is_int(i) and 0 <= i.data < b.args[0].data:
            return num(0 if b.op == 'zeros' else 1)
        if b.op in ('poly',) and _scalar_index(i) and i.op != 'slice':
            # (ones(n) * w)[i] == w[i]-like broadcasting is left alone
            pass
        return mk('getitem', b, i)
    return lift(f, [base, idx], protect_bool=True)


def filled(c, v):
    """an array of the shape of c, every element of it v"""
    def f(c):
        while c.op == 'upd' and c.args[1].op != 'str':
            c = c.args[0]
        if c.op == 'list':
            return mk('fillall', c, v)
        return T.mul(mk('ones', c.args[0] if c.op in ('zeros', 'ones') else shape(c)), v)
    if v.op in ('list', 'dict', 'str') or v is NONE:
        return mk('fillall', c if c.op == 'list' else shape(c), v)
    return lift(f, [c], protect_bool=True)


def _scalar_index(i):
    return i.op in ('num', 'K', 'poly')


def upd(base, idx, v):
    idx = norm_index(idx)

    def f(b, i):
        if full_slice(i):
            return filled(b, v)
        if b.op == 'list' and is_int(i):
            k = int(i.data)
            if -len(b.args) <= k < len(b.args):
                a = list(b.args)
                a[k] = v
                return mk('list', *a)
        if b.op == 'dict' and const_key(i):
            return dict_set(b, i, v)
        if b.op == 'upd':
            k = b.args[1]
            if k is i:
                return mk('upd', b.args[0], i, v)
            if const_key(k) and const_key(i) and k.op == 'str' and i.op == 'str':
                # stores under distinct keys commute: keep them sorted
                if k.data > i.data:
                    return mk('upd', f(b.args[0], i), k, b.args[2])
                inner = f_has(b.args[0], i)
                if inner is not None:
                    return mk('upd', inner(v), k, b.args[2])
        return mk('upd', b, i, v)

    def f_has(b, i):
        if b.op != 'upd' or b.args[1].op != 'str':
            return None
        if b.args[1] is i:
            return lambda v: mk('upd', b.args[0], i, v)
        g = f_has(b.args[0], i)
        if g is None:
            return None
        return lambda v: mk('upd', g(v), b.args[1], b.args[2])
    return lift(f, [base, idx], protect_bool=True)


def mkdict(pairs):
    d = mk('dict', data=())
    for k, v in pairs:
        d = dict_set(d, k, v)
    return d


def dict_set(d, k, v):
    if d.op == 'dict':
        items = list(zip(d.data, d.args))
        for j, (kk, vv) in enumerate(items):
            if kk is k:
                items[j] = (k, v)
                break
        else:
            items.append((k, v))
        items.sort(key=lambda kv: (kv[0].op, str(kv[0].data), kv[0].key))
        n = T._intern('dict', tuple(v for _, v in items), tuple(kk for kk, _ in items))
        return n
    return mk('upd', d, k, v)


def dict_del(d, k):
    def f(d):
        if d.op == 'dict' and const_key(k):
            items = [(a, b) for a, b in zip(d.data, d.args) if a is not k]
            return mkdict(items)
        return mk('delkey', d, k)
    # deletions of distinct constant keys commute
    r = lift(f, [d])
    return _sort_del(r)


def _sort_del(r):
    ks = []
    b = r
    while b.op == 'delkey' and const_key(b.args[1]):
        ks.append(b.args[1])
        b = b.args[0]
    if len(ks) > 1:
        for k in sorted(set(ks), key=lambda k: str(k.data)):
            b = mk('delkey', b, k)
        return b
    return r


def contains(k, d):
    def f(k, d):
        if d.op == 'dict' and const_key(k):
            if k in d.data:
                return TRUE
            return FALSE
        if d.op == 'list':
            return T.or_(*[eq(k, a) for a in d.args]) if d.args else FALSE
        if d.op == 'dict' and d.data and all(const_key(a) for a in d.data):
            return T.or_(*[eq(k, a) for a in d.data])
        if d.op == 'keys':
            return f(k, d.args[0])
        if d.op == 'shape':                          # of a matrix
            return T.or_(eq(k, dim(d.args[0], 0)), eq(k, dim(d.args[0], 1)))
        if d.op == 'upd' and const_key(k):
            if d.args[1] is k:
                return TRUE
            if const_key(d.args[1]):
                return f(k, d.args[0])
        if d.op == 'str' and k.op == 'str':
            return TRUE if k.data in d.data else FALSE
        return mk('in', k, d)
    return lift(f, [k, d], protect_bool=True)


def attr(b, name):
    def f(b):
        if b.op == 'rec':
            cls, names = b.data
            if name in names:
                return b.args[names.index(name)]
        if b.op == 'with':
            names = b.data
            if name in names:
                return b.args[1 + names.index(name)]
            return f(b.args[0])
        if b.op == 'ite':
            return lift(f, [b])
        if b.op == 'const' and b.data == 'undef':
            return b
        if name == 'shape':
            return shape(b)
        if name == 'size':
            return size(b)
        if name == 'ndim':
            return ndim(b)
        if name == 'T':
            return transpose(b)
        if name == 'real':
            return mk('call', b, data='np.real')
        if name == 'imag':
            return mk('call', b, data='np.imag')
        return mk('attr', b, data=name)
    return lift(f, [b])


def with_(b, pairs):
    """object b with some attributes replaced"""
    if b.op == 'with':
        d = dict(zip(b.data, b.args[1:]))
        b0 = b.args[0]
    elif b.op == 'rec':
        d = dict(zip(b.data[1], b.args))
        d.update(pairs)
        names = tuple(sorted(d))
        return mk('rec', *[d[n] for n in names], data=(b.data[0], names))
    else:
        d, b0 = {}, b
    d.update(pairs)
    d = {k: v for k, v in d.items() if not (v.op == 'attr' and v.data == k and v.args[0] is b0)}
    if not d:
        return b0
    names = tuple(sorted(d))
    return mk('with', b0, *[d[n] for n in names], data=names)


# ------------------------------------------------------------------ linear algebra etc.
def transpose(x):
    def f(x):
        if x.op == 'T':
            return x.args[0]
        if x.op == 'eye' or is_vector(x):
            return x
        c, y = _split_const(x)
        if c != 1:
            return T.mul(num(c), f(y))
        if x.op == 'reshape' and x.args[1].op == 'list' and len(x.args[1].args) == 2 and \
                any(d.op == 'num' and d.data == 1 for d in x.args[1].args):
            return mk('reshape', x.args[0], mk('list', *x.args[1].args[::-1]))
        return mk('T', x)
    return lift(f, [x], protect_bool=True)


def _split_const(x):
    """x = c * y with rational c"""
    if x.op == 'poly' and len(x.data) == 1:
        (m, c), = x.data
        return c, T.from_items({m: Fraction(1)})
    if x.op == 'poly':
        items = T.poly_items(x)
        _, c = T._lead({m: c for m, c in items.items() if m != ()} or items)
        if c != 1:
            return c, T.from_items({m: q / c for m, q in items.items()})
    return Fraction(1), x


def dot(a, b):
    def f(a, b):
        ca, a = _split_const(a)
        cb, b = _split_const(b)
        if a.op == 'eye':
            r = b
        elif b.op == 'eye':
            r = a
        else:
            # right-associate
            if a.op == 'dot':
                r = mk('dot', a.args[0], dot(a.args[1], b))
            else:
                r = mk('dot', a, b)
        return T.mul(num(ca * cb), r)
    return lift(f, [a, b], protect_bool=True)


def solve(a, b):
    def f(a, b):
        if b.op == 'eye':
            return inv(a)
        return mk('solve', a, b)
    return lift(f, [a, b], protect_bool=True)


def inv(a):
    def f(a):
        c, y = _split_const(a)
        if y.op == 'inv':
            r = y.args[0]
        else:
            r = mk('inv', y)
        if c != 1:
            r = T.mul(num(1 / c), r)
        return r
    return lift(f, [a], protect_bool=True)


def any_(x):
    def f(x):
        x = bare(x)
        if x is TRUE or x is FALSE:
            return x
        if x.op == 'any':
            return x
        c = _scalar_atom(x)
        if c is not None:
            return ite(c, f(restrict(x, c, True)), f(restrict(x, c, False)))
        lits = _or_literals(x)
        if lits is not None:
            return T.or_(*[mk('any', l) for l in lits])
        return mk('any', x)
    return f(x)


def _is_count(p):
    return all(a.op in ('dim', 'size', 'ndim', 'K') for m in T.poly_items(p) for a, _ in m)


def _scalar_atom(b):
    """a condition in the diagram of an elementwise test that does not vary over the elements"""
    seen, todo = set(), [b]
    while todo:
        n = todo.pop()
        if n.op != 'ite' or n.id in seen:
            continue
        if n.args[0].op in ('isnone', 'isinst', 'hasattr', 'any') or n.args[0].op in ('eq0', 'lt0') and _is_count(n.args[0].args[0]):
            return n.args[0]
        seen.add(n.id)
        if len(seen) > 60:
            return None
        todo += n.args[1:]
    return None


def restrict(n, atom, val, memo=None):
    """a decision diagram where the condition is known"""
    memo = {} if memo is None else memo
    if n is atom:
        return TRUE if val else FALSE
    if n.op != 'ite':
        return n
    if n.args[0] is atom:
        return n.args[1 if val else 2]
    if n.id not in memo:
        memo[n.id] = ite(n.args[0], restrict(n.args[1], atom, val, memo), restrict(n.args[2], atom, val, memo))
    return memo[n.id]


def _or_literals(b):
    """literals l1..ln with b == l1 or ... or ln, else None"""
    out = []
    while True:
        if b is FALSE:
            return out
        if b.op != 'ite':
            if is_bool(b):
                out.append(b)
                return out
            return None
        c, h, l = b.args
        if h is TRUE:
            out.append(c)
            b = l
        elif l is TRUE:
            out.append(T.not_(c))
            b = h
        elif h is FALSE and l is TRUE:
            out.append(T.not_(c))
            return out
        else:
            return None


def reshape(x, dims):
    def f(x, d):
        if x.op == 'reshape':
            x = x.args[0]
        if x.op == 'flat':
            x = x.args[0]
        if x.op == 'list' and len(x.args) == 1:
            x = x.args[0]
        if d.op == 'list' and len(d.args) == 1:
            d = d.args[0]
        if d.op == 'list' and len(d.args) == 2 and any(a.op == 'num' and a.data == -1 for a in d.args) and \
                any(a.op == 'num' and a.data == 1 for a in d.args):
            d = mk('list', *[size(x) if a.op == 'num' and a.data == -1 else a for a in d.args])
        if d.op != 'list' and (d is size(x) or (d.op == 'num' and d.data == -1)):
            c, y = _split_const(x)
            return T.mul(num(c), mk('flat', y))
        c, y = _split_const(x)
        if c != 1:
            return T.mul(num(c), mk('reshape', y, d))
        return mk('reshape', x, d)
    return lift(f, [x, dims], protect_bool=True)


def reduce_(op, x, axis=NONE, ddof=num(0)):
    """sum / mean / var / std / amin / amax / prod with optional axis"""
    if x.op == 'flat' and axis is NONE:
        x = x.args[0]
    if axis.op == 'num' and axis.data == 0:
        ax = 0
    elif axis is NONE:
        ax = None
    elif axis.op == 'num':
        ax = int(axis.data)
    elif axis.op == 'str':
        ax = axis.data
    else:
        return mk('call', x, axis, data='np.' + op)

    def f(x):
        if op == 'mean':
            n = size(x) if ax is None else dim(x, ax if ax >= 0 else 9)
            return T.div(reduce_('sum', x, axis), n)
        if op == 'std':
            return T.power(reduce_('var', x, axis, ddof), num(Fraction(1, 2)))
        if op == 'var':
            return mk('var', x, ddof, data=ax)
        if op == 'sum':
            if x.op == 'list' and ax in (None, 0, 'b'):
                r = num(0)
                for a in x.args:
                    r = T.add(r, a)
                return r
            # pull constants out
            c, y = _split_const(x)
            r = mk('sum', y, data=ax)
            return T.mul(num(c), r) if c != 1 else r
        return mk(op, x, data=ax)
    return lift(f, [x], protect_bool=True)


def fmt(template, args, kwargs):
    """'..{}..'.format(...)"""
    if template.op != 'str':
        return mk('call', template, *args, data='str.format')
    s = template.data
    parts = []
    i = 0
    auto = 0
    buf = ''
    while i < len(s):
        ch = s[i]
        if ch == '{':
            if s[i:i + 2] == '{{':
                buf += '{'
                i += 2
                continue
            j = i
            depth = 0
            while j < len(s):
                if s[j] == '{':
                    depth += 1
                elif s[j] == '}':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            field = s[i + 1:j]
            if buf:
                parts.append(string(buf))
                buf = ''
            name, _, spec = field.partition(':')
            conv = ''
            if '!' in name:
                name, conv = name.split('!')
            if name == '':
                k = auto
                auto += 1
                a = args[k] if k < len(args) else mk('const', data='undef')
            elif name.isdigit():
                a = args[int(name)] if int(name) < len(args) else mk('const', data='undef')
            else:
                a = kwargs.get(name, mk('const', data='undef'))
            if spec or conv:
                if spec in ('d', 's') and not conv:
                    parts.append(a)
                else:
                    parts.append(mk('fmt', a, data=spec + '!' + conv))
            else:
                parts.append(a)
            i = j + 1
            continue
        if ch == '}' and s[i:i + 2] == '}}':
            buf += '}'
            i += 2
            continue
        buf += ch
        i += 1
    if buf:
        parts.append(string(buf))
    return T.cat(parts) if parts else string('')
