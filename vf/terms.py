"""Hash-consed value terms with algebraic normal forms.

A term abstracts the value an expression denotes.  Nothing is executed: terms
are built from the syntax tree by vf.interp and are only ever normalised and
compared.

 * arithmetic is kept as polynomials over atoms with exact rational
   coefficients and rational exponents,
 * booleans and conditional values are ordered decision diagrams (ite nodes
   whose condition is an atom), so the textual arrangement of tests, early
   returns and nested ifs does not matter,
 * loops are closed into `loopval` nodes whose identity is the digest of a
   partition refinement over their loop-carried variables, so names, order of
   statements and split/fused loops do not matter.
"""
import hashlib
from fractions import Fraction

MAX_APPLY = 60000
POLY_LIMIT = 200


class TooComplex(Exception):
    pass


def _h(*parts):
    m = hashlib.blake2b(digest_size=16)
    for p in parts:
        if isinstance(p, bytes):
            m.update(p)
        else:
            m.update(repr(p).encode())
        m.update(b'\x00')
    return m.digest()


class Node:
    __slots__ = ('op', 'args', 'data', 'id', 'key', 'gkey', 'fm', 'src', 'loop', 'size', 'isb')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
SRC = [None]            # (file, line) of the construct being interpreted
_apply_budget = [0]


_given_memo = {}


def reset():
    _table.clear()
    _ite_memo.clear()
    _lift_memo.clear()
    _given_memo.clear()
    _count[0] = 0


def reset_budget():
    _apply_budget[0] = 0


COMM = {'min', 'max', 'eq'}
_E = frozenset()


def _intern(op, args, data, key=None, gkey=None, fm=None, loop=None):
    if op == 'loopval':
        ik = ('loopval', key)
    elif op == 'poly':
        ik = ('poly', data)
    else:
        ik = (op, tuple(a.id for a in args), data)
    n = _table.get(ik)
    if n is not None:
        if n.src is not SRC[0]:
            n.src = SRC[0]
        return n
    n = Node()
    n.op, n.args, n.data = op, args, data
    _count[0] += 1
    n.id = _count[0]
    n.src = SRC[0]
    n.loop = loop
    if fm is None:
        fm = _E
        if op == 'poly':
            for mono, c in data:
                for a, e in mono:
                    if a.fm:
                        fm = fm | a.fm
        else:
            for a in args:
                if a.fm:
                    fm = fm | a.fm
    n.fm = fm
    n.key = key if key is not None else _hash_struct(n, lambda a: a.key)
    if gkey is not None:
        n.gkey = gkey
    elif not fm:
        n.gkey = n.key
    else:
        n.gkey = _hash_struct(n, lambda a: a.gkey)
    if op == 'poly':
        n.size = 1 + sum(a.size for mono, c in data for a, e in mono)
    else:
        n.size = 1 + sum(a.size for a in args)
    n.isb = _is_bool(n)
    if n.size > 10 ** 9:
        n.size = 10 ** 9
    _table[ik] = n
    return n


def _hash_struct(n, kf):
    if n.op == 'poly':
        items = sorted((tuple(sorted((kf(a), str(e)) for a, e in mono)), str(c)) for mono, c in n.data)
        return _h('poly', repr(items))
    ks = [kf(a) for a in n.args]
    if n.op in COMM:
        ks = sorted(ks)
    return _h(n.op, repr(n.data), *ks)


# ---------------------------------------------------------------- basic nodes
def mk(op, *args, data=None):
    return _intern(op, tuple(args), data)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return mk('const', data='nan')
        if x in (float('inf'), float('-inf')):
            c = mk('const', data='inf')
            return c if x > 0 else neg(c)
        x = Fraction(repr(x))
    return _intern('num', (), Fraction(x))


TRUE = FALSE = NONE = None


def init_consts():
    global TRUE, FALSE, NONE, ZERO, ONE
    TRUE = mk('true')
    FALSE = mk('false')
    NONE = mk('none')
    ZERO = num(0)
    ONE = num(1)


def sym(name):
    return mk('sym', data=name)


def string(s):
    return mk('str', data=s)


_mu = [0]


def mu(name, init, depth=0):
    _mu[0] += 1
    uid = _mu[0]
    return _intern('mu', (), (uid, name), key=_h('mu', uid), gkey=_h('mu', init.gkey if init is not None else b'?'),
                   fm=frozenset([('m', uid)]))


def counter(depth):
    return _intern('K', (), depth, key=_h('K', depth), fm=frozenset([('K', depth)]))


# ---------------------------------------------------------------- polynomials
BOOL_OPS = {'true', 'false', 'lt0', 'eq0', 'eq', 'isnone', 'isinst', 'any', 'in', 'isnan', 'isinf', 'raises',
            'hasattr', 'bool', 'arreq', 'istrue', 'pred', 'is'}


def _is_bool(n):
    op = n.op
    if op in BOOL_OPS:
        return True
    if op == 'ite':
        return n.args[1].isb and n.args[2].isb
    if op == 'call':
        return n.data in ('np.isfinite', 'np.allclose', 'os.path.isdir', 'os.path.exists', 'os.path.isfile')
    if op == 'loopval' and n.loop is not None:
        return n.loop[1].isb
    return op == 'typed' and n.data == 'bool'


def is_bool(n):
    return n.isb


def poly_items(n):
    """dict: monomial (tuple of (atom, exp) sorted by id) -> coef"""
    if n.op == 'num':
        return {(): n.data} if n.data else {}
    if n.op == 'poly':
        return dict(n.data)
    if n is TRUE:
        return {(): Fraction(1)}
    if n is FALSE:
        return {}
    return {((n, Fraction(1)),): Fraction(1)}


def from_items(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return num(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(d) > POLY_LIMIT:
        raise TooComplex('polynomial too large')
    data = tuple(sorted(d.items(), key=lambda mc: (tuple((a.id, e) for a, e in mc[0]), mc[1])))
    return _intern('poly', (), data)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def _padd(a, b):
    d = poly_items(a)
    for m, c in poly_items(b).items():
        d[m] = d.get(m, 0) + c
    return from_items(d)


def _pmul(a, b):
    A, B = poly_items(a), poly_items(b)
    if len(A) * len(B) > POLY_LIMIT * 4:
        raise TooComplex('product too large')
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = from_items(d)
    # a sum-atom with a positive integer exponent is expanded back
    return _expand_sumatoms(r)


def _expand_sumatoms(n):
    if n.op != 'poly':
        return n
    for m, c in n.data:
        for a, e in m:
            if a.op == 'sumatom' and e.denominator == 1 and e > 0:
                break
        else:
            continue
        break
    else:
        return n
    tot = num(0)
    for m, c in n.data:
        t = num(c)
        rest = []
        for a, e in m:
            if a.op == 'sumatom' and e.denominator == 1 and e > 0:
                for _ in range(int(e)):
                    t = _pmul(t, a.args[0])
            else:
                rest.append((a, e))
        if rest:
            t = _pmul(t, from_items({tuple(rest): Fraction(1)}))
        tot = _padd(tot, t)
    return tot


def _ppow(a, e):
    """a ** e with e a num node"""
    e = e.data
    if e == 1:
        return a
    if e == 0:
        return num(1)
    if a.op == 'num':
        v = a.data
        if e.denominator == 1 and (v != 0 or e > 0):
            return num(v ** int(e))
        if v > 0:
            # exact roots only
            r = _exact_root(v, e)
            if r is not None:
                return num(r)
        return from_items({((a_num_atom(v), e),): Fraction(1)}) if v > 0 else mk('pow', a, num(e))
    items = poly_items(a)
    if len(items) == 1:
        (m, c), = items.items()
        if e.denominator == 1:
            return from_items({tuple((x, ee * e) for x, ee in m): c ** int(e)})
        if c > 0:
            r = _exact_root(c, e)
            mm = tuple((x, ee * e) for x, ee in m)
            if r is None:
                mm = _mono_mul(mm, ((a_num_atom(c), e),))
                return from_items({mm: Fraction(1)})
            return from_items({mm: r})
        return mk('pow', a, num(e))
    if e.denominator == 1 and 0 < e <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = _pmul(r, a)
        return r
    # sum raised to a negative or fractional power: pull out content
    cont, prim = _content(a)
    at = mk('sumatom', prim)
    out = from_items({((at, e),): Fraction(1)})
    if cont != 1:
        out = _pmul(_ppow(num(cont), num(e)), out)
    return out


def a_num_atom(v):
    return mk('numatom', num(v))


def _exact_root(v, e):
    p, q = e.numerator, e.denominator
    def iroot(n):
        r = round(n ** (1.0 / q))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** q == n:
                return k
        return None
    a, b = iroot(v.numerator), iroot(v.denominator)
    if a is None or b is None:
        return None
    f = Fraction(a, b)
    return f ** p


def _lead(items):
    return min(items.items(), key=lambda mc: tuple(sorted((a.gkey, a.key, str(e)) for a, e in mc[0])) or ((b'\xff' * 17,),))


def _content(a):
    """split a = c * prim with prim having leading coefficient 1 (sign kept when c>0 is impossible)"""
    items = poly_items(a)
    m, c = _lead({m: c for m, c in items.items() if m != ()} or items)
    c = abs(c)
    return c, from_items({m2: c2 / c for m2, c2 in items.items()})


def is_numeric_leaf(n):
    return n.op in ('num', 'poly', 'true', 'false')


# ---------------------------------------------------------------- ite / BDD
_ite_memo = {}
_lift_memo = {}


def _order(atom):
    return (atom.gkey, atom.id)


def _top(n):
    """top decision atom of a node, or None"""
    if n.op == 'ite':
        return n.args[0]
    if n.op in BOOL_ATOMS or (n.op in ('call', 'typed', 'loopval') and is_bool(n)):
        return n
    return None


BOOL_ATOMS = {'lt0', 'eq0', 'eq', 'isnone', 'isinst', 'any', 'in', 'isnan', 'isinf', 'raises', 'hasattr', 'bool',
              'arreq', 'istrue', 'pred', 'is'}


def _cof(n, atom, val):
    """cofactor at top level"""
    if n is atom:
        return TRUE if val else FALSE
    if n.op == 'ite' and n.args[0] is atom:
        return n.args[1] if val else n.args[2]
    return n


def ite(c, a, b):
    """general if-then-else; c any boolean decision diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    _apply_budget[0] += 1
    if _apply_budget[0] > MAX_APPLY:
        raise TooComplex('decision diagram too large')
    tops = [t for t in (_top(c), _top(a), _top(b)) if t is not None]
    t = _top(c)
    if t is None:
        raise TooComplex('condition is not boolean: %s' % c.op)
    t = min(tops, key=_order)
    hi = ite(_cof(c, t, True), _cof(a, t, True), _cof(b, t, True))
    lo = ite(_cof(c, t, False), _cof(a, t, False), _cof(b, t, False))
    r = _mkite(t, hi, lo)
    _ite_memo[k] = r
    return r


def _is_what(atom):
    """(x, constant) for an atom that says x is that constant, else None"""
    if atom.op == 'eq':
        a, b = atom.args
        if a.op == 'str':
            a, b = b, a
        return (a, b.id) if b.op == 'str' and a.op != 'str' else None
    if atom.op == 'isnone':
        return atom.args[0], NONE.id
    if atom.op == 'eq0':
        p = atom.args[0]
        if p.op != 'poly':
            return p, ZERO.id
        if len(p.data) == 2:
            c = dict(p.data).get(())
            (m, k), = [(m, k) for m, k in p.data if m != ()] if c is not None else [(None, None)]
            if m is not None and len(m) == 1 and m[0][1] == 1 and k == 1:
                return m[0][0], num(-c).id
    return None


def _given(n, w):
    """n where x is the constant: it is no other constant"""
    if n.op != 'ite' and _top(n) is not n:
        return n
    k = (n.id, w[0].id, w[1])
    r = _given_memo.get(k)
    if r is not None:
        return r
    t = _top(n)
    o = _is_what(t)
    if o is not None and o[0] is w[0] and o[1] != w[1]:
        r = FALSE if n.op != 'ite' else _given(n.args[2], w)
    elif n.op != 'ite':
        r = n
    else:
        h, l = _given(n.args[1], w), _given(n.args[2], w)
        r = n if h is n.args[1] and l is n.args[2] else _mkite(t, h, l)
    _given_memo[k] = r
    return r


def _mkite(atom, hi, lo):
    if hi is not lo and hi.op == 'ite' or _top(hi) is hi:
        w = _is_what(atom)
        if w is not None:
            hi = _given(hi, w)
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return atom
    # min / max recognition
    if atom.op == 'lt0' and hi.op in ('num', 'poly', 'sym', 'attr', 'getitem', 'call') and \
            lo.op in ('num', 'poly', 'sym', 'attr', 'getitem', 'call'):
        p = atom.args[0]
        d = _padd(hi, _pmul(num(-1), lo))
        if d is not ZERO and d.op != 'num':
            c, d1 = _content(d)
            c2, p1 = _content(p)
            if d1 is p1:
                return _minmax('min', [hi, lo])
            if _pmul(num(-1), d1) is p1:
                return _minmax('max', [hi, lo])
    if atom.op == 'eq0':
        # value under x == 0
        pass
    return _intern('ite', (atom, hi, lo), None)


def lift(f, args, protect_bool=False):
    """apply f to args, distributing over conditional values"""
    best = None
    for a in args:
        if a.op == 'ite' and not (protect_bool and is_bool(a)):
            t = a.args[0]
            if best is None or _order(t) < _order(best):
                best = t
    if best is None:
        return f(*args)
    _apply_budget[0] += 1
    if _apply_budget[0] > MAX_APPLY:
        raise TooComplex('decision diagram too large')

    def co(a, v):
        if a.op == 'ite' and a.args[0] is best and not (protect_bool and is_bool(a)):
            return a.args[1] if v else a.args[2]
        return a
    hi = lift(f, [co(a, True) for a in args], protect_bool)
    lo = lift(f, [co(a, False) for a in args], protect_bool)
    return ite(best, hi, lo)


# ---------------------------------------------------------------- booleans
def not_(c):
    return ite(truth(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(truth(c), r, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(truth(c), TRUE, r)
    return r


def truth(n):
    if n.op == 'npb':
        return n.args[0]
    if is_bool(n):
        return n
    if n.op == 'ite':
        return lift(truth, [n])
    if n.op == 'num':
        return TRUE if n.data != 0 else FALSE
    if n is NONE:
        return FALSE
    if n.op == 'str':
        return TRUE if n.data else FALSE
    if n.op in ('ref', 'rec', 'fun', 'class', 'module', 'bound'):
        return TRUE
    if n.op == 'list':
        return TRUE if n.args else FALSE
    if n.op == 'dict':
        return TRUE if n.data else FALSE
    if n.op == 'const':
        return TRUE
    return not_(eq0(n))


def lt0(p):
    """p < 0"""
    def f(p):
        if p.op == 'num':
            return TRUE if p.data < 0 else FALSE
        if p is TRUE or p is FALSE:
            return FALSE
        if p.op == 'const' and p.data == 'inf':
            return FALSE
        c, q = _content(p)
        return mk('lt0', q)
    return lift(f, [p], protect_bool=True)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt(b, a))


def eq0(p):
    def f(p):
        if p.op == 'num':
            return TRUE if p.data == 0 else FALSE
        if p is TRUE:
            return FALSE
        if p is FALSE:
            return TRUE
        if is_bool(p):
            return not_(p)
        if p.op == 'const':
            return FALSE
        if p.op in ('len', 'size'):
            pass
        items = poly_items(p)
        m, c = _lead({m: c for m, c in items.items() if m != ()} or items)
        q = from_items({m2: c2 / c for m2, c2 in items.items()})
        return mk('eq0', q)
    return lift(f, [p], protect_bool=True)


NUMERIC = {'num', 'poly', 'sumatom', 'numatom', 'K', 'true', 'false'}
NONNUM = {'str', 'none', 'list', 'dict', 'ref', 'rec', 'fun', 'class', 'module', 'bound', 'cat', 'tuple'}


def eq(a, b):
    def f(a, b):
        if a.op == 'npb':
            a = a.args[0]
        if b.op == 'npb':
            b = b.args[0]
        if a is b:
            return TRUE
        if is_bool(a) and is_bool(b):
            return ite(a, b, not_(b))
        if a is NONE or b is NONE:
            return is_none(b if a is NONE else a)
        if a.op in ('str', 'num') and b.op in ('str', 'num'):
            return FALSE if a is not b else TRUE
        if a.op in NONNUM or b.op in NONNUM:
            if a.op == 'list' and b.op == 'list':
                if len(a.args) != len(b.args):
                    return FALSE
                return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
            if a.id > b.id:
                a, b = b, a
            return mk('eq', a, b)
        if is_bool(a) and b.op == 'num':
            return a if b.data == 1 else (not_(a) if b.data == 0 else FALSE)
        if is_bool(b) and a.op == 'num':
            return b if a.data == 1 else (not_(b) if a.data == 0 else FALSE)
        for p, q in ((a, b), (b, a)):
            if p.op == 'min' and q is num(1) and all(x.op == 'dim' for x in p.args):
                return or_(*[eq(x, q) for x in p.args])      # lengths are at least one
        return eq0(sub(a, b))
    return lift(f, [a, b], protect_bool=True)


def is_none(a):
    def f(a):
        if a is NONE:
            return TRUE
        if a.op in ('num', 'poly', 'str', 'list', 'dict', 'ref', 'rec', 'fun', 'class', 'true', 'false', 'const', 'K',
                    'zeros', 'ones', 'eye', 'upd', 'append', 'dot', 'cat', 'npb', 'array', 'draw', 'T', 'reshape',
                    'dupd', 'min', 'max', 'concat', 'range', 'inv', 'chol', 'exp', 'log', 'sum', 'sum0'):
            return FALSE
        if is_bool(a):
            return FALSE
        return mk('isnone', a)
    return lift(f, [a], protect_bool=True)


# ---------------------------------------------------------------- arithmetic
def _val(n):
    if n.op == 'npb':
        return n.args[0]
    return n


def add(a, b):
    def f(a, b):
        if a.op in ('str', 'cat') or b.op in ('str', 'cat'):
            return cat([a, b])
        if islist(a) or islist(b):
            return lconcat(a, b)
        if a.op == 'none' or b.op == 'none' or a.op == 'dict' or b.op == 'dict':
            return mk('badadd', a, b)
        return _padd(a, b)
    return lift(f, [_val(a), _val(b)], protect_bool=True)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return lift(lambda a, b: _padd(a, _pmul(num(-1), b)), [_val(a), _val(b)], protect_bool=True)


def mul(a, b):
    def f(a, b):
        if a.op in ('str',) or b.op in ('str',) or a.op in ('list',) or b.op in ('list',):
            if a.op not in ('str', 'list'):
                a, b = b, a
            return mk('rep', a, b)
        return _pmul(a, b)
    return lift(f, [_val(a), _val(b)], protect_bool=True)


def power(a, e):
    def f(a, e):
        if e.op == 'num':
            return _ppow(a, e)
        # (x**a)**b == x**(a*b)
        if a.op == 'pow':
            return f(a.args[0], _pmul(a.args[1], e))
        if a is ONE:
            return ONE
        items = poly_items(e)
        if items and all(c < 0 for c in items.values()):
            return _ppow(f(a, _pmul(num(-1), e)), num(-1))
        return mk('pow', a, e)
    return lift(f, [_val(a), _val(e)], protect_bool=True)


def div(a, b):
    return mul(a, power(b, num(-1)))


def _minmax(op, args):
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    nums = [a for a in flat if a.op == 'num']
    rest = []
    for a in flat:
        if a.op != 'num' and a not in rest:
            rest.append(a)
    if nums:
        v = (min if op == 'min' else max)(x.data for x in nums)
        if not rest:
            return num(v)
        rest.append(num(v))
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda n: n.id)
    return mk(op, *rest)


def minmax(op, args):
    return lift(lambda *a: _minmax(op, list(a)), [_val(a) for a in args], protect_bool=True)


# ---------------------------------------------------------------- strings
def cat(parts):
    def f(*ps):
        out = []
        for p in ps:
            if p.op == 'cat':
                out.extend(p.args)
            elif p.op == 'num' and p.data.denominator == 1:
                out.append(string(str(int(p.data))))
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == 'str' and res and res[-1].op == 'str':
                res[-1] = string(res[-1].data + p.data)
            elif p.op == 'str' and p.data == '':
                continue
            else:
                res.append(p)
        if not res:
            return string('')
        if len(res) == 1 and res[0].op == 'str':
            return res[0]
        return mk('cat', *res)
    return lift(f, list(parts), protect_bool=True)


LISTOPS = ('list', 'append', 'lconcat', 'rep', 'sorted')


def islist(n):
    """is n certainly a Python list (so that + joins)?"""
    if n.op in LISTOPS:
        return True
    if n.op == 'getitem' and n.args[1].op == 'slice':
        return islist(n.args[0])
    if n.op == 'ite':
        return islist(n.args[1]) and islist(n.args[2])
    if n.op == 'loopval':
        loop, expr = n.loop
        if expr.op == 'mu':
            for m in loop.mus:
                if m is expr:
                    init, nxt, name = loop.mus[m]
                    return islist(init) and grows(nxt, m)
    return False


def grows(n, m):
    """is n the list m with something added behind it?"""
    if n is m:
        return True
    if n.op in ('append', 'lconcat', 'upd'):
        return grows(n.args[0], m)
    if n.op == 'ite':
        return grows(n.args[1], m) and grows(n.args[2], m)
    if n.op == 'loopval':
        loop, expr = n.loop
        if expr.op == 'mu':
            for k in loop.mus:
                if k is expr:
                    return grows(loop.mus[k][0], m) and grows(loop.mus[k][1], k)
    return False


def lconcat(a, b):
    if a.op == 'list' and not a.args:
        return b
    if a.op == 'list' and b.op == 'list':
        return mk('list', *(a.args + b.args))
    if b.op == 'list':
        r = a
        for e in b.args:
            r = mk('append', r, e)
        return r
    return mk('lconcat', a, b)


# ---------------------------------------------------------------- loops
class Loop:
    """cont: condition under which another iteration follows (over header mus)
    mus: {mu node: (init, next, name)}; depth: counter depth"""

    def __init__(self, cont, mus, depth):
        self.cont = cont
        self.mus = mus
        self.depth = depth
        self.muset = {next(iter(m.fm)): m for m in mus}

    def needed(self, expr):
        todo = [expr, self.cont]
        seen = []
        seenset = set()
        done = set()
        while todo:
            n = todo.pop()
            if n.id in done:
                continue
            done.add(n.id)
            for f in n.fm:
                m = self.muset.get(f)
                if m is not None and m.id not in seenset:
                    seenset.add(m.id)
                    seen.append(m)
                    init, nxt, name = self.mus[m]
                    todo.append(nxt)
        return seen


def hcol(n, env, memo):
    """structural digest of n with free mus replaced by colours from env"""
    if not n.fm or not any(f in env for f in n.fm):
        return n.key
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op in ('mu', 'K'):
        f = next(iter(n.fm))
        r = env.get(f, n.key)
    elif n.op == 'loopval':
        loop, expr = n.loop
        r = loop_digest(loop, expr, env)
    else:
        r = _hash_struct(n, lambda a: hcol(a, env, memo))
    memo[n.id] = r
    return r


def loop_digest(loop, expr, env):
    need = loop.needed(expr)
    own = {next(iter(m.fm)) for m in need}
    own.add(('K', loop.depth))
    env0 = {k: v for k, v in env.items() if k not in own}
    m0 = {}
    col0 = {m: _h('mu0', hcol(loop.mus[m][0], env0, m0)) for m in need}
    kcol = _h('K')
    col = dict(col0)
    classes = -1
    for _ in range(len(need) + 2):
        e = dict(env0)
        e[('K', loop.depth)] = kcol
        for m in need:
            e[next(iter(m.fm))] = col[m]
        memo = {}
        col = {m: _h(col0[m], hcol(loop.mus[m][1], e, memo)) for m in need}
        nc = len(set(col.values()))
        if nc == classes:
            break
        classes = nc
    e = dict(env0)
    e[('K', loop.depth)] = kcol
    for m in need:
        e[next(iter(m.fm))] = col[m]
    memo = {}
    return _h('loop', hcol(loop.cont, e, memo), hcol(expr, e, memo))


def loopval(loop, expr):
    own = set(loop.muset) | {('K', loop.depth)}
    need = loop.needed(expr)
    if not any(f in own for f in expr.fm):
        # value does not depend on the loop state
        return expr
    key = loop_digest(loop, expr, {})
    fm = set()
    for n in [expr, loop.cont] + [loop.mus[m][1] for m in need]:
        fm |= n.fm
    fm -= own
    for m in need:
        fm |= loop.mus[m][0].fm
    fm = frozenset(fm)
    gkey = None
    if fm:
        g = {}
        def collect(n, seen):
            if n.id in seen:
                return
            seen.add(n.id)
            if n.op in ('mu', 'K'):
                g[next(iter(n.fm))] = n.gkey
                return
            if n.op == 'poly':
                for mm, c in n.data:
                    for a, e in mm:
                        collect(a, seen)
                return
            if n.op == 'loopval':
                lp, ex = n.loop
                collect(ex, seen); collect(lp.cont, seen)
                for m in lp.needed(ex):
                    collect(lp.mus[m][0], seen); collect(lp.mus[m][1], seen)
                return
            for a in n.args:
                collect(a, seen)
        seen = set()
        for n in [expr, loop.cont] + [x for m in need for x in loop.mus[m][:2]]:
            collect(n, seen)
        gkey = loop_digest(loop, expr, {k: v for k, v in g.items() if k in fm})
    return _intern('loopval', (), None, key=key, gkey=gkey if gkey else key, fm=fm, loop=(loop, expr))


# ---------------------------------------------------------------- traversal
def children(n):
    if n.op == 'poly':
        return [a for mono, c in n.data for a, e in mono]
    if n.op == 'loopval':
        loop, expr = n.loop
        out = [expr, loop.cont]
        for m in loop.needed(expr):
            out.append(loop.mus[m][0])
            out.append(loop.mus[m][1])
        return out
    return list(n.args)


def walk(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if d > 12:
        return '...'
    op = n.op
    if op == 'num':
        f = n.data
        if f.denominator == 1:
            return str(f.numerator)
        v = float(f)
        return repr(v) if Fraction(repr(v)) == f else '%d/%d' % (f.numerator, f.denominator)
    if op in ('true', 'false', 'none'):
        return {'true': 'True', 'false': 'False', 'none': 'None'}[op]
    if op == 'const':
        return n.data
    if op == 'str':
        return repr(n.data)
    if op == 'sym':
        return str(n.data)
    if op == 'mu':
        return '%s@loop' % (n.data[1],)
    if op == 'K':
        return 'iter%d' % n.data
    if op == 'attr':
        return '%s.%s' % (show(n.args[0], d + 1), n.data)
    if op == 'getitem':
        return '%s[%s]' % (show(n.args[0], d + 1), show(n.args[1], d + 1))
    if op == 'poly':
        ts = []
        for m, c in n.data:
            fs = []
            for a, e in m:
                s = show(a, d + 1)
                if e != 1:
                    s += '**%s' % (e if e.denominator == 1 else '(%s)' % e)
                fs.append(s)
            if c != 1 or not fs:
                fs.insert(0, show(num(c)))
            ts.append('*'.join(fs))
        return '(' + ' + '.join(ts) + ')'
    if op == 'sumatom':
        return show(n.args[0], d + 1)
    if op == 'lt0':
        return '(%s < 0)' % show(n.args[0], d + 1)
    if op == 'eq0':
        return '(%s == 0)' % show(n.args[0], d + 1)
    if op == 'ite':
        return 'if{%s: %s; else: %s}' % tuple(show(a, d + 1) for a in n.args)
    if op == 'loopval':
        return 'loop{%s}' % show(n.loop[1], d + 3)
    if op == 'list':
        return '[' + ', '.join(show(a, d + 1) for a in n.args) + ']'
    if op == 'slice':
        return ':'.join('' if a is NONE else show(a, d + 1) for a in n.args)
    nm = op if n.data is None else '%s<%s>' % (op, n.data)
    if op == 'call':
        nm = str(n.data)
    return '%s(%s)' % (nm, ', '.join(show(a, d + 1) for a in n.args))


init_consts()
