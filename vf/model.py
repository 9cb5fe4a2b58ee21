"""Interpretations of value terms.

Used for one purpose only: a mismatch between two normal forms is reported as a
difference only if some interpretation of the uninterpreted inputs and library
operations tells the two terms apart.  (Normal forms are not complete, so a
mismatch alone is not evidence.)  No package code runs here: every library
operation, callback and array is an uninterpreted function of its arguments.
"""
import hashlib
import math
from . import ops, terms as T

SIG = 9
MAXIT = 5
LONG = 30
LANE = 1000000
WHOLE = ('isnone', 'isinst', 'dim', 'size', 'ndim')

INT_NAMES = {
    'ntry', 'nsimu', 'adaptint', 'burnintime', 'lastadapt', 'npar', 'nsos', 'nbatch', 'verbosity', 'iiadapt', 'isimu',
    'chainind', 'savesize', 'printint', 'itry', 'stage', 'iq', 'nsample', 'num_chain', 'num_cores', 'ndatabatches',
    'nchain', 'nds', 'nn', 'updatesigma', 'waitbar', 'doram', 'stats', 'N', 'n', 'nu', 'nw', 'start', 'end', 'ii',
    'savecount', 'lastbin', 'chain_index', '_MCMC__chain_index', 'noadapttmp', 'maxlag', 'last_index_since_adaptation',
    '_last_index_since_adaptation', 'nblocks', 'iters', 'skip', 'count', 'id', 'use_previous_results', 'sstype', 'isimu',
    'ntypes', 'np', 'ns1', 'ns2', 'numpar', 'batch', 'M', 'nugrid', 'burnin', 'dt', 'maxpoints',
}


def _d(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def family(t):
    """the place a value is read from, whatever the position in a collection"""
    if t.op != 'getitem':
        return t
    return (family(t.args[0]), t.args[1] if t.args[1].op == 'str' else '*')


class Undef(Exception):
    pass


class Budget(Exception):
    """an interpretation takes too many steps"""


class Tok:
    __slots__ = ('d', 'val')

    def __init__(self, d, val=None):
        self.d, self.val = d, val

    def __repr__(self):
        return '~' + self.d.hex()[:6]

    def __eq__(self, o):
        return isinstance(o, Tok) and o.d == self.d

    def __hash__(self):
        return hash(self.d)


def canon(v):
    if v is True or v is False or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if v != v:
                return 'nan#'
            if v in (float('inf'), float('-inf')):
                return 'inf#%s' % v
            if abs(v) < 1e-9:
                return 0
            r = float('%.*g' % (SIG, v))
            return int(r) if r == int(r) and abs(r) < 1e9 else r
        return v
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, Tok) and v.val is not None:
        return canon(v.val)
    return v


def label(n):
    op = n.op
    if op in ('sym', 'attr', 'mcall', 'call', 'const'):
        return str(n.data)
    if op == 'app':
        return 'app'
    if op == 'getitem':
        i = n.args[1]
        if i.op == 'str':
            return i.data
        return label(n.args[0]) + '[]'
    if op in ('npb', 'typed'):
        return label(n.args[0])
    if op == 'loopval':
        return label(n.loop[1])
    if op == 'mu':
        return str(n.data[1])
    return op


def infinite(at):
    """the infinity in a comparison of one quantity with it"""
    if len(at) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in at):
        for m in at:
            if m[0][0].op == 'const' and m[0][0].data == 'inf':
                return m[0][0]
    return None


class Domains:
    """candidate values per label, from the constants the two terms compare against"""

    def __init__(self, roots):
        self.none = set()
        self.strs = {}
        self.nums = {}
        self.boolish = set()
        self.exc = set()
        self.nocolumns = False
        for r in roots:
            for n in T.walk(r):
                if n.op == 'raises':
                    self.exc.add(n.data)
                elif n.op == 'isnone':
                    self.none.add(label(n.args[0]))
                elif n.op == 'eq':
                    a, b = n.args
                    for x, y in ((a, b), (b, a)):
                        if y.op == 'str':
                            self.strs.setdefault(label(x), set()).add(y.data)
                        elif y.op == 'list':
                            for e in y.args:
                                if e.op == 'str':
                                    self.strs.setdefault(label(x), set()).add(e.data)
                elif n.op in ('min', 'max') and 1 < len(n.args) < 5:
                    for i, a in enumerate(n.args):
                        for b in n.args[:i]:
                            self.threshold(T.sub(a, b))
                elif n.op in ('eq0', 'lt0'):
                    q = n.args[0]
                    it = T.poly_items(q)
                    at = [m for m in it if m != ()]
                    if self.threshold(q):
                        pass
                    elif infinite(at):
                        a = [m for m in at if m[0][0] is not infinite(at)][0][0][0]
                        self.nums.setdefault(label(a), set()).update((float('inf'), float('-inf'), 0.0))
                    elif len(at) == 2 and n.op == 'eq0':
                        for m in at:
                            for a, e in m:
                                self.nums.setdefault(label(a), set()).update((0.0, 1.0, 2.0))

    def threshold(self, q):
        """the value at which q = c + k*atom changes its sign"""
        v = None
        for _ in range(4):
            it = T.poly_items(q)
            at = [m for m in it if m != ()]
            if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1:
                return False
            v = -it.get((), 0) / it[at[0]]
            a = at[0][0][0]
            self.nums.setdefault(label(a), set()).add(float(v))
            if a.op == 'dim' and a.data and v == 0:
                self.nocolumns = True
            if a.op not in ('floor', 'ceil', 'trunc', 'fix', 'int', 'round') or len(a.args) != 1:
                return True
            q = T.sub(a.args[0], T.num(v))
        return True


class Interp:
    def __init__(self, seed, dom, prefer=frozenset(), bsum=0, budget=400000):
        self.prefer = prefer
        self.byzero = []                # divisions by zero met
        self.bsum = bsum
        self.long = seed % 16 == 5      # a few interpretations with longer loops
        self.budget = 100000 if self.long else budget
        self.trunc = False
        self.cutoff = set()     # the loops left early
        self.seed = seed
        self.dom = dom
        self.memo = {}
        self.sizes = {}
        self.frames = []         # (ownset, env, memo)
        self.steps = 0
        self.lane = None
        self.parent = None
        self.few = self.tok('names')

    # ---------------------------------------------------------------- choices
    def rnd(self, tok, salt=''):
        return int.from_bytes(_d((self.seed, salt, tok)), 'big')

    def pick(self, lab, tok):
        v = self.pick1(lab, tok)
        if lab.split('.')[-1] in ('ntry', 'npar') and v is not None:
            return max(1, v)                    # there is at least one try, and one parameter
        return v

    def pick1(self, lab, tok):
        """value of an uninterpreted scalar with this label"""
        r = self.rnd(tok)
        d = self.dom
        opts = []
        if lab in d.none and r % 3 == 0:
            return None
        r //= 3
        if lab in d.strs:
            o = sorted(d.strs[lab])
            if lab not in d.nums or r % 2:
                r //= 2
                k = r % (len(o) + 1)
                return o[k] if k < len(o) else 'zz%d' % (r % 7)
        r //= 2
        isint = lab in INT_NAMES or lab.split('.')[-1] in INT_NAMES
        cand = d.nums.get(lab)
        if isint and cand:
            cand = {c for c in cand if abs(c) != float('inf')}
        if isint:
            if cand and r % 2:
                r //= 2
                c = sorted(cand)
                return int(c[r % len(c)]) + (r // len(c)) % 3 - 1
            if self.seed % 8 == 7:
                return (r // 2) % 97
            if self.long and r % 3 == 0:
                return 5 + (r // 6) % 20
            return (r // 2) % 5
        if cand and (r % 3 or self.seed % 3 == 0):
            r //= 3
            c = sorted(cand)
            v = c[r % len(c)]
            w = (r // len(c)) % 6
            if abs(v) == float('inf'):
                return v
            if w < 3 or self.seed % 3 == 0:
                return int(v) if v == int(v) else v
            return v + (w - 4) * 0.4375 + ((r // 6) % 5) * 0.0625
        return self.real(tok)

    def real(self, tok):
        r = self.rnd(tok, 'real')
        if self.seed % 3 == 0 and not (isinstance(tok, tuple) and 'draw' in tok):
            return (1, 2, 3, -1)[r % 4]        # ties between inputs
        v = 0.3 + (r % 100003) / 100003.0 * 2.2
        if self.seed % 4 == 3:
            v *= 61                             # large enough for integer parts to matter
        return -v if (r >> 40) % 4 == 0 else v

    def num(self, v):
        if v is True:
            return 1
        if v is False:
            return 0
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, tuple) and v and v[0] == 'Z':
            return 0
        if isinstance(v, Tok):
            return v.val
        return self.real(('num', canon(v)))

    def tok(self, *parts):
        d = _d(canon(tuple(parts)))
        return Tok(d, self.real(d))

    def tbool(self, *parts):
        return self.rnd(canon(tuple(parts)), 'b') % 2 == 0

    # ---------------------------------------------------------------- evaluation
    def ev(self, n):
        m = self.memo
        if n.fm:
            for own, env, mm in reversed(self.frames):
                if not own.isdisjoint(n.fm):
                    m = mm
                    break
        k = n.id
        if k in m:
            return m[k]
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        v = self.ev1(n)
        if isinstance(v, tuple) and self.size(v) > 4000:
            self.trunc = True
            v = self.tok('large', v)
        m[k] = v
        return v

    def size(self, v):
        s = self.sizes.get(id(v))
        if s is None:
            t = 1
            for x in v:
                if isinstance(x, tuple):
                    t += self.size(x)
            s = (t, v)              # keeps v alive, so that its id stays its own
            self.sizes[id(v)] = s
        return s[0]

    def ev1(self, n):
        op = n.op
        if op == 'num':
            f = n.data
            return int(f) if f.denominator == 1 else float(f)
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'none':
            return None
        if op == 'str':
            return n.data
        if op == 'const':
            if n.data == 'inf':
                return float('inf')
            if n.data == 'pi':
                return math.pi
            if n.data == 'undef':
                raise Undef()
            return self.tok('const', n.data)
        if op == 'sym':
            v = self.atom(n, ('sym', n.data))
            if n.data == 'names' and isinstance(v, (int, float, Tok)):
                return self.few                 # a list, with no more names than there are columns
            return v
        if op in ('mu', 'K'):
            f = next(iter(n.fm))
            for own, env, mm in reversed(self.frames):
                if f in env:
                    return env[f]
            return self.tok('free', n.op)
        if op == 'ite':
            c = self.ev(n.args[0])
            return self.ev(n.args[1] if self.truth(c) else n.args[2])
        if op == 'poly':
            tot = 0
            for m, c in n.data:
                t = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    x = self.num(self.ev(a))
                    t = self.mulp(t, x, e)
                tot = self.addp(tot, t)
            return tot
        if op in ('sumatom', 'numatom', 'npb', 'typed'):
            return self.ev(n.args[0])
        if op == 'loopval':
            return self.loop(n)
        p = self.parent
        if p is not None and op in WHOLE and len(p.frames) == len(self.frames):
            return p.ev(n)              # the same for every element
        f = getattr(self, 'e_' + op, None)
        if f is not None:
            return f(n)
        vals = [self.ev(a) for a in n.args]
        if op in T.BOOL_OPS or n.isb:
            return self.tbool(op, n.data, *vals)
        return self.atom(n, (op, self.cdata(n), *vals))

    def cdata(self, n):
        d = n.data
        if isinstance(d, tuple) and d and isinstance(d[0], T.Node):
            return tuple(x.key for x in d)
        return d if not callable(d) else repr(d)

    def atom(self, n, tok, lab=None):
        t = canon(tok)
        lab = lab or label(n)
        dm = self.dom
        if n.op != 'draw' and (lab in dm.none or lab in dm.strs or lab in dm.nums or lab in INT_NAMES):
            return self.pick(lab, t)
        d = _d(t)
        return Tok(d, self.real(('draw', d) if n.op == 'draw' else d))

    def mulp(self, t, x, e):
        try:
            if e == 1:
                return t * x
            if x == 0 and e < 0:
                x = 0.00137         # some number: 1/0 is the same wherever it occurs
                self.byzero.append(1)
            if e.denominator == 1:
                return t * (x ** int(e))
            if x < 0:
                x = -x              # multiplicative, like the power of a positive number
            return t * x ** float(e)
        except (ZeroDivisionError, OverflowError):
            return self.real(('mulp', canon(t), canon(x), str(e)))

    def addp(self, a, b):
        return a + b

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return abs(v) > 1e-9
        if isinstance(v, str):
            return v != ''
        if isinstance(v, tuple) and v and v[0] in ('L', 'D'):
            return len(v) > 1
        return self.tbool('truth', v)

    def vs_inf(self, q):
        """(value, infinity) for a comparison with an infinity"""
        if q.op != 'poly':
            return None
        it = T.poly_items(q)
        at = [m for m in it if m != ()]
        inf = infinite(at)
        if inf is None:
            return None
        a, b = (at[0], at[1]) if at[1][0][0] is inf else (at[1], at[0])
        v = self.num(self.ev(a[0][0])) * float(it[a])
        return v, -float(it[b]) * float('inf')

    def e_lt0(self, n):
        q = n.args[0]
        p = self.vs_inf(q)
        if p:
            return p[0] < p[1]
        return self.num(self.ev(q)) < -1e-9

    def e_eq0(self, n):
        p = self.vs_inf(n.args[0])
        if p:
            return p[0] == p[1]
        v = self.ev(n.args[0])
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return abs(v) < 1e-9
        if v is None:
            return True
        return not self.truth(v)

    def e_eq(self, n):
        a, b = canon(self.ev(n.args[0])), canon(self.ev(n.args[1]))
        if isinstance(a, bool) != isinstance(b, bool) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            a, b = int(a), int(b)
        return a == b and type(a) == type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)

    def e_isnone(self, n):
        return self.ev(n.args[0]) is None

    def e_isinst(self, n):
        v = self.ev(n.args[0])
        d = str(n.data)
        if v is None:
            return False
        if isinstance(v, str):
            return 'str' in d
        if isinstance(v, tuple) and v and v[0] == 'L':
            return 'list' in d or 'tuple' in d
        if isinstance(v, tuple) and v and v[0] == 'D':
            return 'dict' in d
        if isinstance(v, tuple) and v and v[0] == 'Z':
            return 'ndarray' in d
        # a value has one type
        kinds = ('np.ndarray', 'list', 'dict', 'int', 'float', 'str')
        k = (kinds + (None,))[self.rnd(canon(('type', v)), 'type') % (len(kinds) + 1)]
        if d in kinds:
            return d == k
        if k in ('np.ndarray', 'list', 'dict', 'str'):
            return False
        return self.tbool('isinst', d, v, *[self.ev(a) for a in n.args[1:]])

    def e_in(self, n):
        k, d = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(d, tuple) and d and d[0] == 'L':
            return canon(k) in [canon(x) for x in d[1:]]
        if isinstance(d, tuple) and d and d[0] == 'D':
            return canon(k) in [canon(x[0]) for x in d[1:]]
        if isinstance(d, str) and isinstance(k, str):
            return k in d
        if isinstance(d, tuple) and d and d[0] == 'U' and isinstance(k, str):
            while isinstance(d, tuple) and d[0] == 'U':
                if canon(d[2]) == k:
                    return True
                d = d[1]
        return self.tbool('in', k, d)

    def e_any(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, bool):
            if v or self.seed % 2 == 0 or self.seed >= LANE:
                return v
            # arrays have more than one element: look at a second one
            L = self.lane
            if L is None:
                L = self.lane = Interp(self.seed + LANE, self.dom, self.prefer, self.bsum, self.budget)
                L.byzero = self.byzero
            L.frames = [(own, env, {}) for own, env, mm in self.frames]
            L.memo = {}
            L.parent = self
            try:
                return L.truth(L.ev(n.args[0]))
            except Undef:
                return v
        return self.tbool('any', v)

    def e_bool(self, n):
        return self.truth(self.ev(n.args[0]))

    e_istrue = e_bool

    def e_min(self, n):
        return min(self.num(self.ev(a)) for a in n.args)

    def e_max(self, n):
        return max(self.num(self.ev(a)) for a in n.args)

    def un(self, n, f):
        x = self.ev(n.args[0])
        try:
            return f(self.num(x))
        except (ValueError, OverflowError):
            return self.real((n.op, canon(x)))

    def e_log(self, n):
        return self.un(n, lambda x: math.log(abs(x)))

    def e_exp(self, n):
        return self.un(n, math.exp)

    def e_abs(self, n):
        return self.un(n, abs)

    def e_floor(self, n):
        return self.un(n, math.floor)

    def e_ceil(self, n):
        return self.un(n, math.ceil)

    def e_int(self, n):
        return self.un(n, int)

    def e_round(self, n):
        if len(n.args) > 1:
            return self.tok('round', *[self.ev(a) for a in n.args])
        return self.un(n, round)

    def e_pow(self, n):
        a, b = self.num(self.ev(n.args[0])), self.num(self.ev(n.args[1]))
        try:
            r = a ** b
            if isinstance(r, complex):
                r = abs(a) ** b
            return r
        except (ZeroDivisionError, OverflowError, ValueError):
            return self.real(('pow', canon(a), canon(b)))

    def e_sum(self, n):
        """additive over monomials, otherwise uninterpreted"""
        q = n.args[0]
        ax = self.bsum if n.data == 'b' else n.data
        if q.op != 'poly':
            v = self.ev(q)
            if isinstance(v, bool):
                return self.tok('bsum', ax, v)
            if ax == 0 and isinstance(v, tuple) and v and v[0] == 'L':
                if all(isinstance(x, (int, float, Tok)) or isinstance(x, tuple) and x and x[0] == 'Z' for x in v[1:]):
                    tot = 0
                    for x in v[1:]:             # one after the other
                        tot = self.addp(tot, self.num(x))
                    return tot
            return self.real(('sum', ax, canon(v)))
        tot = 0
        for m, c in q.data:
            t = 1
            for a, e in m:
                t = self.mulp(t, self.num(self.ev(a)), e)
            tot += float(c) * self.real(('sum', ax, canon(t)))
        return tot

    def e_mod(self, n):
        a, b = self.num(self.ev(n.args[0])), self.num(self.ev(n.args[1]))
        try:
            return a % b
        except ZeroDivisionError:
            return self.real(('mod', canon(a)))

    def e_list(self, n):
        return ('L',) + tuple(self.ev(a) for a in n.args)

    def e_dict(self, n):
        ks = [self.ev(k) if isinstance(k, T.Node) else k for k in n.data]
        return ('D',) + tuple((k, self.ev(v)) for k, v in zip(ks, n.args))

    def e_rec(self, n):
        cls, names = n.data
        return ('R', cls) + tuple((nm, self.ev(v)) for nm, v in zip(names, n.args))

    def e_with(self, n):
        b = self.ev(n.args[0])
        prs = {nm: self.ev(v) for nm, v in zip(n.data, n.args[1:])}
        if isinstance(b, tuple) and b and b[0] == 'R':
            d = dict(b[2:])
            d.update(prs)
            return ('R', b[1]) + tuple(sorted(d.items(), key=lambda x: x[0]))
        if isinstance(b, tuple) and b and b[0] == 'W':
            d = dict(b[2:])
            d.update(prs)
            return ('W', b[1]) + tuple(sorted(d.items(), key=lambda x: x[0]))
        return ('W', b) + tuple(sorted(prs.items(), key=lambda x: x[0]))

    def e_attr(self, n):
        b = self.ev(n.args[0])
        if isinstance(b, tuple) and b and b[0] in ('R', 'W'):
            for nm, v in b[2:]:
                if nm == n.data:
                    return v
            if b[0] == 'W':
                b = b[1]
        if isinstance(b, tuple) and b and b[0] == 'DC':
            b = b[1]
            if isinstance(b, tuple) and b and b[0] in ('R', 'W'):
                for nm, v in b[2:]:
                    if nm == n.data:
                        return v
                if b[0] == 'W':
                    b = b[1]
        return self.atom(n, ('attr', n.data, b))

    def e_cat(self, n):
        out = []
        for a in n.args:
            v = self.ev(a)
            if isinstance(v, bool) or v is None:
                v = str(v)
            elif isinstance(v, (int, float)):
                c = canon(v)
                v = str(c)
            if isinstance(v, tuple) and v and v[0] == 'cat':
                out.extend(v[1:])
            else:
                out.append(v)
        res = []
        for v in out:
            if isinstance(v, str) and res and isinstance(res[-1], str):
                res[-1] += v
            else:
                res.append(v)
        if len(res) == 1 and isinstance(res[0], str):
            return res[0]
        return ('cat',) + tuple(res)

    def e_append(self, n):
        b, v = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(b, tuple) and b and b[0] == 'L':
            return b + (v,)
        return ('app', b, v)

    def e_lconcat(self, n):
        b, v = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(b, tuple) and isinstance(v, tuple) and b[0] == 'L' and v[0] == 'L':
            return b + v[1:]
        if isinstance(v, tuple) and v[0] == 'L':
            for x in v[1:]:
                b = ('app', b, x)
            return b
        return ('lcat', b, v)

    def e_ziplen(self, n):
        """sequences zipped together are taken to be of one length, the one the reference counts to"""
        for a in n.args:
            if a.op == 'atmost' and a.args[0].key in self.prefer:
                return self.ev(a.args[0])
        bounds = [self.num(self.ev(a.args[0])) for a in n.args if a.op == 'atmost']
        for a in n.args:
            if a.key in self.prefer:
                return min([self.num(self.ev(a))] + bounds)
        return min([self.num(self.ev(a)) for a in n.args if a.op != 'atmost'] + bounds)

    def e_zeros(self, n):
        return ('Z', self.cdata(n)) + tuple(self.ev(a) for a in n.args)

    def e_call(self, n):
        vals = [self.ev(a) for a in n.args]
        if n.data == 'np.repmat' and len(vals) == 3 and vals[2] == 1:
            return vals[0]          # rows of copies: broadcasting
        if n.isb:
            return self.tbool('call', n.data, *vals)
        return self.atom(n, ('call', self.cdata(n), *vals))

    def e_raises(self, n):
        """a call raises at most one exception"""
        vals = [self.ev(a) for a in n.args]
        if n.data == 'fn':
            return self.tbool('raises', n.data, *vals)
        from .interp import EXC_PARENTS
        kinds = sorted(x for x in self.dom.exc if x not in ('fn', 'Exception', 'BaseException')) + ['Other']
        r = self.rnd(canon(('raises', *vals)), 'exc')
        if r % 8 > 2:
            return False
        k = kinds[(r // 8) % len(kinds)]
        while k is not None:
            if k == n.data:
                return True
            k = EXC_PARENTS.get(k)
        return n.data in ('Exception', 'BaseException')

    def e_slice(self, n):
        a, b, c = n.args
        if b.op == 'dim' and c is T.NONE:         # x[a:n] where n is a length: up to the end
            b = T.NONE
        return ('S',) + tuple(self.ev(x) for x in (a, b, c))

    def e_range(self, n):
        a, b, s = [self.ev(x) for x in n.args]
        if all(isinstance(x, int) and not isinstance(x, bool) for x in (a, b, s)) and s and abs(b - a) < 30 * (abs(s) if self.long else 1):
            return ('L',) + tuple(range(a, b, s))
        return ('range', a, b, s)

    def e_upd(self, n):
        return self.upd(self.ev(n.args[0]), self.ev(n.args[1]), self.ev(n.args[2]))

    def upd(self, b, i, v):
        if isinstance(b, tuple) and b:
            if b[0] == 'L' and isinstance(i, int) and not isinstance(i, bool) and -len(b) < i < len(b) - 1:
                x = list(b)
                x[1 + i if i >= 0 else i] = v
                return tuple(x)
            if b[0] == 'D' and isinstance(i, str):
                d = dict(b[1:])
                d[i] = v
                return ('D',) + tuple(sorted(d.items(), key=lambda x: repr(x[0])))
            if b[0] == 'U':
                c1, c2 = canon(b[2]), canon(i)
                if c1 == c2:
                    return ('U', b[1], i, v)
                if type(c1) == type(c2) and isinstance(c1, (int, str)) and repr(c1) > repr(c2):
                    return ('U', self.upd(b[1], i, v), b[2], b[3])
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 0 and isinstance(i, int) and self.gi0(b, i):
            return b                            # zero already
        return ('U', b, i, v)

    def gi0(self, b, i):
        while isinstance(b, tuple) and b and b[0] == 'U' and isinstance(b[2], int) and b[2] != i and b[2] >= 0:
            b = b[1]
        return isinstance(b, tuple) and len(b) == 3 and b[0] == 'Z' and b[1] is None and isinstance(b[2], int) and 0 <= i < b[2]

    def index(self, n):
        """value of the index of a getitem; up to the length of a sibling (pres[0]['chain'] for
        pres[1]['chain']) is not up to the end: the elements of one collection differ in length"""
        base, idx = n.args

        def one(s, ax):
            if s.op != 'slice' or s.args[1].op != 'dim' or s.args[2] is not T.NONE:
                return self.ev(s)
            o = s.args[1].args[0]
            if o is base or o.op != 'getitem' or family(o) != family(base):
                return self.ev(s)
            a, e = self.ev(s.args[0]), self.ev(s.args[1])
            return ('S', a, None if isinstance(e, int) and e >= self.dim(self.ev(base), ax) else e, None)
        if idx.op == 'slice':
            return one(idx, 0)
        if idx.op == 'list' and any(x.op == 'slice' for x in idx.args):
            return ('L',) + tuple(one(x, ax) for ax, x in enumerate(idx.args))
        return self.ev(idx)

    def e_getitem(self, n):
        b, i = self.ev(n.args[0]), self.index(n)
        if n.args[0].op == 'npsort' and isinstance(i, int) and self.ev(ops.dim(n.args[0], 0)) == 0:
            i = 0                               # nothing there, whichever is asked for
        r = self.gi(b, i, n)
        if n.args[0].op == 'keys' and n.args[1].op in ('K', 'num', 'poly') and not (isinstance(b, tuple) and b and b[0] == 'L'):
            # names, no two the same
            if not isinstance(r, str) or isinstance(i, int) and r in [self.gi(b, j, n) for j in range(min(i, 12))]:
                return 'key%d' % (self.rnd(canon(('key', b, i))) % 10 ** 6)
        return r

    def gi(self, b, i, n):
        if isinstance(b, tuple) and b and b[0] == 'DC':
            b = b[1]
        if isinstance(i, float) and i == i and abs(i) != float('inf') and i == int(i):
            i = int(i)
        if isinstance(b, tuple) and b:
            if b[0] == 'L':
                if isinstance(i, int) and not isinstance(i, bool):
                    if -len(b) < i < len(b) - 1:
                        return b[1 + i if i >= 0 else i]
                if isinstance(i, tuple) and i[0] == 'S' and all(x is None or isinstance(x, int) for x in i[1:]) and i[3] != 0:
                    return ('L',) + b[1:][slice(*i[1:])]
                if isinstance(i, tuple) and i[0] == 'L' and len(i) > 1 and isinstance(i[1], int) and \
                        not isinstance(i[1], bool) and -len(b) < i[1] < len(b) - 1:
                    e = b[1 + i[1] if i[1] >= 0 else i[1]]
                    return self.gi(e, i[2] if len(i) == 3 else ('L',) + i[2:], n)
            if b[0] == 'D':
                for k, v in b[1:]:
                    if canon(k) == canon(i):
                        return v
            if b[0] == 'U':
                c1, c2 = canon(b[2]), canon(i)
                if c1 == c2:
                    return b[3]
                if type(c1) == type(c2) and isinstance(c1, (int, str)):
                    return self.gi(b[1], i, n)
                if isinstance(c1, tuple) and isinstance(c2, tuple) and len(c1) == len(c2) == 3 and c1[0] == c2[0] == 'L' and \
                        isinstance(c1[2], int) and isinstance(c2[2], int) and (isinstance(c2[1], int) or c1[2] != c2[2]) and \
                        min(c1[2], c2[2]) >= 0 and isinstance(c1[1], tuple) and c1[1][0] == 'S' and all(q is None for q in c1[1][1:]):
                    if c1[2] == c2[2] and isinstance(b[3], (int, float)):
                        return self.atom(n, ('gi', b[3], i[1]), 'poly[]')       # an element of a column
                    return self.gi(b[3], i[1], n) if c1[2] == c2[2] else self.gi(b[1], i, n)
            if b[0] == 'app':
                if i == -1:
                    return b[2]
            if b[0] == 'Z' and isinstance(i, int):
                return 0
        return self.atom(n, ('gi', b, i))

    def e_dim(self, n):
        x = n.args[0]
        if n.data == 0 and x.op == 'getitem' and x.args[1].op == 'slice':
            i = self.ev(x.args[1])[1:]
            if all(q is None or (isinstance(q, int) and not isinstance(q, bool)) for q in i) and i[2] != 0:
                b = self.ev(x.args[0])
                if not (isinstance(b, tuple) and b and b[0] == 'Z'):
                    return len(range(*slice(*i).indices(max(0, self.dim(b, 0)))))
        return self.dim(self.ev(n.args[0]), n.data)

    def dim(self, v, i):
        if isinstance(v, tuple) and v:
            if v[0] == 'L':
                if i == 0:
                    return len(v) - 1
                if len(v) > 1:
                    return self.dim(v[1], i - 1)
            if v[0] == 'D' and i == 0:
                return len(v) - 1
            if v[0] == 'Z' and len(v) == 3:
                s = v[2]
                if isinstance(s, tuple) and s and s[0] == 'L' and i < len(s) - 1 and isinstance(s[1 + i], int):
                    return s[1 + i]
                if i == 0 and isinstance(s, int):
                    return s
            if v[0] == 'U' and not isinstance(v[2], str):
                return self.dim(v[1], i)
            if v[0] == 'app' and i == 0:
                return self.dim(v[1], 0) + 1
            if v[0] == 'lcat' and i == 0:
                return self.dim(v[1], 0) + self.dim(v[2], 0)
        if isinstance(v, str) and i == 0:
            return len(v)
        if i == 0 and (v is False or isinstance(v, (int, float)) and v == 0):
            return 0                            # what is falsy is empty
        r = self.rnd(canon(('dim', i, v)), 'dim')
        c = self.dom.nums.get('dim') or self.dom.nums.get('size')
        least = 1 if i and not self.dom.nocolumns else 0        # tables have columns, unless the code asks
        if c and r % 3 == 0:
            c = sorted(c)
            r = max(least, int(c[(r // 3) % len(c)]) + (r // 64) % 3 - 1)
            return min(r, 1) if i == 0 and v is self.few else r
        if i == 0 and v is self.few:
            return (r // 3) % 2
        return max(least, (0, 1, 1, 2, 2, 3, 3)[(r // 3) % 7])

    def e_size(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, tuple) and v and v[0] == 'U':
            v = v[1]
        r = self.dim(v, 0)
        nd = self.ndim(v)
        return 1 if nd == 0 else r if nd == 1 else r * self.dim(v, 1) * (1 if nd == 2 else self.dim(v, 2))

    def e_ndim(self, n):
        return self.ndim(self.ev(n.args[0]))

    def ndim(self, v):
        return (1, 2, 1, 2, 1, 2, 1, 2, 0, 3)[self.rnd(canon(('ndim', v)), 'nd') % 10]

    def e_deepcopy(self, n):
        v = self.ev(n.args[0])          # an object of its own, with the same contents
        if v is None or isinstance(v, (bool, int, float)) or isinstance(v, tuple) and v and v[0] in ('L', 'D', 'DC'):
            return v
        return ('DC', v)

    def e_chan(self, n):
        return ('C', n.data)

    def e_ev(self, n):
        b = self.ev(n.args[0])
        e = _d(canon(tuple(self.ev(a) for a in n.args[1:])))
        if isinstance(b, tuple) and b and b[0] == 'C':
            return b + (e,)
        return ('C', 'x', canon(b), e)

    def e_sorted(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, tuple) and v and v[0] == 'L' and len(n.args) == 1:
            return ('L',) + tuple(sorted(v[1:], key=lambda x: repr(canon(x))))
        return self.tok('sorted', n.data, *[self.ev(a) for a in n.args])

    def e_keys(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, tuple) and v and v[0] == 'D':
            return ('L',) + tuple(k for k, _ in v[1:])
        return self.tok('keys', v)

    def e_delkey(self, n):
        v, k = self.ev(n.args[0]), self.ev(n.args[1])
        if isinstance(v, tuple) and v and v[0] == 'D':
            return ('D',) + tuple((a, b) for a, b in v[1:] if canon(a) != canon(k))
        return self.tok('delkey', v, k)

    # ---------------------------------------------------------------- loops
    def loop(self, n):
        lp, expr = n.loop
        key = ('loop', id(lp))
        m = self.memo
        fm = n.fm
        # loops may depend on outer frames even when this expr does not
        outer = set()
        for x in [lp.cont] + [a for v in lp.mus.values() for a in v[:2]]:
            outer |= x.fm
        for own, env, mm in reversed(self.frames):
            if not own.isdisjoint(outer):
                m = mm
                break
        fr = m.get(key)
        if fr is None:
            fr = self.run(lp)
            m[key] = fr
        self.frames.append(fr)
        try:
            return self.ev(expr)
        finally:
            self.frames.pop()

    def run(self, lp):
        own = frozenset(lp.muset) | {('K', lp.depth)}
        env = {}
        for mu, (init, nxt, name) in lp.mus.items():
            try:
                env[next(iter(mu.fm))] = self.ev(init)
            except Undef:
                env[next(iter(mu.fm))] = self.tok('unbound')
        env[('K', lp.depth)] = 0
        fr = (own, env, {})
        for it in range(LONG if self.long else MAXIT):
            self.frames.append(fr)
            try:
                if not self.truth(self.ev(lp.cont)):
                    return fr
                new = {}
                for mu, (init, nxt, name) in lp.mus.items():
                    try:
                        new[next(iter(mu.fm))] = self.ev(nxt)
                    except Undef:
                        new[next(iter(mu.fm))] = self.tok('unbound')
                new[('K', lp.depth)] = it + 1
            finally:
                self.frames.pop()
            fr = (own, new, {})
        self.frames.append(fr)
        try:
            if self.truth(self.ev(lp.cont)):
                self.trunc = True       # more iterations than are looked at
                self.cutoff.add(lp.cont.key)
        finally:
            self.frames.pop()
        return fr


def result(v, chan=None):
    """comparable form of an observable"""
    if isinstance(v, tuple) and v and v[0] == 'C' and chan != 'rng':
        return ('C',) + tuple(sorted(x if isinstance(x, bytes) else repr(x).encode() for x in v[1:]))
    return canon(v)
