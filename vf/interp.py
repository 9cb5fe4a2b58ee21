"""Abstract interpretation of package functions into value terms.

The abstract domain is the term algebra of vf.terms: a variable, an attribute,
an array/list/dict content, the random stream, the file system and every
user callback are each mapped to a term over the function's inputs.  Control
flow joins are decision diagrams, loops are closed as recurrences; there is no
path enumeration and no solver.
"""
import ast
import builtins
from fractions import Fraction
from . import terms as T
from . import ops as O
from .terms import mk, num, string, TRUE, FALSE, NONE, ite, and_, or_, not_, truth, eq, lt, le, is_bool, TooComplex
from .program import Fn, Cls, MUTATORS, canon_ext

UNDEF = mk('const', data='undef')
MAX_STEPS = 400000
UNROLL = 20


class Unsupported(Exception):
    pass


KEEPID = {'ref', 'none', 'str', 'num', 'true', 'false', 'fun', 'bound', 'sym', 'attr', 'getitem', 'const'}

# names under which the package (and its documentation) passes numpy arrays: `x += 1` changes the array itself
ARRAYS = set('''x y u w theta chain chains s2chain sschain R RDR invR qcov covchain meanchain oldcovchain oldmeanchain testchain
    tests2chain oldpar newpar old_theta xdata ydata thetamu thetasigma thetasig value lower_limits upper_limits low_lim upp_lim
    initial_values initial_value ypred ysave osave cmat xcov oldcov oldmean oldR ss ss1 ss2 sigma2 sos parind local no_adapt
    _value _initial_value _lower_limits _upper_limits _thetamu _thetasigma _parind _local _no_adapt _R _qcov _qcovorig
    _qcov_original _covchain _meanchain _invR _RDR datapredii response'''.split())


def array_place(n):
    if n.op == 'sym':
        return n.data in ARRAYS
    if n.op == 'attr':
        return n.data in ARRAYS
    if n.op == 'getitem' and n.args[1].op == 'str':
        return n.args[1].data in ARRAYS
    return False


class State:
    __slots__ = ('env', 'heap', 'chans', 'pc', 'fn')

    def __init__(self):
        self.env, self.heap, self.chans, self.pc, self.fn = {}, {}, {}, TRUE, None

    def copy(self):
        s = State()
        s.env, s.heap, s.chans, s.pc, s.fn = dict(self.env), dict(self.heap), dict(self.chans), self.pc, self.fn
        return s


EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ZeroDivisionError': 'ArithmeticError',
               'OverflowError': 'ArithmeticError', 'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError',
               'PermissionError': 'OSError', 'ModuleNotFoundError': 'ImportError', 'UnicodeDecodeError': 'ValueError',
               'JSONDecodeError': 'ValueError', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
               'LinAlgError': 'ValueError'}


def handled(h):
    """names of the exceptions a handler takes"""
    if h.type is None:
        return ['BaseException']
    out = []
    for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
        nm = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', 'Exception')
        nm = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(nm, nm)
        if nm not in out:
            out.append(nm)
    return [n for n in out if EXC_PARENTS.get(n) not in out] or ['Exception']


def takes(names, kind):
    k = kind.data if kind is not None and kind.op == 'str' else None
    if 'BaseException' in names or k is None or k == 'callee':
        return True
    if k in ('SystemExit', 'KeyboardInterrupt'):
        return k in names
    while k is not None:
        if k in names:
            return True
        k = EXC_PARENTS.get(k)
    return 'Exception' in names


class Out:
    """abrupt outcome: kind in return/break/continue/raise"""
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def isstr(n):
    return n.op in ('str', 'cat') or n.op == 'sym' and n.data == 'os.sep'


def difference(n):
    if n.op == 'ite':
        return difference(n.args[1]) or difference(n.args[2])
    return n.op == 'poly' and any(c < 0 for mono, c in n.data if mono)


def chan0(key):
    return mk('chan', data=str(key))


NOOP_EXT = {'print', 'warnings.warn', 'time.sleep', 'sys.stdout.flush', 'warnings.filterwarnings', 'np.seterr',
            'warnings.simplefilter', 'plt.tight_layout', 'plt.subplots_adjust'}
SKIP_FUNCS = {'pymcmcstat.utilities.general:message', 'pymcmcstat.utilities.progressbar:progress_bar'}


class Interp:
    def __init__(self, prog, boundaries=(), types=None, assume=None, known=None):
        self.prog = prog
        self.known = known            # attribute names that are observable (None: all)
        self.boundaries = set(boundaries)
        self.types = {}               # node -> Cls
        self.param_types = types or {}
        self.fun_table = {}
        self.oid = 0
        self.arrays = set()           # made by np.array
        self.dtypes = {}              # arrays made with an element type
        self.opaque = set()           # copies of objects of unknown shape
        self.cls_of = {}              # ref node -> Cls
        self.stack = []
        self.depth = 0
        self.steps = 0
        self.visited = set()          # functions inlined
        self.sites = 0
        self.maycalls = []            # calls that may raise, for try/except
        self.consts = {}
        self.mubase = {}              # content mu -> location
        self.warnings = []
        self.called = set()           # summarised calls
        self.inlined = set()          # call expressions that were inlined
        self.views = []
        self.loops = set()            # source loops closed as recurrences

    # ------------------------------------------------------------ allocation
    def alloc(self, st, content=None, cls=None):
        self.oid += 1
        r = T._intern('ref', (), self.oid, fm=frozenset([('r', self.oid)]))
        if cls is not None:
            self.cls_of[r] = cls
        else:
            st.heap[(r, '*')] = content
        return r

    def default(self, obj, slot):
        if obj.op == 'ref':
            return UNDEF
        if slot == '*':
            return obj
        return O.attr(obj, slot)

    # ------------------------------------------------------------ reading values
    def val(self, st, n, stop=frozenset()):
        """contents of n: references replaced by what they hold"""
        self._idx = None
        self._memo = {}
        return self._snap(st, n, 0, stop)

    _idx = None

    def _snap(self, st, n, d, stop=frozenset()):
        k = (n.id, stop)
        r = self._memo.get(k)
        if r is None:
            r = self._memo[k] = self._snap1(st, n, d, stop)
        return r

    def _snap1(self, st, n, d, stop):
        """stop: opaque objects whose override is being expanded; inside it they denote their initial value"""
        if d > 60:
            raise TooComplex('cyclic structure')
        op = n.op
        if op in ('num', 'poly', 'str', 'true', 'false', 'none', 'cat', 'const', 'fun', 'npb'):
            return n
        if n in stop:
            return n
        if op == 'bound' and n.args[0].op == 'ref' and (n.args[0] in stop or self.fun_table.get(('b', n), (0, None))[1] is not None
                                                        and self.fun_table[('b', n)][1].kind == 'classmethod'):
            r = mk('bound', mk('const', data='owner'), data=n.data)      # a method of the object itself
            f = self.fun_table.get(('b', n))
            if f is not None and f[1].kind == 'classmethod':
                self.fun_table.setdefault(('b', r), f)
            return r
        if op == 'ref':
            sp = stop | {n}
            c = st.heap.get((n, '*'))
            if c is not None:
                r = self._snap(st, c, d + 1, sp)
                if n in self.opaque:
                    if self._idx is None or d == 0:
                        self._idx = self.slots(st)
                    pairs = {a: self._snap(st, st.heap[(n, a)], d + 1, sp) for a in self._idx.get(n, ()) if a != '*' and self.seen(a)}
                    if pairs:
                        r = O.with_(r, pairs)
                return r
            names = sorted(a for (o, a) in st.heap if o is n and self.seen(a))
            cls = self.cls_of.get(n)
            return mk('rec', *[self._snap(st, st.heap[(n, a)], d + 1, sp) for a in names],
                      data=(cls.name if cls else '?', tuple(names)))
        has_r = any(f[0] == 'r' for f in n.fm)
        ov = st.heap.get((n, '*'))
        if ov is not None and ov is not n:
            return self._snap(st, ov, d + 1, stop | {n})
        if op in ('sym', 'attr', 'getitem', 'mu', 'call', 'app', 'mcall', 'loopval', 'with'):
            pairs = {}
            if self._idx is None or d == 0:
                self._idx = self.slots(st)
            for a in self._idx.get(n, ()):
                if a != '*' and self.seen(a):
                    pairs[a] = self._snap(st, st.heap[(n, a)], d + 1, stop | {n})
            if pairs:
                return O.with_(n, pairs)
        if op in ('list', 'dict', 'append', 'lconcat', 'ite', 'upd', 'rec', 'with', 'delkey', 'fillall', 'bound', 'fstate', 'zip', 'enumerate', 'reversed',
                  'items', 'keys', 'values'):
            if not has_r and not (len(st.heap) and op in ('list', 'dict', 'ite', 'rec', 'upd', 'append') and self._touches(st, n)):
                return n
            if op == 'ite':
                if is_bool(n):
                    return n
                return ite(n.args[0], self._snap(st, n.args[1], d + 1, stop), self._snap(st, n.args[2], d + 1, stop))
            args = [self._snap(st, a, d + 1, stop) for a in n.args]
            if op == 'upd':
                return O.upd(args[0], args[1], args[2])
            if op == 'append':
                return T.mk('append', *args)
            if op == 'lconcat':
                return T.lconcat(*args)
            return T._intern(op, tuple(args), n.data)
        return n

    def seen(self, a):
        """is the attribute part of the object's value? (one the reference does not know is private bookkeeping)"""
        return self.known is None or a in self.known or not isinstance(a, str)

    def slots(self, st):
        out = {}
        for (o, a) in st.heap:
            out.setdefault(o, []).append(a)
        return out

    def _touches(self, st, n, d=0):
        if d > 6:
            return True
        for a in n.args:
            if (a, '*') in st.heap:
                return True
            if a.op in ('list', 'dict', 'ite', 'rec', 'upd', 'append') and self._touches(st, a, d + 1):
                return True
            if a.op in ('sym', 'attr', 'getitem', 'mu', 'call', 'app', 'mcall'):
                if self._idx is None:
                    self._idx = self.slots(st)
                if a in self._idx:
                    return True
        return False

    def content(self, st, n):
        """shallow content (elements keep their identity)"""
        if n.op == 'ref':
            return st.heap.get((n, '*'))
        if n.op == 'ite' and not is_bool(n):
            a, b = self.content(st, n.args[1]), self.content(st, n.args[2])
            if a is None or b is None:
                return None
            return ite(n.args[0], a, b)
        ov = st.heap.get((n, '*'))
        return n if ov is None else ov

    def leaves(self, n, cond=TRUE):
        """(condition, leaf) pairs of a conditional object value"""
        if n.op == 'ite' and not is_bool(n):
            yield from self.leaves(n.args[1], and_(cond, n.args[0]))
            yield from self.leaves(n.args[2], and_(cond, not_(n.args[0])))
        else:
            yield cond, n

    # ------------------------------------------------------------ heap writes
    def put(self, st, obj, slot, v, cond=TRUE):
        old = st.heap.get((obj, slot))
        if cond is not TRUE:
            o = old if old is not None else self.default(obj, slot)
            v = ite(cond, v, o)
        st.heap[(obj, slot)] = v

    def set_attr(self, st, obj, name, v):
        for c, leaf in self.leaves(obj):
            self.put(st, leaf, name, v, c)

    def set_item(self, st, obj, idx, v):
        for c, leaf in self.leaves(obj):
            cur = self.content(st, leaf)
            if cur is None:
                cur = leaf
            w = O.to_int(self.val(st, v)) if self.dtypes.get(leaf) == 'int' else v
            self.put(st, leaf, '*', O.upd(cur, idx, w), c)

    def update_content(self, st, obj, f):
        for c, leaf in self.leaves(obj):
            cur = self.content(st, leaf)
            if cur is None:
                cur = leaf
            self.put(st, leaf, '*', f(cur), c)

    def get_attr(self, st, obj, name):
        def one(leaf):
            v = st.heap.get((leaf, name))
            if v is not None:
                return v
            if leaf.op == 'ref':
                cls = self.cls_of.get(leaf)
                if cls is not None:
                    m = cls.find(self.prog, name)
                    if m is not None:
                        return self.bound(leaf, m)
                    if name in cls.consts:
                        return self.eval_const(cls.module, cls.consts[name])
                    return UNDEF
                c = self.val(st, leaf)
                return O.attr(c, name)
            cls = self.types.get(leaf)
            if cls is not None:
                m = cls.find(self.prog, name)
                if m is not None:
                    return self.bound(leaf, m)
                r = O.attr(leaf, name)
                k = cls.attr_types.get(name)
                if k is not None and r.op == 'attr':
                    self.types[r] = k
                return r
            if leaf.op in ('rec', 'with'):
                return O.attr(leaf, name)
            ov = st.heap.get((leaf, '*'))
            if ov is not None and name in ('shape', 'size', 'ndim', 'T', '__dict__'):
                return O.attr(self.val(st, ov), name)
            if name in ('shape', 'size', 'ndim', 'T'):
                return O.attr(self.val(st, leaf), name)
            return O.attr(leaf, name)
        return self.map_leaves(obj, one)

    def map_leaves(self, n, f):
        if n.op == 'ite' and not is_bool(n):
            return ite(n.args[0], self.map_leaves(n.args[1], f), self.map_leaves(n.args[2], f))
        return f(n)

    def bound(self, recv, fn):
        b = mk('bound', recv, data=fn.full)
        self.fun_table[('b', b)] = (recv, fn)
        return b

    def fun(self, fn):
        n = mk('fun', data=fn.full if fn.closure is None else (fn.full, id(fn)))
        self.fun_table[n] = fn
        return n

    # ------------------------------------------------------------ channels (effects)
    def event(self, st, key, *args):
        cur = st.chans.get(key)
        if cur is None:
            cur = chan0(key)
        st.chans[key] = mk('ev', cur, *args, data=str(key))

    def draw(self, st, kind, shape):
        cur = st.chans.get('rng')
        if cur is None:
            cur = chan0('rng')
        sz = num(1)
        if shape.op == 'list':
            for a in shape.args:
                sz = T.mul(sz, a)
        elif shape.op == 'shape':
            sz = O.size(shape.args[0])
        else:
            sz = shape
        v = mk('draw', cur, sz, data=kind)
        st.chans['rng'] = mk('rngstep', cur, sz, data=kind)
        return v

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state that is a when c holds and b otherwise"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        s = State()
        s.fn = a.fn
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            s.env[k] = x if x is y else ite(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                s.heap[k] = x
                continue
            if x is None or y is None:
                if k[0].op == 'ref':
                    if k[1] == '*' or not any(o is k[0] for (o, _) in (a.heap if x is None else b.heap)):
                        s.heap[k] = x if x is not None else y   # allocated in one branch only
                        continue
                dflt = self.default(*k)
                x = dflt if x is None else x
                y = dflt if y is None else y
            s.heap[k] = x if x is y else ite(c, x, y)
        for k in set(a.chans) | set(b.chans):
            x = a.chans.get(k) or chan0(k)
            y = b.chans.get(k) or chan0(k)
            s.chans[k] = x if x is y else ite(c, x, y)
        s.pc = or_(a.pc, b.pc)
        return s

    def merge_outs(self, outs):
        """outs: list of (state, value) with disjoint pcs -> (state, value)"""
        st, v = outs[-1]
        for s, w in reversed(outs[:-1]):
            c = s.pc
            if v is not None or w is not None:
                v = ite(c, w if w is not None else NONE, v if v is not None else NONE)
            st = self.merge(c, s, st)
        return st, v

    # ------------------------------------------------------------ statements
    def exec_block(self, st, stmts):
        """-> (normal state or None, [Out])"""
        outs = []
        for s in stmts:
            if st is None:
                break
            self.steps += 1
            if self.steps > MAX_STEPS:
                raise TooComplex('too many steps')
            st, o = self.exec_stmt(st, s)
            outs.extend(o)
            if st is not None and st.pc is FALSE:
                st = None
        return st, outs

    def src(self, node):
        if self.stack:
            T.SRC[0] = (self.stack[-1].module.rel, getattr(node, 'lineno', 0))

    def exec_stmt(self, st, s):
        self.src(s)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self._raises = []
        outs0 = self.pending
        self.pending = []
        try:
            r, outs = m(st, s)
            pend = self.pending
        finally:
            self.pending = outs0
        return r, list(pend) + list(outs)

    pending = []

    def raise_here(self, st, cond, kind):
        """record that evaluation raises under cond; continue under its negation"""
        if cond is FALSE:
            return
        s = st.copy()
        s.pc = and_(st.pc, cond)
        if s.pc is FALSE:
            return
        self.pending.append(Out('raise', s, string(kind)))
        st.pc = and_(st.pc, not_(cond))

    def st_Pass(self, st, s):
        return st, []

    def st_Global(self, st, s):
        return st, []

    st_Nonlocal = st_Global
    st_Import = st_ImportFrom = st_Global

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.ev(st, s.value)
        return (st if st.pc is not FALSE else None), []

    def st_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else NONE
        return None, [Out('return', st, v)]

    def st_Break(self, st, s):
        return None, [Out('break', st)]

    def st_Continue(self, st, s):
        return None, [Out('continue', st)]

    def st_Raise(self, st, s):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', name)
        return None, [Out('raise', st, string(name))]

    def st_Assert(self, st, s):
        c = truth(self.val(st, self.ev(st, s.test)))
        self.raise_here(st, not_(c), 'AssertionError')
        return st, []

    def st_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.ev(st, t.value)
                k = self.val(st, self.ev(st, t.slice))
                self.update_content(st, obj, lambda c: O.dict_del(c, k))
            elif isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
        return st, []

    def st_FunctionDef(self, st, s):
        f = Fn(s, self.stack[-1].module, None, s.name)
        f.closure = st.env
        f.cls_ctx = self.stack[-1].cls
        st.env[s.name] = self.fun(f)
        return st, []

    def st_Assign(self, st, s):
        v = self.ev(st, s.value)
        v = self.promote(st, s, v)
        for t in s.targets:
            self.assign(st, t, v)
        return (st if st.pc is not FALSE else None), []

    def promote(self, st, s, v):
        """a freshly computed array bound to a name/attribute that is updated in place gets an identity"""
        if isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant)):
            return v
        if v.op in ('ref', 'none', 'str', 'num', 'true', 'false', 'fun', 'bound', 'sym'):
            return v
        fn = self.stack[-1]
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)):
            t = s.targets[0]
            if v.op == 'list' and len(v.args) == len(t.elts) and (s.value in self.inlined or isinstance(s.value, ast.Tuple)):
                el = list(v.args)
                for i, (x, y) in enumerate(zip(t.elts, el)):
                    if isinstance(x, ast.Name) and x.id in self.prog.mutated(fn) or isinstance(x, ast.Attribute) and x.attr in self.prog.mut_attrs:
                        if y.op not in KEEPID and y.op != 'ite' and not (isinstance(s.value, ast.Tuple) and isinstance(s.value.elts[i], ast.Name)):
                            el[i] = self.alloc(st, y)
                return mk('list', *el)
            return v
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in self.prog.mutated(fn):
                pass
            elif isinstance(t, ast.Attribute) and t.attr in self.prog.mut_attrs:
                pass
            else:
                continue
            if v.op == 'ite' and not is_bool(v) and any(l.op in ('ref', 'none', 'sym', 'attr', 'getitem') for _, l in self.leaves(v)):
                keep = KEEPID if isinstance(s.value, ast.IfExp) or s.value in self.inlined else KEEPID - {'attr', 'getitem'}
                return self.map_leaves(v, lambda l: l if l.op in keep else self.alloc(st, l))
            if v.op in ('getitem', 'attr') and (not isinstance(s.value, ast.Call) or s.value in self.inlined):
                return v
            r = self.alloc(st, v)
            if v.op in ('reshape', 'T', 'flat'):
                self.view(st, r, v.args[0])
            return r
        return v

    def view(self, st, r, base):
        """r shares its memory with an array that existed before"""
        for c, b in self.leaves(base):
            g = b
            while g.op == 'getitem' and (g.args[1].op in ('str', 'slice', 'num')):
                g = g.args[0]
            if g.op in ('sym', 'attr') and b.op in ('sym', 'attr', 'getitem'):
                self.views.append((r, st.heap[(r, '*')], b, and_(st.pc, c)))

    def st_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))
        return st, []

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            obj = self.ev(st, t.value)
            self.set_attr(st, obj, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value)
            idx = self.val(st, self.ev_index(st, t.slice))
            if v.op in ('ref',) or any(f[0] == 'r' for f in v.fm):
                pass
            else:
                v = self.val(st, v)
            if O.full_slice(O.norm_index(idx)) and self.content(st, obj) is not None:
                self.update_content(st, obj, lambda c: O.filled(c, self.val(st, v)))
                return
            # rows of numeric arrays take a copy of the value
            c0 = self.content(st, obj)
            if c0 is not None and c0.op not in ('dict', 'list') and idx.op != 'str':
                v = self.val(st, v)
            self.set_item(st, obj, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            cv = self.content(st, v)
            if cv is None:
                cv = v
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            for i, e in enumerate(t.elts):
                self.assign(st, e, self.item(st, cv, num(i)))
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred')
        else:
            raise Unsupported('assign target')

    def item(self, st, base, idx):
        return O.getitem(base, idx)

    def extends(self, cur, s):
        """x += [...]: x is a list and is extended in place"""
        if not isinstance(s.value, (ast.List, ast.ListComp)) or any(array_place(x) for _, x in self.leaves(cur)):
            return False
        return all(x.op in ('ref', 'sym', 'attr', 'getitem', 'mu') for _, x in self.leaves(cur))

    def st_AugAssign(self, st, s):
        op = s.op
        if isinstance(s.target, ast.Name):
            cur = self.lookup(st, s.target.id)
            rhs = self.ev(st, s.value)
            c = self.content(st, cur) if cur.op == 'ref' else None
            if (c is not None and c.op in ('list', 'append', 'lconcat') or self.extends(cur, s)) and isinstance(op, ast.Add):
                r = self.content(st, rhs)
                self.update_content(st, cur, lambda x: T.lift(T.lconcat, [x, r]))
                return st, []
            new = self.binop(op, self.val(st, cur), self.val(st, rhs))
            if cur.op == 'ref' or array_place(cur):
                self.update_content(st, cur, lambda x: new)
            else:
                st.env[s.target.id] = new
            return st, []
        if isinstance(s.target, ast.Attribute):
            obj = self.ev(st, s.target.value)
            name = self.mangle(s.target.attr)
            cur = self.get_attr(st, obj, name)
            rhs = self.ev(st, s.value)
            c = self.content(st, cur) if cur.op == 'ref' else None
            if (c is not None and c.op in ('list', 'append', 'lconcat') or self.extends(cur, s)) and isinstance(op, ast.Add):
                r = self.content(st, rhs)
                self.update_content(st, cur, lambda x: T.lift(T.lconcat, [x, r]))
                return st, []
            new = self.binop(op, self.val(st, cur), self.val(st, rhs))
            if cur.op == 'ref':
                self.update_content(st, cur, lambda x: new)
            else:
                self.set_attr(st, obj, name, new)
            return st, []
        if isinstance(s.target, ast.Subscript):
            obj = self.ev(st, s.target.value)
            idx = self.val(st, self.ev_index(st, s.target.slice))
            rhs = self.val(st, self.ev(st, s.value))
            cur = self.val(st, self.subscript(st, obj, idx))
            self.set_item(st, obj, idx, self.binop(op, cur, rhs))
            return st, []
        raise Unsupported('augassign')

    def st_If(self, st, s):
        c = truth(self.val(st, self.ev(st, s.test)))
        if st.pc is FALSE:
            return None, []
        if c is TRUE:
            return self.exec_block(st, s.body)
        if c is FALSE:
            return self.exec_block(st, s.orelse)
        a, b = st.copy(), st.copy()
        a.pc = and_(st.pc, c)
        b.pc = and_(st.pc, not_(c))
        if a.pc is FALSE:
            return self.exec_block(b, s.orelse)
        if b.pc is FALSE:
            return self.exec_block(a, s.body)
        ra, oa = self.exec_block(a, s.body)
        rb, ob = self.exec_block(b, s.orelse)
        if ra is None:
            return rb, oa + ob
        if rb is None:
            return ra, oa + ob
        m = self.merge(c, ra, rb)
        return m, oa + ob

    def st_With(self, st, s):
        for it in s.items:
            v = self.ev(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        return self.exec_block(st, s.body)

    def st_Try(self, st, s):
        saved = self.maycalls
        self.maycalls = []
        pre = st.copy()
        rb, ob = self.exec_block(st, s.body)
        calls, self.maycalls = self.maycalls, saved
        outs = []
        explicit = []
        for o in ob:
            if o.kind == 'raise' and s.handlers:
                explicit.append(o)
            else:
                outs.append(o)
        if rb is not None and s.orelse:
            rb, o2 = self.exec_block(rb, s.orelse)
            outs.extend(o2)
        if not s.handlers:
            if s.finalbody and rb is not None:
                rb, o2 = self.exec_block(rb, s.finalbody)
                outs.extend(o2)
            return rb, outs
        if not calls and not explicit:
            return rb, outs
        # exceptional paths: handlers run from the state before the body
        taken = FALSE
        done = []                       # states at the end of the handlers
        more = []
        for h in s.handlers:
            names = handled(h)
            atom = or_(*[mk('raises', *calls[:1], data=nm) for nm in names]) if calls else FALSE
            atom = and_(atom, not_(taken))
            mine = [o for o in explicit if takes(names, o.val)]
            explicit = [o for o in explicit if o not in mine]
            if atom is FALSE and not mine:
                continue
            taken = or_(taken, atom)
            hst = pre.copy()
            hst.pc = and_(pre.pc, atom)
            if mine:
                # explicit raises inside the body that the handler takes
                e0 = mine[0].st.copy()
                for o in mine[1:]:
                    e0 = self.merge(o.st.pc, o.st, e0)
                if atom is FALSE:
                    hst = e0
                else:
                    hst = self.merge(hst.pc, hst, e0)
            if h.name:
                hst.env[h.name] = mk('exc', data=names[0])
            rh, oh = self.exec_block(hst, h.body)
            more.extend(oh)
            if rh is not None:
                done.append(rh)
        outs.extend(explicit)           # raised in the body, not handled here
        # body outcomes happen only when nothing was raised
        na = not_(taken)
        for o in outs:
            o.st.pc = and_(o.st.pc, na)
        outs = [o for o in outs if o.st.pc is not FALSE]
        outs.extend(more)
        res = rb
        if rb is not None:
            rb.pc = and_(rb.pc, na)
        for rh in done:
            res = rh if res is None else self.merge(rh.pc, rh, res)
        if s.finalbody and res is not None:
            res, o2 = self.exec_block(res, s.finalbody)
            outs.extend(o2)
        return res, outs

    # ------------------------------------------------------------ loops
    def st_For(self, st, s):
        it = self.ev(st, s.iter)
        if isinstance(s.iter, (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Name) and self.by_key(s):
            c = self.content(st, it)
            if (c if c is not None else it).op in ('sym', 'attr', 'getitem', 'ite', 'app', 'call', 'copy', 'upd'):
                it = mk('keys', self.val(st, it))       # for k in d: ... d[k] ...
        seq = self.seq_of(st, it)
        return self.run_loop(st, seq, s.target, None, s.body, s.orelse)

    @staticmethod
    def by_key(s):
        d = ast.dump(s.iter)
        return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Name) and
                   x.slice.id == s.target.id and ast.dump(x.value) == d for b in s.body for x in ast.walk(b))

    def st_While(self, st, s):
        return self.run_loop(st, None, None, s.test, s.body, s.orelse)

    def dict_seq(self, st, d):
        """(count, k -> key, (k, state) -> value) of a dict; the keys are the ones it has
        when the iteration starts, each value is read when its turn comes"""
        c = self.content(st, d)
        if c is not None and c.op == 'dict':
            return (num(len(c.args)), list(zip(c.data, c.args)), None)
        snap = self.val(st, d)

        def key(k):
            return O.getitem(mk('keys', snap), k)

        def value(k, st2=None):
            base = self.content(st2, d) if st2 is not None else None
            return O.getitem(snap if base is None else base, key(k))
        return (O.dim(snap, 0), key, value)

    def seq_of(self, st, it):
        """(count term, k -> element, [elements] or None)"""
        c = self.content(st, it)
        if c is None:
            c = self.val(st, it)
        op = c.op
        if op in ('list',):
            return (num(len(c.args)), None, list(c.args))
        if op == 'dict':
            return (num(len(c.args)), None, list(c.data))
        if op == 'range':
            a, b, s = c.args
            N = O.range_len(a, b, s)
            els = None
            if N.op == 'num' and N.data <= UNROLL:
                els = [T.add(a, T.mul(s, num(i))) for i in range(max(0, int(N.data)))]
            return (N, lambda k, st=None: T.add(a, T.mul(s, k)), els)
        if op == 'enumerate':
            N, f, els = self.seq_of(st, c.args[0])
            s0 = c.args[1]
            e2 = [mk('list', T.add(s0, num(i)), e) for i, e in enumerate(els)] if els is not None else None
            return (N, (lambda k, st=None: mk('list', T.add(s0, k), f(k, st))) if f else None, e2)
        if op == 'zip':
            qs = [self.seq_of(st, a) for a in c.args]
            if all(q[2] is not None for q in qs):
                n = min(len(q[2]) for q in qs)
                return (num(n), None, [mk('list', *[q[2][i] for q in qs]) for i in range(n)])
            Ns = [q[0] for q in qs]
            N = O.ziplen(Ns)

            def elem(k, st=None):
                return mk('list', *[(O.getitem(mk('list', *q[2]), k) if q[2] is not None else q[1](k, st)) for q in qs])
            return (N, elem, None)
        if op == 'reversed':
            N, f, els = self.seq_of(st, c.args[0])
            if els is not None:
                return (N, None, els[::-1])
            return (N, lambda k, st=None: f(T.sub(T.sub(N, num(1)), k), st), None)
        if op == 'items':
            N, key, value = self.dict_seq(st, c.args[0])
            if value is None:
                return (N, None, [mk('list', k, v) for k, v in key])
            return (N, lambda k, st=None: mk('list', key(k), value(k, st)), None)
        if op == 'keys':
            d = c.args[0]
            dv = self.content(st, d)
            if dv is not None and dv.op == 'dict':
                return (num(len(dv.args)), None, list(dv.data))
            return (O.dim(d, 0), lambda k, st=None: O.getitem(mk('keys', d), k), None)
        if op == 'values':
            N, key, value = self.dict_seq(st, c.args[0])
            if value is None:
                return (N, None, [v for k, v in key])
            return (N, value, None)
        N = O.dim(self.val(st, c), 0)
        N = T.lift(lambda n: O.ziplen([n]) if n.op == 'dim' and n.args[0].op == 'getitem' and
                   n.args[0].args[1].op == 'slice' else n, [N], protect_bool=True)

        def elem(k, st2=None):
            base = self.content(st2, it) if st2 is not None else c
            if base is None:
                base = c
            return O.getitem(base, k)
        return (N, elem, None)

    def run_loop(self, st, seq, target, test, body, orelse):
        if seq is not None and seq[2] is not None and len(seq[2]) <= UNROLL:
            return self.unrolled(st, seq[2], target, body, orelse)
        d = self.depth
        self.loops.add((self.stack[-1].full, getattr(body[0], 'lineno', 0), getattr(body[0], 'col_offset', 0)))
        K = T.counter(d)
        self.depth += 1
        try:
            r = self.loop_fix(st, seq, target, test, body, d, K)
        finally:
            self.depth -= 1
        post, outs = r
        if orelse and post is not None:
            raise Unsupported('loop else')
        return post, outs

    def unrolled(self, st, elems, target, body, orelse):
        outs = []
        broke = []
        for e in elems:
            if st is None:
                break
            self.assign(st, target, e)
            st, o = self.exec_block(st, body)
            cont = []
            for x in o:
                if x.kind == 'break':
                    broke.append(x.st)
                elif x.kind == 'continue':
                    cont.append(x.st)
                else:
                    outs.append(x)
            for c in cont:
                st = c if st is None else self.merge(c.pc, c, st)
        if orelse and st is not None:
            st, o = self.exec_block(st, orelse)
            outs.extend(o)
        for b in broke:
            st = b if st is None else self.merge(b.pc, b, st)
        return st, outs

    # locations -------------------------------------------------------
    def loc_get(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1], UNDEF)
        if loc[0] == 'heap':
            v = st.heap.get((loc[1], loc[2]))
            return self.default(loc[1], loc[2]) if v is None else v
        v = st.chans.get(loc[1])
        return chan0(loc[1]) if v is None else v

    def loc_set(self, st, loc, v):
        if loc[0] == 'env':
            st.env[loc[1]] = v
        elif loc[0] == 'heap':
            st.heap[(loc[1], loc[2])] = v
        else:
            st.chans[loc[1]] = v

    def loc_name(self, loc):
        if loc[0] == 'env':
            return str(loc[1])
        if loc[0] == 'heap':
            return '%s.%s' % (T.show(loc[1])[:60], loc[2])
        return 'chan:%s' % (loc[1],)

    def diff(self, a, b, own):
        """locations that differ between states (allocations made after a are not locations)"""
        out = []
        for k in b.env:
            if b.env[k] is not a.env.get(k, UNDEF):
                out.append(('env', k))
        roots_a = {o for (o, _) in a.heap if o.op == 'ref'}
        for k, v in b.heap.items():
            o, slot = k
            if o.op == 'ref' and o not in roots_a:
                continue
            w = a.heap.get(k)
            if w is None:
                w = self.default(*k)
            if v is not w:
                if any(f in own for f in o.fm):
                    continue      # folded separately
                out.append(('heap', o, slot))
        for k, v in b.chans.items():
            if v is not (a.chans.get(k) or chan0(k)):
                out.append(('chan', k))
        return out

    def loop_fix(self, st, seq, target, test, body, d, K):
        base = st.copy()
        base_refs = {o for (o, _) in base.heap if o.op == 'ref'}
        locs = []
        closed = {}
        lens = {}
        mus = {}
        for attempt in range(24):
            s = base.copy()
            s.pc = TRUE
            self.loopkey = None
            for loc in locs:
                init = self.loc_init(base, loc)
                if loc in closed:
                    self.loc_set(s, loc, closed[loc](K))
                    continue
                m = mus.get(loc)
                if m is None:
                    m = T.mu(self.loc_name(loc), init)
                    mus[loc] = m
                    cl = self.obj_class(base, loc)
                    if cl is not None:
                        self.types_rec = True
                    if loc[0] == 'heap' and loc[2] == '*':
                        self.mubase[m] = loc
                self.loc_set(s, loc, m)
                if loc in lens:
                    O.LENS[m] = lens[loc](K)
            start = s.copy()
            pend0, self.pending = self.pending, []
            if seq is not None:
                cond = lt(K, seq[0])
                self.assign(s, target, seq[1](K, s))
            else:
                cond = truth(self.val(s, self.ev(s, test)))
            s.pc = TRUE
            brks, rets, raises, conts = [], [], [], []
            if test is not None:
                pass
            n, outs = self.exec_block(s, body)
            outs = self.pending + outs
            self.pending = pend0
            for o in outs:
                if o.kind == 'break':
                    brks.append(o)
                elif o.kind == 'return':
                    rets.append(o)
                elif o.kind == 'raise':
                    raises.append(o)
                else:
                    conts.append(o)
            allst = ([n] if n is not None else []) + [o.st for o in conts + brks + rets]
            own = {('K', d)} | {next(iter(m.fm)) for m in mus.values()}
            if not allst:
                # every iteration raises
                end = start
            else:
                end = allst[-1]
                for x in reversed(allst[:-1]):
                    end = self.merge(x.pc, x, end)
            self.fold(end, own)
            exitc = or_(*[o.st.pc for o in brks + rets + raises]) if (brks or rets or raises) else FALSE
            mod = self.diff(start, end, own)
            new = [l for l in mod if l not in locs]
            if new:
                # scalars first: what is indexed by them depends on their being loop variables
                first = [l for l in new if l[0] == 'env']
                locs.extend(first or new)
                continue
            # values at the end of the iteration
            nxt = {}
            for loc in locs:
                nxt[loc] = self.loc_snap(end, loc, base_refs)
            # induction variables and loop-invariant locations
            again = False
            stay = None
            if exitc is not FALSE and (n is not None or conts):
                cs = ([n] if n is not None else []) + [o.st for o in conts]
                stay = cs[-1].copy()
                for x in reversed(cs[:-1]):
                    stay = self.merge(x.pc, x, stay)
                self.fold(stay, own)
            for loc in locs:
                if loc in closed:
                    continue
                m = mus[loc]
                init = self.loc_init(base, loc)
                dlt = None
                if exitc is not FALSE:
                    # the value at the start of an iteration only depends on the iterations that went on
                    if stay is None or loc[0] != 'env':
                        continue
                    ns = self.loc_snap(stay, loc, base_refs)
                    if ns.op in ('poly', 'mu') and ns is not m and init.op in ('num', 'poly', 'sym', 'attr', 'K', 'getitem', 'dim', 'mu', 'size'):
                        dlt = T.sub(ns, m)
                        if dlt.op == 'num':
                            closed[loc] = (lambda init, dlt: lambda k: T.add(init, T.mul(dlt, k)))(init, dlt)
                            again = True
                    continue
                if nxt[loc].op in ('poly', 'mu') and init.op in ('num', 'poly', 'sym', 'attr', 'K', 'getitem', 'dim', 'mu', 'size'):
                    dlt = T.sub(nxt[loc], m)
                    if dlt.fm & own or dlt.op not in ('num', 'sym', 'attr', 'poly', 'dim', 'getitem', 'size'):
                        dlt = None
                if dlt is not None:
                    closed[loc] = (lambda init, dlt: lambda k: T.add(init, T.mul(dlt, k)))(init, dlt)
                    again = True
                    continue
                if loc not in lens and nxt[loc].op == 'append' and nxt[loc].args[0] is m and \
                        self.known_len(base, init):
                    n0 = O.dim(init, 0)
                    lens[loc] = (lambda n0: lambda k: T.add(n0, k))(n0)
                    again = True
            if again:
                continue
            break
        else:
            raise TooComplex('loop analysis does not converge')
        # close the loop
        table = {}
        for loc in locs:
            if loc in closed and exitc is FALSE:
                continue
            table[mus[loc]] = (self.loc_init(base, loc), nxt[loc], self.loc_name(loc))
        cont = cond
        flags = {}
        if exitc is not FALSE:
            me = T.mu('exit', FALSE)
            me = T._intern('typed', (me,), 'bool')
            mbase = me.args[0]
            table[mbase] = (FALSE, exitc, 'exit')
            cont = and_(cond, not_(me))
        retm = raim = None
        if rets:
            rc = or_(*[o.st.pc for o in rets])
            mrf = T.mu('returned', FALSE)
            table[mrf] = (FALSE, rc, 'returned')
            v = self.val(rets[-1].st, rets[-1].val)
            for o in reversed(rets[:-1]):
                v = ite(o.st.pc, self.val(o.st, o.val), v)
            mrv = T.mu('retval', NONE)
            table[mrv] = (NONE, v, 'retval')
            retm = (mrf, mrv)
        if raises:
            rc = or_(*[o.st.pc for o in raises])
            mra = T.mu('raised', FALSE)
            table[mra] = (FALSE, rc, 'raised')
            raim = mra
        # nothing in a raising iteration is observable except the raise itself
        loop = T.Loop(cont, table, d)
        post = base.copy()
        trip = seq[0] if seq is not None else None
        if trip is None and exitc is FALSE and cond.op == 'lt0':
            r = T.sub(K, cond.args[0])
            if not r.fm & own:
                trip = r                    # while K < r
        if trip is not None and difference(trip):
            trip = None                     # a difference: may be negative
        for loc in locs:
            if loc in closed and exitc is FALSE:
                if trip is not None:
                    self.loc_set(post, loc, closed[loc](trip))
                else:
                    self.loc_set(post, loc, T.loopval(loop, closed[loc](K)))
                continue
            m = mus[loc]
            v = T.loopval(loop, m)
            if loc[0] == 'heap' and loc[1].op == 'ref' and loc[2] == '*':
                pass
            self.loc_set(post, loc, v)
            if loc in lens and exitc is FALSE and trip is not None:
                O.LENS[v] = lens[loc](trip)
            self.copy_type(nxt[loc], table[m][0], v)
        if target is not None:
            for t in ast.walk(target):
                if isinstance(t, ast.Name) and ('env', t.id) not in locs:
                    pass
        outs = []
        if raim is not None:
            rs = post.copy()
            c = T.loopval(loop, T._intern('typed', (raim,), 'bool'))
            rs.pc = and_(base.pc, c)
            kinds = {o.val for o in raises}
            outs.append(Out('raise', rs, raises[0].val))
            post.pc = and_(post.pc, not_(c))
        if retm is not None:
            rs = post.copy()
            c = T.loopval(loop, T._intern('typed', (retm[0],), 'bool'))
            rs.pc = and_(post.pc, c)
            outs.append(Out('return', rs, T.loopval(loop, retm[1])))
            post.pc = and_(post.pc, not_(c))
        if test is not None and cond is TRUE and not brks:
            post = None
        elif post.pc is FALSE:
            post = None
        return post, outs

    def copy_type(self, a, b, v):
        for x in (a, b):
            k = self.types.get(x)
            if k is not None:
                self.types[v] = k
                return

    def obj_class(self, st, loc):
        v = self.loc_get(st, loc)
        c = self.types.get(v) or self.cls_of.get(v)
        return c

    def known_len(self, base, init):
        return init.op in ('list', 'append') or init in O.LENS or init.op in ('sym', 'attr')

    def loc_init(self, base, loc):
        v = self.loc_get(base, loc)
        if loc[0] == 'chan':
            return v
        if loc[0] == 'heap' and loc[2] == '*' and loc[1].op != 'ref':
            return self.val(base, v, frozenset([loc[1]]))       # inside its contents, the object is as it was
        return self.val(base, v)

    def loc_snap(self, end, loc, base_refs):
        v = self.loc_get(end, loc)
        if loc[0] == 'chan':
            return v
        return self.val(end, v)

    def fold(self, st, own):
        """updates of objects that depend on the iteration are folded into the container that holds them"""
        for _ in range(12):
            ks = [k for k in st.heap if k[0].op in ('getitem', 'attr') and any(f in own for f in k[0].fm)]
            if not ks:
                return
            # deepest first
            o = max((k[0] for k in ks), key=lambda n: n.size)
            v = self.val(st, o)
            for k in [k for k in st.heap if k[0] is o]:
                del st.heap[k]
            b = o.args[0]
            if o.op == 'attr':
                self.set_attr(st, b, o.data, v)
                continue
            loc = self.mubase.get(b)
            if loc is not None:
                cur = self.loc_get(st, loc)
                self.loc_set(st, loc, O.upd(cur, o.args[1], v))
            elif b.op == 'mu':
                # the holder's next value must reflect it
                st.heap[(b, '*')] = O.upd(st.heap.get((b, '*'), b), o.args[1], v)
                return
            else:
                self.set_item(st, b, o.args[1], v)

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooComplex('too many steps')
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(st, e)

    def ex_Constant(self, st, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return mk('ellipsis')
        return mk('const', data=repr(v))

    def lookup(self, st, name):
        if name in st.env:
            return st.env[name]
        fn = self.stack[-1]
        c = fn.closure
        while c is not None:
            if name in c:
                return c[name]
            c = None
        r = self.prog.lookup(fn.module, name)
        if r is not None:
            return self.from_global(r)
        return mk('builtin', data=name) if hasattr(builtins, name) else UNDEF

    def from_global(self, r):
        if isinstance(r, Fn):
            return self.fun(r)
        if isinstance(r, Cls):
            n = mk('class', data=r.module.name + ':' + r.name)
            self.fun_table[n] = r
            return n
        if r[0] == 'module':
            n = mk('module', data=r[1])
            return n
        if r[0] == 'ext':
            return self.ext_value(canon_ext(r[1]))
        if r[0] == 'const':
            return self.eval_const(r[1], r[2])
        return UNDEF

    def ext_value(self, name):
        base = name.split('.')[-1]
        if name in ('np.inf', 'math.inf', 'np.Inf', 'np.infty'):
            return mk('const', data='inf')
        if name in ('np.nan', 'math.nan', 'np.NaN', 'np.NAN'):
            return mk('const', data='nan')
        if name in ('np.pi', 'math.pi', 'scipy.pi'):
            return mk('const', data='pi')
        if name == 'os.sep':
            return mk('sym', data='os.sep')
        if name in ('np.newaxis',):
            return NONE
        return mk('ext', data=name)

    def eval_const(self, module, node):
        k = (module.name, node)
        if k in self.consts:
            return self.consts[k]
        f = Fn(ast.parse('def _m(): pass').body[0], module, None, '_m')
        self.stack.append(f)
        try:
            s = State()
            try:
                v = self.val(s, self.ev(s, node))
            except Unsupported:
                v = mk('sym', data='const:%s' % module.name)
        finally:
            self.stack.pop()
        self.consts[k] = v
        return v

    def ex_Name(self, st, e):
        return self.lookup(st, e.id)

    def mangle(self, name):
        fn = self.stack[-1]
        c = fn.cls or getattr(fn, 'cls_ctx', None)
        return c.mangle(name) if c is not None else name

    def ex_Attribute(self, st, e):
        b = self.ev(st, e.value)
        if b.op == 'module':
            r = self.prog.member(('module', b.data), e.attr)
            return self.from_global(r)
        if b.op == 'ext':
            return self.ext_value(canon_ext(b.data + '.' + e.attr))
        if b.op == 'class':
            cls = self.fun_table[b]
            m = cls.find(self.prog, self.mangle(e.attr)) or cls.find(self.prog, e.attr)
            if m is not None:
                if m.kind in ('classmethod',):
                    return self.bound(b, m)
                return self.fun(m)
            if e.attr in cls.consts:
                return self.eval_const(cls.module, cls.consts[e.attr])
        return self.get_attr(st, b, self.mangle(e.attr))

    def ex_Tuple(self, st, e):
        return mk('list', *self.elts(st, e.elts))

    def elts(self, st, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value)
                c = self.content(st, v)
                if c is not None and c.op == 'list':
                    out.extend(c.args)
                else:
                    out.append(mk('star', self.val(st, v)))
            else:
                out.append(self.ev(st, x))
        return out

    def ex_List(self, st, e):
        return self.alloc(st, mk('list', *self.elts(st, e.elts)))

    def ex_Set(self, st, e):
        return mk('list', *sorted(self.elts(st, e.elts), key=lambda n: n.key), data='set')

    def ex_Dict(self, st, e):
        d = mk('dict', data=())
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.dict_update(st, d, self.val(st, self.ev(st, v)))
                continue
            kk = self.val(st, self.ev(st, k))
            d = O.dict_set(d, kk, self.ev(st, v)) if O.const_key(kk) else mk('upd', d, kk, self.ev(st, v))
        return self.alloc(st, d)

    def dict_update(self, st, d, u):
        if u.op == 'dict':
            for k, v in zip(u.data, u.args):
                d = O.upd(d, k, v)
            return d
        return mk('dmerge', d, u)

    def ex_JoinedStr(self, st, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.val(st, self.ev(st, v.value))
                spec = ''
                if v.format_spec is not None:
                    sp = self.ex_JoinedStr(st, v.format_spec)
                    spec = sp.data if sp.op == 'str' else '?'
                if (spec and spec not in ('d', 's')) or v.conversion not in (-1, 115):
                    x = mk('fmt', x, data=spec + '!' + ('' if v.conversion == -1 else chr(v.conversion)))
                parts.append(x)
        return T.cat(parts) if parts else string('')

    def ex_UnaryOp(self, st, e):
        v = self.val(st, self.ev(st, e.operand))
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.Invert):
            if v.op == 'npb' or is_bool(v):
                return not_(truth(v))
            return mk('invert', v)
        raise Unsupported('unary')

    def ex_BinOp(self, st, e):
        if isinstance(e.op, ast.Add) and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.Add):
            # a chain of additions with a string in it is a string
            todo, xs = e, []
            while isinstance(todo, ast.BinOp) and isinstance(todo.op, ast.Add):
                xs.append(todo.right)
                todo = todo.left
            xs = [self.ev(st, x) for x in [todo] + xs[::-1]]
            if any(isstr(x) for x in xs):
                return T.cat([self.val(st, x) for x in xs])
            r = xs[0]
            for x in xs[1:]:
                r = self.arith(st, e, r, x)
            return r
        a0, b0 = self.ev(st, e.left), self.ev(st, e.right)
        return self.arith(st, e, a0, b0)

    def arith(self, st, e, a0, b0):
        if isinstance(e.op, ast.Add) and (isstr(a0) or isstr(b0)):
            return T.cat([self.val(st, a0), self.val(st, b0)])
        if isinstance(e.op, ast.Add):
            ca = self.content(st, a0) if a0.op in ('ref', 'list', 'ite') else None
            cb = self.content(st, b0) if b0.op in ('ref', 'list', 'ite') else None
            la = ca is not None and T.islist(ca)
            lb = cb is not None and T.islist(cb)
            if la or lb:
                x = ca if ca is not None else self.val(st, a0)
                y = cb if cb is not None else self.val(st, b0)
                if isinstance(e.left, ast.List) or isinstance(e.right, ast.List) or (la and lb):
                    return self.alloc(st, T.lift(T.lconcat, [x, y]))
        if isinstance(e.op, ast.Mod) and self.val(st, a0).op in ('str', 'cat'):
            a, b = self.val(st, a0), self.val(st, b0)
            return self.percent(a, b)
        if isinstance(e.op, ast.Mult):
            ca = self.content(st, a0) if a0.op == 'ref' else None
            if ca is not None and ca.op == 'list' and isinstance(e.left, ast.List):
                return self.alloc(st, mk('rep', self.val(st, a0), self.val(st, b0)))
            cb = self.content(st, b0) if b0.op == 'ref' else None
            if cb is not None and cb.op == 'list' and isinstance(e.right, ast.List):
                return self.alloc(st, mk('rep', self.val(st, b0), self.val(st, a0)))
        return self.binop(e.op, self.val(st, a0), self.val(st, b0))

    def percent(self, a, b):
        if a.op == 'str' and '%' in a.data:
            args = list(b.args) if b.op == 'list' else [b]
            import re
            parts, i, k, ok = [], 0, 0, True
            for m in re.finditer(r'%(%|[sd]|[^a-zA-Z]*[a-zA-Z])', a.data):
                parts.append(string(a.data[i:m.start()]))
                i = m.end()
                if m.group(1) == '%':
                    parts.append(string('%'))
                elif m.group(1) in ('s', 'd', 'i') and k < len(args):
                    parts.append(args[k])
                    k += 1
                else:
                    ok = False
            parts.append(string(a.data[i:]))
            if ok and k == len(args):
                return T.cat(parts)
        return mk('pct', a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if is_bool(O.bare(a)) and is_bool(O.bare(b)) and not (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
                return or_(O.bare(a), O.bare(b))      # element-wise: boolean sum is disjunction
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            if is_bool(O.bare(a)) and is_bool(O.bare(b)) and not (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
                return and_(O.bare(a), O.bare(b))
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.FloorDiv):
            return O.to_int(T.div(a, b), 'floor')
        if isinstance(op, ast.Mod):
            return mk('mod', a, b)
        if isinstance(op, ast.MatMult):
            return O.dot(a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            x, y = O.bare(a), O.bare(b)
            if is_bool(x) and is_bool(y):
                if isinstance(op, ast.BitOr):
                    return or_(x, y)
                if isinstance(op, ast.BitAnd):
                    return and_(x, y)
                return not_(eq(x, y))
            return mk('bitop', a, b, data=type(op).__name__)
        return mk('binop', a, b, data=type(op).__name__)

    def ex_BoolOp(self, st, e):
        vals = []
        isand = isinstance(e.op, ast.And)
        # short circuit: effects of later operands are conditional
        cur = st
        acc = None
        first = self.val(st, self.ev(st, e.values[0]))
        result = first
        npb = first.op == 'npb'
        for x in e.values[1:]:
            c = truth(result)
            if (c is FALSE and isand) or (c is TRUE and not isand):
                return result
            guard = c if isand else not_(c)
            before = st.copy()
            save_pc = st.pc
            st.pc = and_(save_pc, guard)
            v = self.val(st, self.ev(st, x))
            st.pc = or_(st.pc, and_(save_pc, not_(guard)))
            if st.heap != before.heap or st.chans != before.chans:
                m = self.merge(guard, st, before)
                st.heap, st.chans = m.heap, m.chans
            npb = npb and v.op == 'npb'
            if is_bool(O.bare(result)) and is_bool(O.bare(v)):
                result = and_(result, v) if isand else or_(result, v)
            else:
                result = ite(c, v, result) if isand else ite(c, result, v)
        return mk('npb', result) if npb and result not in (TRUE, FALSE) else result

    def ex_Compare(self, st, e):
        left = self.ev(st, e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r)
            res = and_(res, truth(self.compare(st, op, left, right)))
            left = right
        return res

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(st, a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = O.contains(self.val(st, a), self.val(st, b))
            return r if isinstance(op, ast.In) else not_(r)
        x, y = self.val(st, a), self.val(st, b)
        if isinstance(op, ast.Eq):
            return eq(x, y)
        if isinstance(op, ast.NotEq):
            return not_(eq(x, y))
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.GtE):
            return le(y, x)
        raise Unsupported('compare')

    def is_(self, st, a, b):
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            return T.is_none(self.map_leaves(x, lambda n: n))
        for x, y in ((a, b), (b, a)):
            if y is TRUE or y is FALSE:
                xv = self.val(st, x)

                def f(v):
                    if v.op == 'npb':
                        return FALSE
                    if v.op in ('num', 'none', 'str', 'list'):
                        return FALSE
                    t = truth(v)
                    return t if y is TRUE else not_(t)
                return self.map_leaves(xv, f) if not is_bool(xv) else f(xv)
        return eq(self.val(st, a), self.val(st, b))

    def ex_IfExp(self, st, e):
        c = truth(self.val(st, self.ev(st, e.test)))
        if c is TRUE:
            return self.ev(st, e.body)
        if c is FALSE:
            return self.ev(st, e.orelse)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = and_(st.pc, c), and_(st.pc, not_(c))
        va = self.ev(a, e.body)
        vb = self.ev(b, e.orelse)
        m = b if a.pc is FALSE else a if b.pc is FALSE else self.merge(c, a, b)
        st.env, st.heap, st.chans, st.pc = m.env, m.heap, m.chans, m.pc
        return vb if a.pc is FALSE else va if b.pc is FALSE else ite(c, va, vb)

    def ex_Lambda(self, st, e):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        f = Fn(node, self.stack[-1].module, None, '<lambda>%d' % e.lineno)
        f.closure = dict(st.env)
        f.cls_ctx = self.stack[-1].cls
        return self.fun(f)

    def ex_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.assign(st, e.target, v)
        return v

    def ex_Starred(self, st, e):
        raise Unsupported('starred')

    def ex_Slice(self, st, e):
        def g(x):
            return self.val(st, self.ev(st, x)) if x is not None else NONE
        return mk('slice', g(e.lower), g(e.upper), g(e.step))

    def ev_index(self, st, e):
        if isinstance(e, ast.Tuple):
            return mk('list', *[self.val(st, self.ev(st, x)) for x in e.elts], data='tup')
        return self.ev(st, e)

    def ex_Subscript(self, st, e):
        b = self.ev(st, e.value)
        i = self.val(st, self.ev_index(st, e.slice))
        return self.subscript(st, b, i)

    def subscript(self, st, b, i):
        c = self.content(st, b)
        if c is None:
            c = self.val(st, b)
        r = O.getitem(c, i)
        if any(f[0] == 'r' for f in r.fm) and any(x.op == 'getitem' for _, x in self.leaves(r)):
            r = O.getitem(self.val(st, c), i)       # element not determined: identity is lost, its value is kept
        if r.op == 'list' and i.op == 'slice':
            return self.alloc(st, r)
        return r

    def comp(self, st, gens, elt_f, init):
        """run a comprehension as a loop appending to a fresh list"""
        acc = self.alloc(st, init)
        name = '<comp%d>' % self.oid
        saved = dict(st.env)
        st.env[name] = acc

        def build(gs):
            if not gs:
                return [elt_f(name)]
            g = gs[0]
            inner = build(gs[1:])
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[], lineno=0, col_offset=0)]
            return [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[], lineno=0, col_offset=0)]
        stm = build(gens)
        s2, outs = self.exec_block(st, stm)
        if s2 is None:
            raise Unsupported('comprehension')
        for o in outs:
            self.pending.append(o)
        st.heap, st.chans, st.pc = s2.heap, s2.chans, s2.pc
        st.env = saved
        return acc

    def ex_ListComp(self, st, e):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and \
                g.target.id == e.elt.id:
            from . import lib
            return lib.f_list(self, st, [self.ev(st, g.iter)], {})

        def elt(name):
            return ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append',
                                                              ctx=ast.Load(), lineno=e.lineno, col_offset=0),
                                           args=[e.elt], keywords=[], lineno=e.lineno, col_offset=0), lineno=e.lineno,
                            col_offset=0)
        return self.comp(st, e.generators, elt, mk('list'))

    ex_GeneratorExp = ex_ListComp
    ex_SetComp = ex_ListComp

    def ex_DictComp(self, st, e):
        def elt(name):
            return ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=e.key,
                                                     ctx=ast.Store(), lineno=e.lineno, col_offset=0)],
                              value=e.value, lineno=e.lineno, col_offset=0)
        return self.comp(st, e.generators, elt, mk('dict', data=()))

    # ------------------------------------------------------------ calls
    def ex_Call(self, st, e):
        self.sites += 1
        from . import lib
        fn = self.stack[-1]
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and fn.cls is not None and \
                len(fn.cls.bases) == 1 and ast.unparse(fn.cls.bases[0]) != 'object' and fn.node.args.args:
            e = ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Attribute(value=fn.cls.bases[0], attr=e.func.attr, ctx=ast.Load()), e),
                args=[ast.copy_location(ast.Name(id=fn.node.args.args[0].arg, ctx=ast.Load()), e)] + e.args,
                keywords=e.keywords), e)        # super().f(...) is Base.f(self, ...)
        f = None
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(st, e.func.value)
            name = self.mangle(e.func.attr)
            if recv.op in ('module', 'ext', 'class'):
                f = self.ex_Attribute(st, e.func)
                recv = None
            elif recv.op == 'builtin':
                f = mk('ext', data=recv.data + '.' + e.func.attr)
                recv = None
            else:
                fs = []
                for c, leaf in self.leaves(recv):
                    fs.append(self.get_attr(st, leaf, name))
                if all(x.op == 'bound' for x in fs):
                    f = None
                    if len(fs) == 1:
                        f = fs[0]
                    else:
                        fns = {self.fun_table[('b', x)][1] for x in fs}
                        if len(fns) == 1:
                            f = mk('bound', recv, data=fs[0].data)
                            self.fun_table[('b', f)] = (recv, next(iter(fns)))
                        else:
                            raise Unsupported('conditional receiver')
                elif len(fs) == 1 and fs[0].op in ('fun', 'class', 'ext'):
                    f = fs[0]
                elif len(fs) == 1 and fs[0].op == 'sym':
                    f = fs[0]
        else:
            f = self.ev(st, e.func)
        args, kwargs, star = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value)
                c = self.content(st, v)
                if c is not None and c.op == 'list':
                    args.extend(c.args)
                else:
                    star.append(mk('star', self.val(st, v)))
            else:
                args.append(self.ev(st, a))
        for k in e.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                c = self.content(st, v)
                if c is not None and c.op == 'dict' and all(x.op == 'str' for x in c.data):
                    for kk, vv in zip(c.data, c.args):
                        kwargs[kk.data] = vv
                else:
                    star.append(mk('dstar', self.val(st, v)))
            else:
                kwargs[k.arg] = v
        self.src(e)
        if f is None:
            return lib.method(self, st, recv, name, args, kwargs, star, e)
        return self.apply(st, f, args, kwargs, star, e)

    def apply(self, st, f, args, kwargs, star=(), e=None):
        from . import lib
        if f.op == 'ite':
            # call of a conditional function value
            a, b = st.copy(), st.copy()
            va = self.apply(a, f.args[1], args, kwargs, star, e)
            vb = self.apply(b, f.args[2], args, kwargs, star, e)
            m = self.merge(f.args[0], a, b)
            st.env, st.heap, st.chans = m.env, m.heap, m.chans
            return ite(f.args[0], va, vb)
        if f.op == 'fun':
            return self.inline(st, self.fun_table[f], None, args, kwargs, star, e)
        if f.op == 'bound':
            recv, fn = self.fun_table[('b', f)]
            return self.inline(st, fn, recv, args, kwargs, star, e)
        if f.op == 'class':
            cls = self.fun_table[f]
            r = self.alloc(st, None, cls)
            init = cls.find(self.prog, '__init__')
            if init is not None:
                self.inline(st, init, r, args, kwargs, star)
            return r
        if f.op == 'ext':
            return lib.external(self, st, f.data, args, kwargs, star, e)
        if f.op == 'builtin':
            return lib.external(self, st, f.data, args, kwargs, star, e)
        return lib.callback(self, st, f, args, kwargs, star)

    def bind(self, st, fn, recv, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if fn.cls is not None and fn.kind in ('method', 'classmethod', 'property'):
            if fn.kind == 'classmethod':
                first = mk('class', data=fn.cls.module.name + ':' + fn.cls.name)
                self.fun_table[first] = fn.cls
                pos.insert(0, first)
            elif recv is not None:
                pos.insert(0, recv)
        for n, v in zip(names, pos):
            env[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments')
            env[a.vararg.arg] = mk('list', *pos[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = mk('list')
        extra = {}
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in allowed:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Unsupported('unexpected keyword %s' % k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, O.mkdict([(string(k), v) for k, v in extra.items()]))
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, dflt in defs:
            if n not in env:
                env[n] = self.eval_const(fn.module, dflt)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                env[n] = UNDEF
        return env

    def default_value(self, fn, name):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return self.eval_const(fn.module, defs[name]) if name in defs else None

    def inline(self, st, fn, recv, args, kwargs, star=(), e=None):
        if fn.full in SKIP_FUNCS:
            return NONE if fn.name == 'message' else mk('sym', data='progressbar')
        if star:
            raise Unsupported('star call')
        env = self.bind(st, fn, recv, args, kwargs)
        if e is not None:
            self.inlined.add(e)
        if fn.full in self.boundaries or any(f is fn for f in self.stack) or len(self.stack) > 24:
            return self.opaque_call(st, fn, env)
        self.visited.add(fn.full)
        self.stack.append(fn)
        pend0, self.pending = self.pending, []
        try:
            s = st.copy()
            s.env = env
            n, outs = self.exec_block(s, body_of(fn.node))
            outs = self.pending + outs
        finally:
            self.stack.pop()
            self.pending = pend0
        rets = [(o.st, o.val) for o in outs if o.kind == 'return']
        if n is not None:
            rets.append((n, NONE))
        for o in outs:
            if o.kind == 'raise':
                o.st.env = st.env
                self.pending.append(o)
        if not rets:
            st.pc = FALSE
            return UNDEF
        r, v = self.merge_outs(rets)
        st.heap, st.chans = r.heap, r.chans
        st.pc = r.pc
        return v

    def opaque_call(self, st, fn, env):
        ifc = self.ifaces.get(fn.full) if not any(f is fn for f in self.stack) else None
        if ifc is not None:
            return self.boundary_call(st, fn, env, ifc)
        names = [x.arg for x in fn.node.args.args]
        if fn.cls is not None and names:
            skip = names[0]
        else:
            skip = None
        args = [self.val(st, env[n]) for n in sorted(env) if n != skip]
        v = mk('call', *args, data='fn:' + fn.qual)
        self.event(st, 'call:' + fn.qual, *args)
        self.maycalls.append(v)
        return v

    ifaces = {}

    def eval_path(self, st, n, env):
        if n.op == 'sym':
            if n.data in env:
                return env[n.data]
            raise Unsupported('interface of a summarised call: %s' % n.data)
        if n.op == 'attr':
            return self.get_attr(st, self.eval_path(st, n.args[0], env), n.data)
        if n.op == 'getitem':
            return self.subscript(st, self.eval_path(st, n.args[0], env), self.rebuild(st, n.args[1], env))
        raise Unsupported('interface path')

    def rebuild(self, st, n, env):
        if n.op in ('str', 'num', 'none', 'true', 'false'):
            return n
        return self.val(st, self.eval_path(st, n, env))

    def boundary_call(self, st, fn, env, ifc):
        """call of a function that is judged on its own: its results are opaque functions of what it reads"""
        e = dict(env)
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if fn.cls is not None and fn.kind == 'method' and names:
            e['self'] = env[names[0]]
        ins = []
        for r in ifc.reads:
            v = self.eval_path(st, r, e)
            if v.op in ('bound', 'fun', 'class'):
                continue
            ins.append(self.val(st, v))
        if 'rng' in ifc.chans:
            ins.append(st.chans.get('rng') or chan0('rng'))
        node = mk('call', *ins, data='fn:' + ifc.qual)
        self.called.add(ifc.full)
        targets = [(self.eval_path(st, o, e), slot, o, cls) for o, slot, cls in ifc.writes]
        for obj, slot, o, cls in targets:
            v = mk('post', node, data='%s.%s' % (T.show(o), slot))
            if cls is not None:
                for m in self.prog.modules.values():
                    if cls in m.classes:
                        self.types[v] = m.classes[cls]
            for c, leaf in self.leaves(obj):
                self.put(st, leaf, slot, v, c)
        for k in ifc.chans:
            cur = st.chans.get(k) or chan0(k)
            st.chans[k] = mk('rngstep', cur, node, data='fn') if k == 'rng' else mk('ev', cur, node, data=str(k))
        self.event(st, 'call:' + ifc.qual, node)
        if ifc.raises:
            self.raise_here(st, mk('raises', node, data='fn'), 'callee')

        def conv(n, path):
            if n.op == 'sym' and n.data in e or (n.op == 'attr' and ifc.is_path(n)):
                return self.eval_path(st, n, e)
            if n.op == 'list':
                return mk('list', *[conv(a, path + '.%d' % i) for i, a in enumerate(n.args)])
            if n.op in ('none', 'num', 'str', 'true', 'false'):
                return n
            r = mk('res', node, data=path)
            if is_bool(n):
                return mk('pred', r)
            if n.op == 'rec':
                for m in self.prog.modules.values():
                    if n.data[0] in m.classes:
                        self.types[r] = m.classes[n.data[0]]
            return r
        return conv(ifc.ret, 'r')


def body_of(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[1:]
    return b


class Summary:
    """what a function does, as terms"""

    def __init__(self):
        self.obs = {}        # name -> term
        self.visited = set()
        self.sites = 0


class Interface:
    """what a function reads, writes and returns, from its reference summary"""

    def __init__(self, fn, S):
        self.full, self.qual = fn.full, fn.qual
        self.ret = S.obs.get('return', NONE)
        self.raises = S.obs.get('raise', FALSE) is not FALSE
        self.chans = sorted(k[1] for k in S.obs if not isinstance(k, str) and k[0] == 'chan' and not k[1].startswith('call:'))
        self.writes = []
        self.formals = set(x.arg for x in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs) | {'self'}
        rd = {}
        for k, v in S.obs.items():
            self._reads(v, rd)
            if not isinstance(k, str) and k[0] == 'state':
                if not self.is_path(k[1]):
                    r = k[1]
                    while r.op in ('attr', 'getitem') and r.args:
                        r = r.args[0]
                    if r.op != 'sym':
                        continue          # object made by a summarised callee
                    raise Unsupported('summary writes %s' % T.show(k[1])[:80])
                self.writes.append((k[1], k[2], v.data[0] if v.op == 'rec' else None))
        self.writes.sort(key=lambda w: (T.show(w[0]), w[1]))
        self.reads = sorted(rd.values(), key=T.show)

    def is_path(self, n):
        if n.op == 'sym':
            return n.data in self.formals
        if n.op == 'attr':
            return self.is_path(n.args[0])
        if n.op == 'getitem':
            return self.is_path(n.args[0]) and (n.args[1].op in ('str', 'num') or self.is_path(n.args[1]))
        return False

    def _reads(self, v, rd):
        seen = set()
        todo = [v]
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if self.is_path(n):
                rd[n.key] = n
                continue
            todo.extend(T.children(n))


def summarise(prog, fn, boundaries=(), types=None, rename=None, ifaces=None, bind_defaults=(), known=None):
    """abstract effect of one function: returned value, raise condition, final state of arguments, effect channels"""
    it = Interp(prog, boundaries=boundaries, known=known)
    it.ifaces = ifaces or {}
    T.reset_budget()
    st = State()
    a = fn.node.args
    env = {}
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for i, n in enumerate(names):
        if i == 0 and fn.cls is not None and fn.kind == 'classmethod':
            c = mk('class', data=fn.cls.module.name + ':' + fn.cls.name)
            it.fun_table[c] = fn.cls
            env[n] = c
            continue
        r = (rename or {}).get(n, n)
        if n in bind_defaults:
            env[n] = it.default_value(fn, n)
            continue
        s = T.sym(r)
        env[n] = s
        if i == 0 and fn.cls is not None and fn.kind == 'method':
            s = T.sym('self')
            env[n] = s
            it.types[s] = fn.cls
        elif types and r in types:
            cls = types[r]
            k = None
            for m in prog.modules.values():
                if cls in m.classes:
                    k = m.classes[cls]
            if k is not None:
                it.types[s] = k
    if a.vararg:
        env[a.vararg.arg] = T.sym(a.vararg.arg)
    if a.kwarg:
        env[a.kwarg.arg] = T.sym(a.kwarg.arg)
    st.env = env
    it.stack.append(fn)
    it.visited.add(fn.full)
    it.pending = []
    n, outs = it.exec_block(st, body_of(fn.node))
    outs = it.pending + outs
    rets = [(o.st, it.val(o.st, o.val)) for o in outs if o.kind == 'return']
    if n is not None:
        rets.append((n, NONE))
    raises = [o for o in outs if o.kind == 'raise']
    S = Summary()
    S.visited = it.visited
    S.sites = it.sites
    S.called = it.called
    S.loops = it.loops
    S.interp = it
    S.obs['raise'] = or_(*[o.st.pc for o in raises]) if raises else FALSE
    if raises:
        v = raises[-1].val
        for o in raises[:-1]:
            v = ite(o.st.pc, o.val, v)
        S.raise_kind = v
    if rets:
        fin, v = it.merge_outs(rets)
        S.obs['return'] = v
        defaults = {}
        pairs = {}
        for (o, slot), x in fin.heap.items():
            if o.op == 'ref':
                continue
            base = o
            if slot == '*':
                x = it.val(fin, o)
                nm = T.show(o)
                key = ('*', o)
            else:
                ints = it.dtypes.get(x) == 'int'
                x = it.val(fin, x)
                if ints:
                    x = mk('ints', x)
                key = (slot, o)
            if x is it.default(o, slot):
                continue
            S.obs[('state', o, slot)] = x
        for r, before, base, c in it.views:
            after = fin.heap.get((r, '*'))
            if after is not None and after is not before and ('state', base, '*') not in S.obs:
                x = ite(c, mk('assigned', base, it.val(fin, after)), base)
                if x is not base:
                    S.obs[('state', base, '*')] = x
        for k, x in fin.chans.items():
            S.obs[('chan', k)] = x
    else:
        S.obs['return'] = UNDEF
    # effects before a raise
    return S
