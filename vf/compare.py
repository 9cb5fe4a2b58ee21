"""Deciding whether two function summaries denote the same behaviour.

 EQUAL      the normal forms coincide (value numbers are identical)
 AGREE      normal forms differ, but no interpretation tells them apart
 DIFFERENT  an interpretation tells them apart and the code uses no construct
            outside the vocabulary of the reference (so the difference is not
            an artefact of an operation we do not understand)
 UNKNOWN    anything else
"""
import sys
import time
from . import terms as T
from . import model as M

sys.setrecursionlimit(20000)

BASIC = {
    'num', 'poly', 'sumatom', 'numatom', 'pow', 'true', 'false', 'none', 'str', 'const', 'sym', 'ite', 'lt0', 'eq0',
    'eq', 'isnone', 'min', 'max', 'log', 'exp', 'abs', 'list', 'dict', 'getitem', 'slice', 'any', 'typed', 'T',
    'floor', 'ceil', 'int', 'round', 'in', 'upd', 'append', 'rec', 'with', 'cat', 'npb', 'mu', 'K', 'dim', 'size',
    'chan', 'ev', 'rngstep', 'draw', 'bool', 'istrue', 'loopval', 'kw', 'isnan', 'isinf', 'sin', 'cos', 'log10',
    'amin', 'amax', 'var', 'isinst', 'post', 'zeros', 'ones', 'eye', 'assigned', 'sum', 'prod', 'median', 'mod', 'inv', 'chol',
    'ndim', 'copyof', 'deepcopy', 'delkey', 'fun', 'bound', 'class', 'shape', 'sorted', 'argsort', 'arreq', 'sign',
    'range', 'all', 'ziplen', 'lconcat', 'f32', 'f64', 'ints',
}
DEADLINE = [float('inf')]     # after this, less time per function
SAMPLES = 120
EXTRA_SAMPLES = 2400


def vocab(n, out=None):
    out = set() if out is None else out
    for x in T.walk(n):
        if x.op == 'ext' and str(x.data) in ('np.float32', 'np.float16', 'np.single', 'np.half', 'np.int32', 'np.int64', 'np.float64'):
            continue
        if x.op in ('call', 'mcall', 'app', 'ext'):
            out.add((x.op, str(x.data)))
        elif x.op == 'attr':
            out.add(('attr', x.data))
        elif x.op == 'binop':
            out.add((x.op, str(x.data)))
        else:
            out.add((x.op, None))
            if x.op == 'getitem' and x.args[0].op == 'poly' and len({a for m in T.poly_items(x.args[0]) for a, _ in m if a.op not in ('num', 'K')}) > 1:
                out.add(('getitem of arithmetic %d' % (len(x.args[1].args) if x.args[1].op == 'list' else 1), None))        # may be the arithmetic of the elements
    return out


# library functions that no combination of others replaces, except where the reference uses one of these
DISTINCT = {
    'np.median': ('interp', 'interp1d', 'sort', 'npsort'), 'np.unique': ('set', 'sort', 'npsort'),
    'np.nanmean': ('nan_to_num', 'isnan'), 'np.nanstd': ('nan_to_num', 'isnan'), 'np.nanvar': ('nan_to_num', 'isnan'),
    'np.nansum': ('nan_to_num', 'isnan'), 'np.nanmedian': ('interp', 'interp1d', 'sort', 'npsort', 'isnan'),
    'np.nan_to_num': ('isnan', 'where'), 'np.round': (), 'np.around': (),
}


def has_loop(n):
    return any(x.op == 'loopval' for x in T.walk(n))


class Verdict:
    def __init__(self, kind, obs=None, why='', detail='', src=None):
        self.kind, self.obs, self.why, self.detail, self.src = kind, obs, why, detail, src

    def __repr__(self):
        return '%s %s %s' % (self.kind, self.obs, self.why)


def obs_name(k):
    if isinstance(k, str):
        return k
    if k[0] == 'state':
        return 'final value of %s%s' % (T.show(k[1]), '' if k[2] == '*' else '.' + k[2])
    return 'effects on %s' % (k[1],)


def default_of(k):
    if k == 'raise':
        return T.FALSE
    if k == 'return':
        return T.NONE
    if k[0] == 'state':
        from . import ops as O
        return k[1] if k[2] == '*' else O.attr(k[1], k[2])
    return T.mk('chan', data=str(k[1]))


def align(S, C):
    """observable -> (spec term, code term)"""
    out = {}
    for k in list(S.obs) + [k for k in C.obs if k not in S.obs]:
        s = S.obs.get(k)
        c = C.obs.get(k)
        out[k] = (s if s is not None else default_of(k), c if c is not None else default_of(k))
    return out


def copied(a):
    while a.op in ('attr', 'getitem', 'copyof', 'deepcopy'):
        if a.op in ('copyof', 'deepcopy'):
            return True
        a = a.args[0]
    return False


def same_location(a, b, tries=12):
    """do two terms for an object denote the same one in every interpretation tried"""
    if copied(a) != copied(b):
        return False
    try:
        dom = M.Domains([a, b])
        done = 0
        for seed in range(1, 4 * tries):
            I = M.Interp(seed, dom, counts([a]), 0)
            try:
                x, y = M.result(I.ev(a), None), M.result(I.ev(b), None)
            except (M.Undef, M.Budget, OverflowError, ValueError):
                continue
            if x != y:
                return False
            done += 1
            if done >= tries:
                return True
    except RecursionError:
        pass
    return False


def pair_locations(S, C, pairs):
    """objects the two reach by different but equal expressions are one location"""
    left = [k for k in pairs if not isinstance(k, str) and k[0] == 'state' and k in S.obs and k not in C.obs]
    right = [k for k in pairs if not isinstance(k, str) and k[0] == 'state' and k in C.obs and k not in S.obs]
    if not left or not right or len(left) * len(right) > 60:
        return
    for k in left:
        for q in right:
            if k[2] == q[2] and k[1].op == q[1].op and q in pairs and same_location(k[1], q[1]):
                pairs[k] = (S.obs[k], C.obs[q])
                del pairs[q]
                break


def compare(S, C, known_attrs, select=None, samples=SAMPLES, allow=frozenset, ignore=None):
    """S, C: summaries of the reference and of the code"""
    pairs = align(S, C)
    pair_locations(S, C, pairs)
    mism = []
    checked = 0
    for k, (s, c) in pairs.items():
        if select is not None and not select(k):
            continue
        if ignore is not None and ignore(k):
            continue
        checked += 1
        if s.key == c.key:
            continue
        if not isinstance(k, str) and k[0] == 'state' and isinstance(k[2], str) and k[2] != '*' and k[2] not in known_attrs:
            continue            # additional private state
        mism.append((k, s, c))
    if not mism:
        return Verdict('EQUAL'), checked
    # interpretations
    sr, cr = S.obs.get('raise', T.FALSE), C.obs.get('raise', T.FALSE)
    roots = [x for k, s, c in mism for x in (s, c)] + [sr, cr]
    try:
        dom = M.Domains(roots)
    except RecursionError:
        return Verdict('UNKNOWN', why='term too deep'), checked
    prefer = counts(roots[0::2])
    modes = [0]
    if any(x.op == 'sum' and x.data == 'b' for r in roots for x in T.walk(r)):
        modes.append(None)          # sum() of a vector is also its total
    found = None
    cut = {}
    alias = lengths(roots[0::2], roots[1::2])
    for mode in modes:
        f, g, tried = separate(mism, sr, cr, dom, prefer, mode, samples, alias)
        if f is None:
            return Verdict('UNKNOWN', why=g), checked
        found = f if found is None else {k: v for k, v in found.items() if k in f}
        cut = g if mode == 0 else {k: v for k, v in cut.items() if k in g}
        if not found and not cut:
            return Verdict('AGREE', why='normal forms differ but no interpretation separates them (%d tried)' % tried), checked
    if not found:
        # told apart only by runs that leave a loop early
        found = {k: v for k, v in cut.items() if all(conts(s) == conts(c) and (k == 'raise' or alike(v[0][0], s, c, dom, prefer, alias))
                                                     for kk, s, c in mism if kk == k)}
        if not found:
            return Verdict('UNKNOWN', why='loops differ and only longer runs could tell them apart'), checked
    best = None
    allow = allow()
    for k, s, c in mism:
        if k not in found:
            continue
        v = judge(k, s, c, S, C, known_attrs, allow)
        v.count = len(found[k])
        if v.kind == 'DIFFERENT':
            return v, checked
        best = best or v
    return best, checked


def trips(roots):
    """trip counts of the loops in these terms"""
    out = {}
    for r in roots:
        for x in T.walk(r):
            if x.op == 'loopval':
                for q in T.walk(x.loop[0].cont):
                    if q.op == 'lt0':
                        n = T.sub(T.counter(x.loop[0].depth), q.args[0])
                        out[n.key] = n
    return out


def counts(roots):
    return set(trips(roots))


def lengths(ref, code):
    """a loop of the code runs over the sequence that the reference indexes with a counter going up to a given number of
    elements: that number is taken to be the length of the sequence"""
    a, b = trips(ref), trips(code)
    scalars = [n for k, n in a.items() if k not in b and n.op in ('sym', 'attr')]
    seqs = [n for k, n in b.items() if k not in a and n.op in ('dim', 'ziplen') and not n.fm]
    if len(scalars) != 1 or not seqs:
        return {}
    first = {m.key: i[0].key for r in ref for x in T.walk(r) if x.op == 'loopval' for m, i in x.loop[0].mus.items()}
    indexed = {x.args[0].key for r in ref for x in T.walk(r) if x.op == 'getitem' and any(y.op == 'K' for y in T.walk(x.args[1]))}
    indexed |= {first[k] for k in indexed if k in first}
    out = {}
    for n in seqs:
        ds = [x for x in (n.args if n.op == 'ziplen' else [n]) if x.op == 'dim']
        if any(d.data == 0 and d.args[0].key in indexed for d in ds):
            out[n] = scalars[0]
    return out


def conts(root):
    return {x.loop[0].cont.key for x in T.walk(root) if x.op == 'loopval'}


def alike(seed, s, c, dom, prefer, alias):
    """do both sides leave the same loops early?"""
    left = []
    for t in (s, c):
        I = M.Interp(seed, dom, prefer, 0)
        try:
            for n, v in (alias or {}).items():
                I.memo[n.id] = I.ev(v)
            I.cutoff.clear()
            I.ev(t)
        except (M.Undef, M.Budget, OverflowError, ValueError, RecursionError):
            pass
        left.append(set(I.cutoff))
    return left[0] == left[1]


def separate(mism, sr, cr, dom, prefer, mode, samples, alias=None):
    """interpretations under which the two differ: {observable: [...]}, those that cut a loop short, number tried"""
    found, cut = {}, {}
    t0 = time.time()
    seed = 0
    total = samples
    steps = 0
    while seed < total or seed == total == samples and not found:
        if seed == samples:
            total = samples + EXTRA_SAMPLES if not found else total
        seed += 1
        now = time.time()
        if now - t0 > (40 if now < DEADLINE[0] else 3):
            if not found and not cut and seed < 25:
                return None, 'too costly', seed
            break
        if seed > samples + 400 and now - t0 > 8:
            break
        I = M.Interp(seed, dom, prefer, mode)
        try:
            for n, v in (alias or {}).items():
                I.memo[n.id] = I.ev(v)
            try:
                a = I.truth(I.ev(sr))
            except M.Undef:
                continue
            try:
                b = I.truth(I.ev(cr))
            except M.Undef:
                b = None
            if a and b:
                continue
            if a != b and b is not None:
                if any(k == 'raise' for k, _, _ in mism):
                    (cut if I.trunc else found).setdefault('raise', []).append((seed, a, b))
                continue
            ref = {}
            for k, s, c in mism:
                if k == 'raise':
                    continue
                ch = k[1] if not isinstance(k, str) and k[0] == 'chan' else None
                try:
                    ref[k] = ch, M.result(I.ev(s), ch)
                except M.Undef:
                    continue
            if I.byzero:
                continue                # the reference divides by zero
            for k, s, c in mism:
                if k not in ref:
                    continue
                ch, x = ref[k]
                try:
                    y = M.result(I.ev(c), ch)
                except M.Undef:
                    y = 'unbound#'
                if x != y:
                    (cut if I.trunc else found).setdefault(k, []).append((seed, x, y))
        except M.Budget:
            steps += not I.long
            if steps > 8:
                if not found and not cut:
                    return None, 'too costly', seed
                break
            continue
        except (OverflowError, ValueError):
            continue
        except RecursionError:
            return None, 'term too deep', seed
        if found and seed >= 40:
            break
    return found, cut, seed


def judge(k, s, c, S, C, known_attrs, allow):
    sv = set()
    for t in S.obs.values():
        vocab(t, sv)
    cv = vocab(c)
    new = []
    for op, d in cv - sv:
        if op in BASIC and d is None:
            continue
        if op == 'attr':
            if d in known_attrs:
                continue
        if d in DISTINCT and not any(o in DISTINCT[d] or str(x).split('.')[-1] in DISTINCT[d] for o, x in sv):
            continue            # a function of its own, which nothing in the reference could stand for
        if d is not None and d.split('.')[-1] in allow:
            continue            # an operation the reference names, even if its value plays no role there
        new.append((op, d))
    if new:
        return Verdict('UNKNOWN', k, 'code uses constructs outside the reference vocabulary: %s' %
                       ', '.join(sorted('%s %s' % (o, d or '') for o, d in new)[:6]))
    if has_loop(s) and not has_loop(c) and cv <= sv:
        pass            # something a loop did is gone, and nothing took its place
    elif len(S.loops) != len(C.loops):
        return Verdict('UNKNOWN', k, 'loop structure differs (%d vs %d)' % (len(S.loops), len(C.loops)))
    p = locate(s, c)
    v = Verdict('DIFFERENT', k, 'expected %s, found %s' % (short(p[0]), short(p[1])), src=where(p[1], s))
    v.shrunk = cv <= sv
    return v


def short(n, lim=420):
    s = T.show(n)
    return s if len(s) <= lim else s[:lim] + ' ...'


def where(c, s):
    """a construct of the code that is not in the reference"""
    keys = {x.key for x in T.walk(s)}
    best = None
    for x in T.walk(c):
        if x.key not in keys and x.src:
            if best is None or x.size < best.size:
                best = x
    return best.src if best is not None else c.src


def locate(s, c, depth=0):
    """descend while the two terms have the same shape and exactly one differing child"""
    if depth > 60 or s.op != c.op:
        return s, c
    if s.op == 'poly':
        return s, c
    if s.op == 'loopval':
        ls, es = s.loop
        lc, ec = c.loop
        if es.key != ec.key and es.op != 'mu':
            return locate(es, ec, depth + 1)
        a = {m.data[1]: ls.mus[m] for m in ls.needed(es)}
        b = {m.data[1]: lc.mus[m] for m in lc.needed(ec)}
        for nm in a:
            if nm in b:
                if a[nm][0].key != b[nm][0].key:
                    return a[nm][0], b[nm][0]
        for nm in a:
            if nm in b and a[nm][1].gkey != b[nm][1].gkey:
                return locate(a[nm][1], b[nm][1], depth + 1)
        return s, c
    if len(s.args) != len(c.args) or (s.data != c.data):
        return s, c
    d = [(x, y) for x, y in zip(s.args, c.args) if x.gkey != y.gkey]
    if len(d) == 1 or (d and s.op in ('ite', 'ev', 'rec', 'list', 'dict', 'with')):
        return locate(d[0][0], d[0][1], depth + 1)
    return s, c
