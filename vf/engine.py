"""One obligation: a function of the package must denote the same behaviour as its counterpart in the reference model."""
import ast
import hashlib
import time
from . import compare as CMP
from . import embed, interp, terms as T
from .interp import Unsupported, summarise
from .terms import TooComplex
from .refmodel import PARAM_TYPES, attrs_of

OK, BAD, UNKNOWN, MISSING = 'holds', 'violated', 'undecided', 'missing'


class Result:
    def __init__(self, ob, status, why='', obs=None, src=None, checked=0, visited=(), sites=0, wall=0.0):
        self.ob, self.status, self.why, self.obs, self.src = ob, status, why, obs, src
        self.checked, self.visited, self.sites, self.wall = checked, visited, sites, wall
        self.config = ''

    def line(self):
        loc = '%s:%s' % self.src if self.src else ''
        return '%s %s %s %s %s' % (self.status, self.ob.full, self.obs or '', loc, self.why)


class Obligation:
    def __init__(self, module, qual, boundaries=None, select=None, note=''):
        self.module, self.qual = module, qual
        self.full = module + ':' + qual
        self.boundaries = boundaries
        self.select = select
        self.note = note


def formals(fn):
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def public(qual):
    n = qual.split('.')[-1]
    return not n.startswith('_') or n == '__init__'


def rename_map(sfn, cfn):
    """code parameter -> reference parameter; None when the signatures do not correspond"""
    s, c = formals(sfn), formals(cfn)
    if sfn.cls is not None and sfn.kind in ('method', 'classmethod') and s:
        s = s[1:]
    if cfn.cls is not None and cfn.kind in ('method', 'classmethod') and c:
        c = c[1:]
    ko = {x.arg for x in cfn.node.args.kwonlyargs}
    so = {x.arg for x in sfn.node.args.kwonlyargs}
    if (set(s) | so) == (set(c) | ko):
        return {}, []
    extra = [x for x in c if x not in s]
    miss = [x for x in s if x not in c and x not in ko]
    if not miss and extra:
        # additional parameters: must have defaults, which are then in force
        nd = len(cfn.node.args.defaults)
        withdef = set(formals(cfn)[len(formals(cfn)) - nd:]) if nd else set()
        if all(x in withdef for x in extra):
            return {}, extra
        return None, []
    if len(extra) == len(miss) and len(s) == len(c):
        m = {}
        for a, b in zip(c, s):
            if a != b:
                if a in s or b in c:
                    return None, []
                m[a] = b
        return m, []
    return None, []


def default_terms(prog, fn):
    it = interp.Interp(prog)
    out = {}
    for n in formals(fn) + [x.arg for x in fn.node.args.kwonlyargs]:
        try:
            it.stack = [fn]
            v = it.default_value(fn, n)
        except (Unsupported, TooComplex):
            continue
        if v is not None:
            out[n] = v
    return out


def unavailable(ref, code, fn):
    """functions, methods and attributes of the package that a scenario uses and the tree no longer has under that name"""
    names = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)}
    out = []
    defined = set()
    for m in ref.prog.modules.values():
        for f in list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
            defined.add(f.name)
            if f.name in names and code.find(f.full.split(':')[0], f.qual) is None:
                out.append(f.qual)
        for c in m.classes:
            if c in names and c not in (code.modules[m.name].classes if m.name in code.modules else ()):
                out.append(c)
    if not hasattr(code, 'attr_names'):
        code.attr_names = attrs_of(code, skip='scenarios')
    attrs = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute)} - defined
    return out + sorted(a for a in attrs if a in ref.own and a not in code.attr_names)


CONSTS = ('num', 'str', 'true', 'false', 'none')


def decide(ref, code, ob, samples=None):
    t0 = time.time()
    sfn = ref.prog.find(ob.module, ob.qual)
    cfn = code.find(ob.module, ob.qual)
    if sfn is None:
        raise Unsupported('reference has no %s' % ob.full)
    if cfn is None:
        return Result(ob, MISSING, 'not present in the tree', wall=time.time() - t0)
    ren, bound = rename_map(sfn, cfn)
    if ren is None:
        return Result(ob, UNKNOWN, 'parameters do not correspond to the reference', wall=time.time() - t0)
    if ob.module == 'scenarios':
        gone = unavailable(ref, code, sfn)
        if gone:
            return Result(ob, UNKNOWN, 'not present in the tree: %s' % ', '.join(gone), wall=time.time() - t0)
    # defaults
    dflt = None
    unsure = []
    if public(ob.qual):
        ds, dc = default_terms(ref.prog, sfn), default_terms(code, cfn)
        for n, v in ds.items():
            m = next((a for a, b in ren.items() if b == n), n)
            w = dc.get(m)
            if w is None or w is v or w.key == v.key:
                continue
            if w.op in CONSTS and v.op in CONSTS and w is not T.NONE and v is not T.NONE:
                dflt = dflt or (n, v, w)
            else:
                unsure.append(m)
    configs = ob.boundaries if ob.boundaries is not None else [()]
    types = PARAM_TYPES
    best = None
    for bs in configs:
        r = one(ref, code, ob, sfn, cfn, bs, types, ren, bound, samples)
        r.wall = time.time() - t0
        if r.status == OK:
            best = r
            break
        if best is None or (best.status == BAD and r.status == UNKNOWN and bs == ()):
            best = r
        elif best.status == UNKNOWN and r.status == BAD and 'complex' in best.why:
            best = r
    if best.status == BAD and unsure:
        best = Result(ob, UNKNOWN, 'default values moved into the body (%s)' % ', '.join(unsure), checked=best.checked,
                      visited=best.visited)
    if best.status == OK and dflt is not None:
        n, v, w = dflt
        best = Result(ob, BAD, 'default of %s: expected %s, found %s' % (n, T.show(v), T.show(w)), 'signature',
                      (cfn.module.rel, cfn.node.lineno), best.checked, best.visited)
    best.wall = time.time() - t0
    return best


def one(ref, code, ob, sfn, cfn, bs, types, ren, bound, samples):
    try:
        S = ref.summary(sfn, bs, types)
    except (Unsupported, TooComplex) as e:
        return Result(ob, UNKNOWN, 'reference not analysable here: %s' % e)
    for b in bs:
        mod, q = b.split(':')
        if code.find(mod, q) is None:
            return Result(ob, UNKNOWN, 'callee %s is not present in the tree' % q)
    try:
        T.reset_budget()
        C = summarise(code, cfn, boundaries=bs, types=types, rename=ren, bind_defaults=bound, known=ref.attrs,
                      ifaces={b: ref.ifaces[b] for b in bs if b in ref.ifaces})
    except (Unsupported, TooComplex) as e:
        return Result(ob, UNKNOWN, 'not analysable: %s' % (str(e) or 'too complex'))
    except RecursionError:
        return Result(ob, UNKNOWN, 'not analysable: too deep')
    except Exception as e:       # a call shape the library model does not expect
        return Result(ob, UNKNOWN, 'not analysable: %s %s' % (type(e).__name__, e))
    def lost():
        """the functions looked at differ from the reference only by what is missing"""
        seen = False
        for f in set(S.visited) | set(C.visited) | {ob.full}:
            mod, q = f.split(':')
            a, b = ref.prog.find(mod, q), code.find(mod, q)
            if a is None or b is None:
                return False
            e = embed.only_removed(a.node, b.node)
            if e is False:
                return False
            seen = seen or e
        return seen

    kw = {} if samples is None else {'samples': samples}
    v, checked = CMP.compare(S, C, ref.attrs, select=ob.select, allow=lambda: ref.names(code, set(S.visited) | {ob.full}), **kw)
    if v.kind in ('EQUAL', 'AGREE'):
        r = Result(ob, OK, v.why, checked=checked, visited=C.visited, sites=C.sites)
    elif v.kind == 'DIFFERENT':
        r = Result(ob, BAD, v.why, CMP.obs_name(v.obs), v.src or (cfn.module.rel, cfn.node.lineno), checked, C.visited, C.sites)
        gone, extra = S.called - C.called, C.called - S.called
        if gone and not getattr(v, 'shrunk', False):
            # perhaps its body moved here: compare again with it expanded on both sides
            rest = [b for b in bs if b not in gone]
            if lost():
                r.kind = v.kind
                return r
            if len(rest) < len(bs):
                q = one(ref, code, ob, sfn, cfn, rest, types, ren, bound, samples)
                if q.status in (OK, BAD):
                    return q
            r.status = UNKNOWN
            r.why = 'calls replaced: %s; %s' % (', '.join(sorted(x.split(':')[1] for x in gone)), r.why)
    elif v.obs is not None and lost():
        r = Result(ob, BAD, 'removed without replacement; %s' % v.why, CMP.obs_name(v.obs), v.src or (cfn.module.rel, cfn.node.lineno),
                   checked, C.visited, C.sites)
    else:
        r = Result(ob, UNKNOWN, v.why, CMP.obs_name(v.obs) if v.obs is not None else None, v.src, checked, C.visited, C.sites)
    r.kind = v.kind
    r.config = 'callees summarised by interface: %d' % len(bs) if bs else 'callees inlined'
    return r
