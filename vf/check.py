"""Command line: python3 -m vf.check C01 [--tier quick|thorough] [--repo /repo]"""
import argparse
import ast
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from .program import Program                                  # noqa: E402
from . import compare, embed, refmodel, engine, table, rules, terms as T      # noqa: E402
from .engine import OK, BAD, UNKNOWN, MISSING                 # noqa: E402

ASSUME = [
    'numpy, scipy, matplotlib, json, h5py and os functions are uninterpreted functions of their arguments, up to the algebraic '
    'laws listed in vf/ops.py and vf/terms.py',
    'arithmetic is over the reals: rewriting that is exact over the reals is taken as equivalent',
    'attribute and item access on user objects has no side effects; user callbacks are deterministic functions of their '
    'arguments and of the order of calls',
]


def known_findings():
    with open(os.path.join(HERE, 'known_findings.json')) as h:
        return json.load(h)


def intended_program(spec, findings):
    """the reference with the recorded defects repaired"""
    over = {}
    for k in findings:
        mod, q = k['function'].split(':')
        m = spec.modules[mod]
        tree = ast.parse(over.get(m.rel, m.text))
        new = ast.parse(k['intended']).body[0]
        cls, name = q.split('.') if '.' in q else (None, q)
        body = tree.body
        if cls:
            body = next(b for b in tree.body if isinstance(b, ast.ClassDef) and b.name == cls).body
        for i, b in enumerate(body):
            if isinstance(b, ast.FunctionDef) and b.name == name:
                body[i] = new
        over[m.rel] = ast.unparse(ast.fix_missing_locations(tree))
    p = spec
    for rel, text in over.items():
        p = p.variant(rel, text)
    return p


class Checker:
    def __init__(self, repo, samples=None):
        with open(os.path.join(HERE, 'scenarios', 'scenarios.py')) as h:
            scen = h.read()
        self.spec = Program(os.path.join(HERE, 'specs')).extended('scenarios', 'scenarios.py', scen)
        self.ref = refmodel.Reference(self.spec)
        self.code = Program(repo).extended('scenarios', 'scenarios.py', scen)
        self.samples = samples
        self.findings = known_findings()['known']
        self.alt = None
        self.memo = {}

    def alternative(self):
        if self.alt is None and self.findings:
            self.alt = refmodel.Reference(intended_program(self.spec, self.findings))
        return self.alt

    def decide(self, ob):
        r = self.memo.get(ob.full)
        if r is None:
            try:
                r = engine.decide(self.ref, self.code, ob, self.samples)
            except Exception as e:      # no answer for this function; the others still count
                r = engine.Result(ob, UNKNOWN, 'comparison failed: %s %s' % (type(e).__name__, str(e)[:200]))
            if r.status == BAD and self.alternative() is not None:
                a = engine.decide(self.alt, self.code, ob, self.samples)
                if a.status == OK:
                    r = a
            self.memo[ob.full] = r
        return r

    def in_sequence(self, ob, r):
        """a changed function that matches the reference only up to the assumptions about lengths and the like is not
        held against it where those assumptions are not visible"""
        diff = {f for f in r.visited if changed(self.spec, self.code, f)}
        for o in table.everything():
            if o.module == 'scenarios':
                continue
            if o.full in diff or diff & self.reaches(o):
                q = self.decide(o)
                if q.status == OK and getattr(q, 'kind', '') == 'AGREE':
                    u = engine.Result(ob, UNKNOWN, '%s agrees with the reference under assumptions only; %s' % (o.qual, r.why), r.obs, r.src,
                                      r.checked, r.visited, r.sites)
                    return u
        return r

    def reaches(self, o):
        try:
            S = self.ref.summary(self.spec.find(o.module, o.qual), (o.boundaries or [()])[0], refmodel.PARAM_TYPES)
        except Exception:
            return set()
        return set(S.visited)

    def judged(self, ob):
        """a private helper that changed is judged through the functions that use it, when all of those are decided"""
        r = self.decide(ob)
        if r.status == BAD and ob.module == 'scenarios':
            return self.in_sequence(ob, r)
        if r.status != BAD or engine.public(ob.qual):
            return r
        callers = []
        for o in table.everything():
            if o.full == ob.full:
                continue
            sfn = self.spec.find(o.module, o.qual)
            bs = (o.boundaries or [()])[0]
            try:
                S = self.ref.summary(sfn, bs, refmodel.PARAM_TYPES)
            except Exception:
                continue
            if ob.full in S.visited:
                callers.append(o)
        if callers and all(self.decide(o).status == OK and getattr(self.decide(o), 'kind', '') == 'EQUAL' for o in callers):
            q = engine.Result(ob, OK, 'helper changed; every function that uses it is unchanged', checked=r.checked,
                              visited=r.visited)
            q.kind = 'CALLERS'
            return q
        return r


def changed(spec, code, full):
    mod, q = full.split(':')
    a, b = spec.find(mod, q), code.find(mod, q)
    return a is None or b is None or [ast.dump(x) for x in embed.body(a.node)] != [ast.dump(x) for x in embed.body(b.node)]


def digest(code, fulls):
    h = hashlib.sha256()
    for f in sorted(fulls):
        mod, q = f.split(':')
        fn = code.find(mod, q)
        if fn is not None:
            h.update(ast.dump(fn.node).encode())
    return h.hexdigest()[:16]


def run(prop, tier, repo, seed):
    t0 = time.time()
    compare.DEADLINE[0] = t0 + 300
    ck = Checker(repo, samples=None if tier == 'quick' else 400)
    obs = table.obligations(prop)
    res = [ck.judged(o) for o in obs]
    viol = []
    for r in res:
        if r.status == BAD:
            viol.append(dict(rule='behaviour', function=r.ob.full, observable=r.obs or '',
                             file=r.src[0] if r.src else '', line=r.src[1] if r.src else 0, what=r.why))
    # rules
    rstats = []
    for name, fn in RULES.get(prop, ()):
        out, units, und = fn(ck.code)
        if units < MIN_UNITS.get(name, 1):
            print('analysis broken: rule %s matched %d sites, expected at least %d' % (name, units, MIN_UNITS.get(name, 1)))
            return 2
        rstats.append(dict(rule=name, sites=units, undecided=len(und)))
        viol.extend(out)
    # recorded defects
    known = []
    for k in ck.findings:
        if k['property'] != prop:
            continue
        mod, q = k['function'].split(':')
        o = engine.Obligation(mod, q)
        if engine.decide(ck.alternative(), ck.code, o).status != OK and ck.decide(o).status == OK:
            known.append(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    hold = [r for r in res if r.status == OK]
    und = [r for r in res if r.status in (UNKNOWN, MISSING)]
    if not hold and not viol:
        print('analysis broken: none of the %d anchors of %s could be analysed' % (len(res), prop))
        for r in und[:10]:
            print('  ' + r.line()[:300])
        return 2
    visited = set()
    for r in res:
        visited |= set(r.visited)
    kinds = {}
    for r in hold:
        kinds[getattr(r, 'kind', '')] = kinds.get(getattr(r, 'kind', ''), 0) + 1
    cov = dict(
        obligations=len(res), discharged=len(hold), undecided=len(und),
        functions_analysed=len(visited), observables_compared=sum(r.checked for r in res),
        call_sites=sum(r.sites for r in res), by_verdict=kinds, rules=rstats, source_digest=digest(ck.code, [o.full for o in obs]),
        samples=[dict(function=r.ob.full, verdict=getattr(r, 'kind', r.status), observables=r.checked, mode=r.config) for r in res[:6]],
        undecided_functions=[dict(function=r.ob.full, why=r.why[:200]) for r in und],
        explanation='Each obligation compares the value graph (returned value, raise condition, final value of every object '
                    'reachable from the arguments, random stream, file and callback effects) of one function of the current '
                    'source, callees expanded, with that of the reference model; a difference that some interpretation of the '
                    'uninterpreted operations confirms is a violation, a function that cannot be decided is listed under '
                    'undecided_functions and raises nothing.')
    if tier == 'thorough':
        from . import sensitivity
        cov['sensitivity'] = sensitivity.audit(ck, obs, seed, deadline=t0 + 600)
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if viol:
        rp = os.path.join(HERE, 'evidence', '%s.violations.json' % prop)
        with open(rp, 'w') as h:
            json.dump(viol, h, indent=1)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violations (%.1f s)' %
          (prop, len(res), len(hold), len(und), len(viol), time.time() - t0))
    for r in und:
        print('  undecided: %s: %s' % (r.ob.full, r.why[:160]))
    if viol:
        for v in viol[:20]:
            print('  %s %s:%s %s [%s] %s' % (v['rule'], v['file'], v['line'], v['function'], v.get('observable', ''), v['what'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


RULES = {
    'C14': [('argument-preservation', lambda c: rules.argument_preservation(c, 'C14'))],
    'C15': [('random-discipline', rules.random_discipline)],
}
MIN_UNITS = {'argument-preservation': 40, 'random-discipline': 10}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(20000)
    if a.property == 'all':
        return max(run(p, a.tier, a.repo, seed) for p in sorted(table.TABLE))
    return run(a.property, a.tier, a.repo, seed)


if __name__ == '__main__':
    sys.exit(main())
