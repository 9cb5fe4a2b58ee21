"""Thorough tier: positive controls.  Each anchored function is varied in memory (an operator, constant, statement or
argument changed) and the obligation is decided again on the varied source.  Nothing is run; the counts show how much of
the function the obligation is sensitive to."""
import ast
import random
import time
from . import engine, mutants, terms as T
from .interp import Unsupported
from .engine import BAD


def audit(ck, obs, seed, deadline, per=12):
    rnd = random.Random(seed)
    tot = dict(variants=0, reported=0, kept_quiet=0, functions=0, blind=[])
    for o in obs:
        if time.time() > deadline:
            tot['stopped_early'] = True
            break
        fn = ck.code.find(o.module, o.qual)
        if fn is None:
            continue
        m = fn.module
        tree = ast.parse(m.text)
        node = next((n for q, n in mutants.fn_nodes(tree) if q == fn.qual), None)
        if node is None:
            continue
        muts = list(mutants.mutations(node))
        rnd.shuffle(muts)
        n = hit = 0
        for desc, act in muts[:per]:
            undo = act()
            try:
                text = ast.unparse(tree)
            finally:
                undo()
            try:
                v = ck.code.variant(m.rel, text)
                r = engine.decide(ck.ref, v, o)
            except (Unsupported, T.TooComplex, RecursionError, SyntaxError):
                continue
            n += 1
            hit += r.status == BAD
            if time.time() > deadline:
                break
        tot['functions'] += 1
        tot['variants'] += n
        tot['reported'] += hit
        if n >= 3 and not hit:
            tot['blind'].append(o.full)
    tot['kept_quiet'] = tot['variants'] - tot['reported']
    return tot
