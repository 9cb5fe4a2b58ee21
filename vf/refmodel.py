"""Reference model access: summaries, interfaces and vocabulary shared by all obligations."""
import ast
from . import embed, interp, terms as T
from .interp import Unsupported, Interface, summarise
from .terms import TooComplex


# classes of parameters, by the name the package uses for them
PARAM_TYPES = {
    'data': 'DataStructure', 'parameters': 'ModelParameters', 'covariance': 'CovarianceProcedures',
    'options': 'SimulationOptions', 'model_settings': 'ModelSettings', 'model': 'ModelSettings',
    'theta_object': 'ParameterSet',
}


def attrs_of(prog, skip=None):
    s = set()
    for m in prog.modules.values():
        if m.name == skip:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
        for c in m.classes.values():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr.startswith('__') and not n.attr.endswith('__'):
                    s.add(c.mangle(n.attr))
    return s


class Reference:
    def __init__(self, prog):
        self.prog = prog
        self.attrs = attrs_of(prog)
        self.own = attrs_of(prog, skip='scenarios')
        self.ifaces = {}
        self.sums = {}
        self.funs = set()
        for m in prog.modules.values():
            for f in list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
                self.funs.add(f.full)

    def summary(self, fn, boundaries, types):
        k = (fn.full, tuple(sorted(boundaries)), tuple(sorted((types or {}).items())))
        if k not in self.sums:
            self.need(boundaries, types)
            try:
                self.sums[k] = summarise(self.prog, fn, boundaries=boundaries, types=types,
                                         ifaces={b: self.ifaces[b] for b in boundaries if b in self.ifaces})
            except (Unsupported, TooComplex) as e:
                self.sums[k] = e
        r = self.sums[k]
        if isinstance(r, Exception):
            raise r
        return r

    def names(self, code, fulls):
        """operations named in the reference version of the functions that were changed"""
        out = set()
        for f in fulls:
            mod, q = f.split(':')
            a, b = self.prog.find(mod, q), code.find(mod, q)
            if a is None or (b is not None and [ast.dump(x) for x in embed.body(a.node)] == [ast.dump(x) for x in embed.body(b.node)]):
                continue
            for n in ast.walk(a.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Name):
                    out.add(n.id)
        return out

    def need(self, boundaries, types):
        """interfaces of the summarised callees, in the given order (later ones may use earlier ones)"""
        for i, b in enumerate(boundaries):
            if b in self.ifaces:
                continue
            mod, qual = b.split(':')
            fn = self.prog.find(mod, qual)
            if fn is None:
                raise Unsupported('reference has no %s' % b)
            if i and b in HEAVY:
                S = self.summary(fn, boundaries[:i], types)
            else:
                S = self.summary(fn, (), types)
            self.ifaces[b] = Interface(fn, S)


# functions that are only analysed with their callees summarised
HEAVY = {'pymcmcstat.MCMC:MCMC.' + x for x in ('_initialize_simulation', '__setup_simulator', '__execute_simulator',
                                               'run_simulation')}
