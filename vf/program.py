"""Loading and resolving the package: modules, classes, functions, imports.

Only parses source text; nothing from the analysed tree is imported or run.
"""
import ast
import os

PKG = 'pymcmcstat'

CANON_MODULES = {
    'numpy': 'np', 'numpy.random': 'np.random', 'numpy.linalg': 'np.linalg', 'numpy.matlib': 'np.matlib',
    'matplotlib.pyplot': 'plt', 'math': 'math', 'scipy': 'scipy',
}


class Fn:
    def __init__(self, node, module, cls, name):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name
        self.closure = None
        self.kind = 'function' if cls is None else 'method'
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                self.kind = d.id
        self._mut = None
        self._flows = None
        self._locals = None

    @property
    def qual(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.name, self.name)
        return self.name

    @property
    def full(self):
        return self.module.name + ':' + self.qual

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def mutated_names(self):
        """local names that are targets of in-place updates (x[..]=, x[..]+=, x.append ...)"""
        if self._mut is None:
            s = set()
            for n in ast.walk(self.node):
                t = None
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        for q in ast.walk(t):
                            if isinstance(q, ast.Subscript) and isinstance(q.value, ast.Name):
                                s.add(q.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in MUTATORS:
                    s.add(n.func.value.id)
            self._mut = s
        return self._mut

    def flows(self):
        """(target, source) copies between names and attributes; (callee name, position or keyword, argument)"""
        if self._flows is None:
            copies, calls = [], []
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        prs = [(t, n.value)]
                        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                            prs = list(zip(t.elts, n.value.elts))
                        for a, b in prs:
                            for x in _leafs(a):
                                for y in _leafs(b):
                                    copies.append((x, y))
                elif isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if nm is None:
                        continue
                    if nm.startswith('__') and not nm.endswith('__'):
                        pass
                    for i, x in enumerate(n.args):
                        for y in _leafs(x):
                            calls.append((nm, i, y))
                    for k in n.keywords:
                        if k.arg:
                            for y in _leafs(k.value):
                                calls.append((nm, k.arg, y))
            self._flows = (copies, calls)
        return self._flows


def _leafs(e):
    if isinstance(e, ast.Name):
        yield ('n', e.id)
    elif isinstance(e, ast.Attribute):
        yield ('a', e.attr)
    elif isinstance(e, ast.IfExp):
        yield from _leafs(e.body)
        yield from _leafs(e.orelse)
    elif isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from _leafs(v)


MUTATORS = {'append', 'extend', 'sort', 'pop', 'update', 'insert', 'remove', 'clear', 'reverse', 'fill', 'setdefault',
            'resize', 'popitem', 'itemset', 'put'}


class Cls:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.bases = []
        self.consts = {}
        for b in node.body:
            if isinstance(b, (ast.FunctionDef,)):
                self.methods[b.name] = Fn(b, module, self, b.name)
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                self.consts[b.targets[0].id] = b.value
        self.attr_types = {}

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            return '_' + self.name.lstrip('_') + name
        return name

    def find(self, prog, name):
        m = self.methods.get(name)
        if m is None:
            for k, v in self.methods.items():
                if self.mangle(k) == name:
                    m = v
                    break
        if m is None:
            for b in self.bases:
                c = self.module.resolve_class(prog, b)
                if c is not None and c is not self:
                    m = c.find(prog, name)
                    if m is not None:
                        return m
        return m


class Module:
    def __init__(self, name, path, rel, text):
        self.name = name
        self.path = path
        self.rel = rel
        self.text = text
        self.tree = ast.parse(text, filename=path)
        self.functions = {}
        self.classes = {}
        self.imports = {}       # alias -> ('mod', fullname) | ('from', module, name)
        self.consts = {}
        self._scan(self.tree.body)

    def _pkg(self):
        return self.name.rsplit('.', 1)[0] if not self.path.endswith('__init__.py') else self.name

    def _scan(self, body):
        for b in body:
            if isinstance(b, ast.FunctionDef):
                self.functions[b.name] = Fn(b, self, None, b.name)
            elif isinstance(b, ast.ClassDef):
                c = Cls(b, self)
                c.bases = [x for x in b.bases]
                self.classes[b.name] = c
            elif isinstance(b, ast.Import):
                for a in b.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(b, ast.ImportFrom):
                base = b.module or ''
                if b.level:
                    parts = self._pkg().split('.')
                    parts = parts[:len(parts) - (b.level - 1)] if b.level > 1 else parts
                    base = '.'.join(parts + ([b.module] if b.module else []))
                for a in b.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = b.value
            elif isinstance(b, (ast.Try,)):
                self._scan(b.body)
            elif isinstance(b, ast.If):
                self._scan(b.body)

    def resolve_class(self, prog, expr):
        if isinstance(expr, ast.Name):
            r = prog.lookup(self, expr.id)
            if isinstance(r, Cls):
                return r
        return None


class Program:
    """All modules below root/pymcmcstat."""

    def __init__(self, root, overlay=None):
        self.root = root
        self.modules = {}
        base = os.path.join(root, PKG)
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            if os.path.basename(d) in ('__pycache__', 'tests'):
                continue
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if overlay and rel in overlay:
                    text = overlay[rel]
                else:
                    with open(path, encoding='utf-8') as h:
                        text = h.read()
                self.modules[name] = Module(name, path, rel, text)
        self._infer_attr_types()
        self._mutation_closure()

    def variant(self, rel, text):
        """the same program with one file replaced"""
        p = Program.__new__(Program)
        p.root = self.root
        p.modules = {}
        for name, m in self.modules.items():
            p.modules[name] = Module(name, m.path, m.rel, text) if m.rel == rel else m
        p._infer_attr_types()
        p._mutation_closure()
        return p

    def extended(self, name, rel, text):
        """the same program with one more module"""
        p = Program.__new__(Program)
        p.root = self.root
        p.modules = dict(self.modules)
        p.modules[name] = Module(name, rel, rel, text)
        p._infer_attr_types()
        p._mutation_closure()
        return p

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def mutated(self, fn):
        r = self._mutnames.get(fn)
        return r if r is not None else fn.mutated_names()

    def _mutation_closure(self):
        """names and attributes whose object is updated in place, directly, through an alias or by a callee"""
        self.mut_attrs = self._mutated_attrs()
        self._mutnames = {}
        facts = {}
        byname = {}
        for f in self.all_functions():
            self._mutnames[f] = set(f.mutated_names())
            facts[f] = f.flows()
            byname.setdefault(f.name, []).append(f)
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            mp = {}
            for n, fs in byname.items():
                for f in fs:
                    ps = f.params()
                    hit = [p for p in ps if p in self._mutnames[f]]
                    if hit:
                        off = 1 if f.cls is not None and f.kind in ('method', 'classmethod') else 0
                        d = mp.setdefault(n, set())
                        for p in hit:
                            d.add(p)
                            d.add(ps.index(p) - off)
            for f, (copies, calls) in facts.items():
                mn = self._mutnames[f]
                for tgt, src in copies:
                    hot = tgt[1] in mn if tgt[0] == 'n' else tgt[1] in self.mut_attrs
                    if hot:
                        changed |= self._hot(mn, src)
                for name, pos, arg in calls:
                    if name in mp and pos in mp[name]:
                        changed |= self._hot(mn, arg)

    def _hot(self, mn, x):
        s = mn if x[0] == 'n' else self.mut_attrs
        if x[1] in s:
            return False
        s.add(x[1])
        return True

    def _mutated_attrs(self):
        s = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for q in ast.walk(t):
                            if isinstance(q, ast.Subscript) and isinstance(q.value, ast.Attribute):
                                s.add(q.value.attr)
        return s

    def _infer_attr_types(self):
        for m in self.modules.values():
            for c in m.classes.values():
                seen = {}
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            t = n.targets[0]
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                k = None
                                if isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
                                    r = self.resolve_expr(m, n.value.func)
                                    if isinstance(r, Cls):
                                        k = r
                                seen.setdefault(c.mangle(t.attr), set()).add(k)
                for a, ks in seen.items():
                    ks = {k for k in ks if k is not None}
                    if len(ks) == 1:
                        c.attr_types[a] = next(iter(ks))

    def lookup(self, module, name):
        """resolve a global name: Fn | Cls | ('module', fullname) | ('ext', dotted) | ('const', module, ast) | None"""
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'mod':
                return ('module', imp[1])
            _, base, nm = imp
            full = base + '.' + nm
            if full in self.modules:
                return ('module', full)
            if base in self.modules:
                r = self.lookup(self.modules[base], nm)
                if r is not None:
                    return r
            return ('ext', full)
        if name in module.consts:
            return ('const', module, module.consts[name])
        return None

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            return self.member(b, e.attr)
        return None

    def member(self, b, attr):
        if isinstance(b, tuple) and b[0] == 'module':
            full = b[1] + '.' + attr
            if full in self.modules:
                return ('module', full)
            if b[1] in self.modules:
                r = self.lookup(self.modules[b[1]], attr)
                if r is not None:
                    return r
                return ('ext', full)
            return ('ext', full)
        if isinstance(b, tuple) and b[0] == 'ext':
            return ('ext', b[1] + '.' + attr)
        return None

    def find(self, modname, qual):
        m = self.modules.get(modname)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.', 1)
            k = m.classes.get(c)
            if k is None:
                k = self.lookup(m, c)
            if not isinstance(k, Cls):
                return None
            return k.find(self, f)
        r = m.functions.get(qual)
        if r is None:
            r = self.lookup(m, qual)
        return r if isinstance(r, Fn) else None


def canon_ext(dotted):
    """canonical spelling of an external callable"""
    for full, short in (('numpy.matlib.', 'np.'), ('numpy.random.', 'np.random.'), ('numpy.linalg.linalg.', 'np.linalg.'),
                        ('numpy.linalg.', 'np.linalg.'), ('numpy.', 'np.'), ('matplotlib.pyplot.', 'plt.'),
                        ('pylab.', 'plt.')):
        if dotted.startswith(full):
            return short + dotted[len(full):]
    return dotted
