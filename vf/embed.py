"""Is one function body another with parts removed and nothing put in their place?

Homeomorphic embedding of syntax trees: `small` embeds in `big` when it can be obtained from it by deleting statements,
operands, arguments and wrapping expressions.  Used when two value graphs are told apart by an interpretation but differ in
their loops or vocabulary: if the code only lost something, the difference cannot be a rewriting of it.
"""
import ast

SKIP = {'ctx', 'type_comment', 'lineno', 'col_offset', 'end_lineno', 'end_col_offset', 'kind', 'type_ignores', 'type_params'}


def body(fn):
    b = list(fn.body)
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return [s for s in b if not isinstance(s, ast.Pass)]


class Embed:
    def __init__(self):
        self.memo = {}

    def tree(self, t, r):
        if isinstance(t, ast.Pass):
            return True
        k = (id(t), id(r))
        v = self.memo.get(k)
        if v is None:
            self.memo[k] = False
            v = self.memo[k] = self.couple(t, r) or self.dive(t, r)
        return v

    def dive(self, t, r):
        if isinstance(t, ast.stmt) != isinstance(r, ast.stmt) and isinstance(r, ast.expr) and isinstance(t, ast.stmt):
            return False
        for f, v in ast.iter_fields(r):
            if f in SKIP:
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST) and isinstance(t, ast.stmt) == isinstance(c, ast.stmt) and self.tree(t, c):
                    return True
        return False

    def couple(self, t, r):
        if type(t) is not type(r):
            return False
        for f in t._fields:
            if f in SKIP:
                continue
            a, b = getattr(t, f, None), getattr(r, f, None)
            if isinstance(a, list):
                if not isinstance(b, list) or not self.seq(a, b):
                    return False
            elif isinstance(a, ast.AST):
                if not isinstance(b, ast.AST) or not self.tree(a, b):
                    return False
            elif a is None:
                continue
            elif a != b:
                return False
        return True

    def seq(self, a, b):
        a = [x for x in a if not isinstance(x, ast.Pass)]
        i = 0
        for x in a:
            while i < len(b):
                y = b[i]
                i += 1
                if isinstance(x, ast.AST) and isinstance(y, ast.AST):
                    if self.tree(x, y):
                        break
                elif x == y:
                    break
            else:
                return False
        return True


def only_removed(big, small):
    """functions: does `small` embed in `big`, without being equal to it"""
    a, b = body(small), body(big)
    if [ast.dump(x) for x in a] == [ast.dump(x) for x in b]:
        return None
    return Embed().seq(a, b)
