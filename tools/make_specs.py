"""(Re)write the reference model from a reviewed tree: docstrings and comments are dropped, everything else is kept.

Usage: python3 tools/make_specs.py /repo /verif/specs
Run by hand after a reviewed change of intended behaviour; no check runs it.
"""
import ast
import os
import sys


class Strip(ast.NodeTransformer):
    def strip(self, n):
        self.generic_visit(n)
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
        return n
    visit_FunctionDef = visit_ClassDef = visit_Module = strip


def main(src, dst):
    base = os.path.join(src, 'pymcmcstat')
    for d, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            tree = Strip().visit(ast.parse(open(p, encoding='utf-8').read()))
            out = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            text = ast.unparse(ast.fix_missing_locations(tree))
            with open(out, 'w', encoding='utf-8') as h:
                h.write('' if text.strip() == 'pass' else text + '\n')


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
