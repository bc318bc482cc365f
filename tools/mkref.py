"""Bootstraps specs/ref (reference definitions of the Python layer) from reviewed sources:
docstrings, comments and unused imports are dropped.  Run by hand, once per reviewed
revision; the files it writes are then read and edited like every other specification."""
import ast
import os
import sys

SRC, DST = sys.argv[1], sys.argv[2]
SKIP = {'visualization.py'}


def strip(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            n.body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))]
            if not n.body and not isinstance(n, ast.Module):
                n.body = [ast.Pass()]
    return t


for dp, dn, fn in os.walk(SRC):
    dn[:] = [d for d in dn if d != '__pycache__']
    for f in sorted(fn):
        if f.endswith('.py') and f not in SKIP:
            p = os.path.join(dp, f)
            q = os.path.join(DST, os.path.relpath(p, SRC))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            out = ast.unparse(strip(ast.parse(open(p).read())))
            with open(q, 'w') as fh:
                fh.write(out + '\n' if out else '')
