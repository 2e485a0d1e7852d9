"""Rewrite the reference model from a reviewed tree: sources without comments and docstrings."""
import ast
import os
import shutil
import sys


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and \
                    isinstance(b[0].value.value, str):
                n.body = b[1:] or [ast.Pass()]
    return tree


def main(src, dst):
    for d, dirs, files in os.walk(os.path.join(src, "arti")):
        dirs[:] = [x for x in dirs if x not in ("__pycache__",)]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                q = os.path.join(dst, os.path.relpath(p, src))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(p) as fh:
                    t = strip(ast.parse(fh.read()))
                with open(q, "w") as fh:
                    fh.write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
