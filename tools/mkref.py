#!/usr/bin/env python3
"""Draft reference definitions from the current source: mkref.py RULE path.py [Class.method|Class|func ...]; the draft is then edited by hand against the documentation."""
import ast
import sys
from pathlib import Path

rule, path, *names = sys.argv[1:]
tree = ast.parse((Path(__import__("os").environ.get("LCX_REPO", "/repo") + "/src/lightcurvelynx") / path).read_text())


class Clean(ast.NodeTransformer):
    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            n.exc = n.exc.func
        n.cause = None
        return n

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        if self.depth:
            n.decorator_list = []
            return n
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        setter = any("setter" in ast.unparse(d) for d in n.decorator_list)
        n.decorator_list = [ast.parse(f"ref{'.setter' if setter else ''}('{rule}')").body[0].value]
        n.returns = None
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        n.body = n.body or [ast.Pass()]
        return n

    def visit_Expr(self, n):
        s = ast.unparse(n)
        return None if s.startswith(("logger.", "logging.", "print(", "warnings.")) else n


for n in tree.body:
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        print(ast.unparse(n))
for n in tree.body:
    if isinstance(n, ast.FunctionDef) and (not names or n.name in names):
        print("\n\n" + ast.unparse(Clean().visit(n)))
    if isinstance(n, ast.ClassDef):
        ms = [m for m in n.body if isinstance(m, ast.FunctionDef) and (not names or n.name in names or f"{n.name}.{m.name}" in names)]
        if ms:
            print(f"\n\nclass {n.name}:")
            for m in ms:
                print("\n".join("    " + x for x in ast.unparse(Clean().visit(m)).split("\n")) + "\n")
