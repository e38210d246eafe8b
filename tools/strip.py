"""source without docstrings: python3 tools/strip.py FILE [Class[.method] ..]"""
import ast, sys
t = ast.parse(open("/repo/src/oemof/solph/" + sys.argv[1]).read())


class S(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) > 1 and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            n.body = n.body[1:]
        return n
    visit_ClassDef = visit_FunctionDef


t = S().visit(t)
want = sys.argv[2:]
for n in t.body:
    if not want or getattr(n, "name", "") in want:
        print(ast.unparse(n))
    elif isinstance(n, ast.ClassDef):
        for m in n.body:
            if n.name + "." + getattr(m, "name", "") in want:
                print(ast.unparse(m))
