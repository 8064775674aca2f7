"""Development tool: extract candidate calls from the library's docstring examples into a JSON file (not run by the checks).

usage: gen_docs.py OUT.json
Each candidate: {"env": [statements the call needs], "x": expression, "src": file:name:line}.
"""
import ast
import doctest
import json
import pathlib
import sys

ROOT = pathlib.Path("/repo/src/coordinax")
P = doctest.DocTestParser()


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def binds(st):
    out = set()
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out


def main(out):
    res = []
    seen = set()
    for f in sorted(ROOT.rglob("*.py")):
        t = ast.parse(f.read_text())
        for node in ast.walk(t):
            if not isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                continue
            d = ast.get_docstring(node)
            if not d or ">>>" not in d:
                continue
            try:
                exs = P.get_examples(d)
            except ValueError:
                continue
            hist = []
            for ex in exs:
                try:
                    body = ast.parse(ex.source).body
                except SyntaxError:
                    continue
                for st in body:
                    cands = []
                    if isinstance(st, (ast.With, ast.Try)):
                        cands = [x for x in st.body if isinstance(x, (ast.Assign, ast.Expr))]
                    elif isinstance(st, (ast.Assign, ast.Expr)):
                        cands = [st]
                    for c in cands:
                        v = c.value
                        if isinstance(v, (ast.Name, ast.Constant)):
                            continue
                        need = names(v)
                        env = []
                        for h in reversed(hist):
                            b = binds(h)
                            if b & need:
                                if isinstance(h, (ast.With,)):
                                    inner = [x for x in h.body if binds(x) & need]
                                    env.insert(0, "\n".join(ast.unparse(x) for x in inner))
                                    for x in inner:
                                        need |= names(x)
                                else:
                                    env.insert(0, ast.unparse(h))
                                    need = (need - b) | names(h)
                        key = (tuple(env), ast.unparse(v))
                        if key in seen or "print(" in key[1] or "plt" in key[1]:
                            continue
                        seen.add(key)
                        res.append({"env": env, "x": ast.unparse(v), "src": f"{f.relative_to(ROOT)}:{getattr(node, 'name', '')}"})
                    hist.append(st)
    json.dump(res, open(out, "w"), indent=0)
    print(len(res))


main(sys.argv[1])
