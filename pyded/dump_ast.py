# Runs under Jython 2.7: jython dump_ast.py ROOT OUT.json PATH...
# Parses the given files of ROOT with the parser of the Python that runs them and writes their ASTs, nothing dropped
# but the expression contexts (Load, Store, ...).
import ast
import json
import os
import sys


def conv(n):
    if isinstance(n, ast.AST):
        d = {"_t": n.__class__.__name__}
        if hasattr(n, "lineno"):
            d["lineno"] = n.lineno
            d["col"] = n.col_offset
        for f in n._fields:
            if f == "ctx":
                continue
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return {"_c": "int", "v": str(n)}
    if isinstance(n, float):
        return {"_c": "float", "v": repr(n)}
    if isinstance(n, unicode):
        return {"_c": "ustr", "v": n}
    if isinstance(n, str):
        return {"_c": "str", "v": n.decode("latin-1")}
    return {"_c": "other", "v": repr(n)}


def ident(d):
    return d


root, out = sys.argv[1], sys.argv[2]
res = {}
for rel in sys.argv[3:]:
    path = os.path.join(root, rel)
    src = open(path, "U").read()
    if not src.endswith("\n"):
        src += "\n"
    try:
        tree = compile(src, path, "exec", ast.PyCF_ONLY_AST, 1)
        res[rel] = conv(tree)
    except SyntaxError as e:
        res[rel] = {"_error": str(e)}
f = open(out, "w")
f.write(json.dumps(res))
f.close()
sys.stdout.flush()
os._exit(0)
