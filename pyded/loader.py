"""Loads the ASTs that dump_ast.py extracts (mechanically, on every run) from the source tree under verification."""
import hashlib
import json
import os
import subprocess
import tempfile

JYTHON = "/usr/bin/jython"


class Node(object):
    def __init__(self, t, fields):
        self.t = t
        self.lineno = 0
        self.col = 0
        self.__dict__.update(fields)

    def __repr__(self):
        return "<%s@%s>" % (self.t, self.lineno)


class Const(object):
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def conv(d):
    if isinstance(d, dict):
        if "_c" in d:
            return Const(d["_c"], d["v"])
        if "_error" in d:
            raise SyntaxError(d["_error"])
        t = d.pop("_t")
        return Node(t, {k: conv(v) for k, v in d.items()})
    if isinstance(d, list):
        return [conv(x) for x in d]
    if isinstance(d, Const):
        return d
    return d


def strs(node):
    """Identifiers come as Const strings; turn those in name positions into str."""
    names = ("name", "id", "attr", "module", "asname", "arg", "vararg", "kwarg")
    if isinstance(node, Node):
        for k, v in list(node.__dict__.items()):
            if isinstance(v, Const) and k in names and v.kind in ("str", "ustr"):
                setattr(node, k, v.v)
            elif k == "names" and isinstance(v, list):
                setattr(node, k, [x.v if isinstance(x, Const) else strs(x) for x in v])
            elif k == "level" and isinstance(v, Const):
                node.level = int(v.v)
            elif k in ("lineno", "col") and isinstance(v, Const):
                setattr(node, k, int(v.v))
            elif isinstance(v, (Node, list)):
                strs(v)
    elif isinstance(node, list):
        for x in node:
            strs(x)
    return node


def source_files(root):
    out = []
    for top, dirs, names in os.walk(os.path.join(root, "txstatsd")):
        dirs[:] = sorted(d for d in dirs if d != "tests" and not d.startswith("."))
        for n in sorted(names):
            if n.endswith(".py"):
                out.append(os.path.relpath(os.path.join(top, n), root))
    plug = os.path.join(root, "twisted", "plugins")
    if os.path.isdir(plug):
        out += ["twisted/plugins/" + n for n in sorted(os.listdir(plug)) if n.endswith(".py")]
    return out


class Source(object):
    """The parsed source tree: module name -> Module node."""

    def __init__(self, root):
        self.root = root
        files = source_files(root)
        fd, out = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                       JYTHONPATH="/opt/jy/compat")
            p = subprocess.run([JYTHON, os.path.join(os.path.dirname(os.path.abspath(__file__)), "dump_ast.py"),
                                root, out] + files, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=300)
            with open(out) as f:
                data = json.load(f)
        except ValueError:
            raise RuntimeError("AST extraction failed: %s" % p.stdout.decode("latin-1")[-2000:])
        finally:
            os.unlink(out)
        self.modules = {}
        self.files = {}
        self.errors = {}
        self.sha = {}
        for rel, d in data.items():
            name = rel[:-3].replace("/", ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            self.files[name] = rel
            with open(os.path.join(root, rel), "rb") as f:
                self.sha[rel] = hashlib.sha256(f.read()).hexdigest()
            if "_error" in d:
                self.errors[name] = d["_error"]
                continue
            self.modules[name] = strs(conv(d))
