"""Mechanical extraction: parse the current sources under /repo and index the definitions.

What the extraction drops: docstrings, type annotations (except where a registration is
keyed by one), `functools.wraps` metadata copying, `typing.cast` and overload stubs.
Nothing is rewritten: the AST that is executed symbolically is the AST of the file.
"""
import ast
import hashlib
import os

REPO = os.environ.get("PYVC_REPO", "/repo")


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.defs = {}  # name -> list of nodes binding it at top level (in order)
        self.registrations = []  # (base expr node, type expr node or None, FunctionDef/ClassDef)
        self._index(self.tree.body)

    def _index(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs.setdefault(n.name, []).append(n)
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
                        if d.args:
                            self.registrations.append((d.func.value, d.args[0], n))
                    elif isinstance(d, ast.Attribute) and d.attr == "register":
                        self.registrations.append((d.value, None, n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.defs.setdefault((a.asname or a.name).split(".")[0] if isinstance(n, ast.Import) and not a.asname else (a.asname or a.name), []).append((n, a))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.defs.setdefault(x.id, []).append(n)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name):
                    self.defs.setdefault(n.target.id, []).append(n)
            elif isinstance(n, ast.TypeAlias):
                self.defs.setdefault(n.name.id, []).append(n)
            elif isinstance(n, (ast.If, ast.Try)):
                for part in ("body", "orelse", "finalbody"):
                    self._index(getattr(n, part, []))
                for hnd in getattr(n, "handlers", []):
                    self._index(hnd.body)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}

    def path_of(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def module(self, name):
        if name not in self.modules:
            p = self.path_of(name)
            self.modules[name] = Module(name, p) if p else None
        return self.modules[name]

    def is_repo(self, name):
        return name.split(".")[0] == "effectful" and self.module(name) is not None

    def lookup(self, qual):
        """'effectful.ops.types.Operation.__call__' -> (module, [nodes...]) innermost last."""
        parts = qual.split(".")
        for cut in range(len(parts), 0, -1):
            mod = ".".join(parts[:cut])
            if self.path_of(mod):
                m = self.module(mod)
                chain, body = [], None
                rest = parts[cut:]
                if not rest:
                    return m, []
                nodes = [n for n in m.defs.get(rest[0], []) if isinstance(n, ast.AST)]
                if not nodes:
                    return None
                node = nodes[-1]
                chain.append(node)
                for r in rest[1:]:
                    if r == "<locals>":
                        continue
                    found = None
                    for x in ast.walk(node) if isinstance(node, ast.FunctionDef) else getattr(node, "body", []):
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == r and x is not node:
                            found = x
                    if found is None:
                        return None
                    node = found
                    chain.append(node)
                return m, chain
        return None

    def digest(self, node):
        return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:12]
