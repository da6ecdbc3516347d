"""Source of the analysed tree: parsed once per run from the working tree."""
import ast
import os


class Src:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src


class Project:
    def __init__(self, root, pkg="CADMium", extra=None):
        self.root, self.pkg = root, pkg
        self.cache = {}
        self.broken = {}
        self.extra = dict(extra or {})      # module name -> path

    def rel(self, path):
        r = os.path.relpath(path, self.root)
        return r if not r.startswith("..") else os.path.basename(path)

    def find(self, name):
        if name in self.extra:
            return self.extra[name]
        if name != self.pkg and not name.startswith(self.pkg + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return base
        return None

    def module(self, name):
        if name in self.cache:
            return self.cache[name]
        p = self.find(name)
        s = None
        if p is not None:
            if os.path.isdir(p):
                s = Src(name, os.path.join(p, "__init__.py"), ast.parse(""), "")
            else:
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                try:
                    s = Src(name, p, ast.parse(src, p), src)
                except SyntaxError as e:
                    self.broken[name] = (p, e.lineno, e.msg)
                    s = Src(name, p, ast.parse("raise SyntaxError"), src)
        self.cache[name] = s
        return s

    def modules(self):
        out = []
        for d, dirs, files in os.walk(os.path.join(self.root, self.pkg)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests", "examples"))
            for f in sorted(files):
                if f.endswith(".py") and f != "_version.py":
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    if n.endswith(".__init__"):
                        n = n[:-9]
                    out.append((n, p))
        return out

    def stored_names(self):
        """attribute names that some statement of the project stores (or declares as a class field)"""
        if not hasattr(self, "_stored"):
            out = set()
            for n, p in self.modules():
                for x in ast.walk(self.module(n).tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
                    elif isinstance(x, ast.ClassDef):
                        for b in x.body:
                            for t in ([b.target] if isinstance(b, ast.AnnAssign) else b.targets if isinstance(b, ast.Assign) else []):
                                if isinstance(t, ast.Name):
                                    out.add(t.id)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                        if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                            out.add(x.args[1].value)
                        else:
                            out.add("*")
            self._stored = out
        return self._stored

    def find_class(self, cname):
        """module name defining class cname (outside tests)"""
        hits = []
        for n, p in self.modules():
            s = self.module(n)
            for x in s.tree.body:
                if isinstance(x, ast.ClassDef) and x.name == cname:
                    hits.append(n)
        return hits

    def find_func(self, fname):
        hits = []
        for n, p in self.modules():
            s = self.module(n)
            for x in s.tree.body:
                if isinstance(x, ast.FunctionDef) and x.name == fname:
                    hits.append(n)
        return hits
