"""Definedness analysis: names, attributes, imports and call shapes of the whole package.

Every rule is a must-fail rule: it reports only a construct that raises whenever it is reached.
"""
import ast
import builtins
import json
import os
import symtable

from .project import Project

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__",
                                "__class__", "__qualname__", "__module__", "__annotations__", "__dict__"}


class Defs:
    """what the package defines"""

    def __init__(self, project):
        self.project = project
        self.attrs = set()
        self.words = {}             # module -> words of its string constants
        self.setters = set()        # functions (or modules) that set attributes by computed names
        self.dynamic = False
        self.funcs = {}             # function name -> [(module, node, is method, class)]
        self.classes = {}
        self.modvars = {}
        for n, p in project.modules():
            s = project.module(n)
            self.attrs.update(n.split("."))
            top = set()
            for x in ast.walk(s.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.attrs.add(x.attr)
                elif isinstance(x, ast.ClassDef):
                    self.attrs.add(x.name)
                    self.classes.setdefault(x.name, []).append((n, x))
                    for b in x.body:
                        for t in ([b.target] if isinstance(b, ast.AnnAssign) else b.targets if isinstance(b, ast.Assign) else []):
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name):
                                    self.attrs.add(y.id)
                        if isinstance(b, (ast.Import, ast.ImportFrom)):
                            for a in b.names:
                                self.attrs.add((a.asname or a.name).split(".")[0])
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.funcs.setdefault(b.name, []).append((n, b, True, x))
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.attrs.add(x.name)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars", "globals", "locals", "exec", "eval"):
                    if x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        self.attrs.add(x.args[1].value)
                    elif x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Name):
                        self.setters.add(n)     # names come from string constants, keywords or existing attributes
                    else:
                        self.dynamic = True
                elif isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__", "__getattr__"):
                    self.dynamic = True
                elif isinstance(x, ast.keyword) and x.arg:
                    self.attrs.add(x.arg)       # SimpleNamespace(a=...), namedtuple-like constructors
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 200:
                    for w in x.value.replace(",", " ").split():
                        if w.isidentifier():
                            self.words.setdefault(n, set()).add(w)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in ("__getattr__", "__getattribute__"):
                    self.dynamic = True
            for x in s.tree.body:
                top |= bound_by(x)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs.setdefault(x.name, []).append((n, x, False, None))
            self.modvars[n] = top
            self.attrs |= top
        self.by_string()

    def by_string(self):
        """names in string constants are attributes where attributes are made by name: __slots__, named tuples, setattr with a computed name"""
        inside = set()
        for n, p in self.project.modules():
            for f in functions(self.project.module(n).tree):
                f = f[0] if isinstance(f, tuple) else f
                for x in ast.walk(f):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant):
                        inside.add(f.name)
        for n, p in self.project.modules():
            t = self.project.module(n).tree
            names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)} | {
                x.arg for x in ast.walk(t) if isinstance(x, ast.keyword)}
            if n in self.setters or inside & names or names & {"__slots__", "namedtuple", "NamedTuple", "make_dataclass", "create_model", "type", "SimpleNamespace"}:
                self.attrs |= self.words.get(n, set())


def bound_by(stmt):
    out = set()
    for x in ast.walk(stmt) if not isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [stmt]:
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(x, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    return out


class Names:
    def __init__(self, root, ctx):
        self.ctx = ctx
        self.project = Project(root)
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "extern.json")) as f:
            ext = json.load(f)
        self.types = set(ext["types"])
        # methods of the functional objects of pylibxc
        self.types |= {"compute", "describe", "get_bibtex", "get_cam_coef", "get_doi", "get_ext_param_default_values", "get_ext_param_descriptions",
                       "get_family", "get_flags", "get_hyb_exx_coef", "get_kind", "get_name", "get_number", "get_references", "get_vv10_coef",
                       "set_dens_threshold", "set_ext_params", "xc_func", "xc_func_init", "LibXCFunctional"}
        self.mods = {k: set(v) for k, v in ext["modules"].items()}
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "extern_calls.json")) as f:
            self.shapes = json.load(f)
        self.defs = Defs(self.project)

    def ok(self, clause):
        self.ctx.results.append({"clause": clause, "label": clause, "verdict": "ok", "reason": ""})

    def bad(self, clause, n, q, node, what, reason):
        what = self.owner(n, q) if clause == "unbound" else what
        self.ctx.results.append({"clause": clause, "label": "%s:%s" % (n.split(".", 1)[-1], what), "verdict": "violation", "reason": reason,
                                 "at": "%s:%s (%s)" % (self.project.rel(self.project.module(n).path), getattr(node, "lineno", "?"), q),
                                 "actual": what, "expected": "something defined"})

    def owner(self, n, q):
        """the function a helper used nowhere else belongs to"""
        tree = self.project.module(n).tree
        seen = {q}
        while True:
            last = q.split(".")[-1]
            users = {g for f, g in functions(tree) if g.split(".")[-1] != last and any(
                isinstance(x, ast.Name) and x.id == last or isinstance(x, ast.Attribute) and x.attr == last for x in ast.walk(f))}
            elsewhere = any(any(isinstance(x, ast.ImportFrom) and any(a.name == last for a in x.names) for x in ast.walk(self.project.module(m).tree))
                            for m, p in self.project.modules() if m != n and m not in self.project.broken)
            if len(users) != 1 or elsewhere or users & seen:
                return q
            q = users.pop()
            seen.add(q)

    # ---- names
    def star(self, s):
        return any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(s.tree))

    def undefined(self):
        for n, p in self.project.modules():
            s = self.project.module(n)
            self.ctx.clauses += 1
            if n in self.project.broken:
                pp, line, msg = self.project.broken[n]
                self.ctx.results.append({"clause": "syntax", "label": n.split(".", 1)[-1], "verdict": "violation", "reason": "does not parse: %s" % msg,
                                         "at": "%s:%s" % (self.project.rel(pp), line), "actual": msg, "expected": "a module that parses"})
                continue
            self.ok("syntax")
            if self.star(s):
                continue
            glob = set(self.defs.modvars[n])
            for x in ast.walk(s.tree):
                if isinstance(x, ast.Global):
                    glob |= set(x.names)
            lines = {}
            for x in ast.walk(s.tree):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    lines.setdefault(x.id, x)
            self.scope(n, symtable.symtable(s.src, p, "exec"), glob, lines, "")

    def scope(self, n, t, glob, lines, q):
        for y in t.get_symbols():
            if y.is_referenced() and (y.is_global() or (t.get_type() == "module" and not y.is_assigned() and not y.is_imported()
                                                        and not y.is_namespace())):
                if y.get_name() not in glob and y.get_name() not in BUILTIN:
                    self.bad("name", n, q or "module", lines.get(y.get_name()), y.get_name(), "the name %s is bound nowhere" % y.get_name())
                else:
                    self.ok("name")
        for c in t.get_children():
            self.scope(n, c, glob, lines, (q + "." if q else "") + c.get_name())

    # ---- locals read before any assignment can have happened
    def unbound(self):
        for n, p in self.project.modules():
            if n in self.project.broken:
                continue
            for f, q in functions(self.project.module(n).tree):
                self.ctx.funcs.add((self.project.rel(p), q, f.lineno))
                args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
                args |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
                out = set()
                free = set()
                for x in own(f):
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        free |= set(x.names)
                for x in f.body:
                    out |= own_bound(x)
                self.local = out - args - free
                self.flow(n, q, f.body, set(args))

    def reads(self, n, q, expr, env):
        if expr is None:
            return
        stack = [expr]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, ast.NamedExpr):
                self.reads(n, q, x.value, env)
                env.add(x.target.id)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.local:
                if x.id not in env:
                    self.bad("unbound", n, q, x, x.id, "the local %s is read where no assignment of it can have happened" % x.id)
                    env.add(x.id)
                else:
                    self.ok("unbound")
            stack.extend(reversed(list(ast.iter_child_nodes(x))))

    def flow(self, n, q, body, env):
        """env: names possibly assigned; grows monotonically along the body"""
        for s in body:
            self.ctx.stmts.add((n, s.lineno))
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                env.add(s.name)
            elif isinstance(s, ast.If):
                self.reads(n, q, s.test, env)
                a, b = set(env), set(env)
                self.flow(n, q, s.body, a)
                self.flow(n, q, s.orelse, b)
                env |= a | b
            elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                if isinstance(s, ast.While):
                    self.reads(n, q, s.test, env)
                else:
                    self.reads(n, q, s.iter, env)
                    env |= own_bound(s.target)
                e = set(env)
                for x in s.body:
                    e |= own_bound(x)       # bound by an earlier pass
                self.flow(n, q, s.body, e)
                env |= e
                self.flow(n, q, s.orelse, env)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    self.reads(n, q, i.context_expr, env)
                    if i.optional_vars is not None:
                        env |= own_bound(i.optional_vars)
                self.flow(n, q, s.body, env)
            elif isinstance(s, ast.Match):
                self.reads(n, q, s.subject, env)
                after = set(env)
                for c in s.cases:
                    e = set(env) | own_bound(c.pattern)
                    self.reads(n, q, c.guard, e)
                    self.flow(n, q, c.body, e)
                    after |= e
                env |= after
            elif isinstance(s, (ast.Try, ast.TryStar)):
                self.flow(n, q, s.body, env)
                for h in s.handlers:
                    if h.name:
                        env.add(h.name)
                    self.flow(n, q, h.body, env)
                self.flow(n, q, s.orelse, env)
                self.flow(n, q, s.finalbody, env)
            elif isinstance(s, ast.AugAssign):
                self.reads(n, q, s.value, env)
                if isinstance(s.target, ast.Name):
                    self.reads(n, q, ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), env)
                else:
                    self.reads(n, q, s.target, env)
            elif isinstance(s, ast.Assign):
                self.reads(n, q, s.value, env)
                for t in s.targets:
                    self.reads(n, q, t, env)
                    env |= own_bound(t)
            else:
                self.reads(n, q, s, env)
                env |= own_bound(s)

    # ---- attributes
    def attributes(self):
        if self.defs.dynamic:
            self.ctx.notes.append("attributes are created dynamically: attribute rule not applied")
            return
        for n, p in self.project.modules():
            if n in self.project.broken:
                continue
            s = self.project.module(n)
            alias = module_aliases(s.tree)
            foreign = self.foreign(s.tree)
            for x, q in with_scope(s.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    m = dotted(x.value)
                    root = m.split(".")[0] if m else None
                    if root in alias and root is not None:
                        full = alias[root] + m[len(root):]
                        if full.startswith("."):
                            continue
                        if full in self.mods:
                            if x.attr not in self.mods[full] and full + "." + x.attr not in self.mods:
                                self.bad("module attribute", n, q, x, full + "." + x.attr, "%s has no attribute %s" % (full, x.attr))
                            else:
                                self.ok("module attribute")
                        continue
                    if x.attr in self.defs.attrs or x.attr in self.types or x.attr.startswith("__"):
                        self.ok("attribute")
                    elif foreign and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                        continue        # may be an object of a library this analysis has no listing of
                    else:
                        self.bad("attribute", n, q, x, x.attr, "no object of the package or its libraries has an attribute %s" % x.attr)
                elif isinstance(x, ast.ImportFrom):
                    self.imports(n, s, q, x)

    def foreign(self, tree):
        for x in ast.walk(tree):
            for m in ([a.name for a in x.names] if isinstance(x, ast.Import) else [x.module or ""] if isinstance(x, ast.ImportFrom) and not x.level else []):
                if m not in self.mods and m.split(".")[0] not in (self.project.pkg, "pylibxc", "numpy", "scipy", "pydantic"):
                    return True
        return False

    def imports(self, n, s, q, x):
        base = x.module or ""
        if x.level:
            parts = n.split(".")
            if not s.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (x.level - 1)]
            base = ".".join(parts + ([x.module] if x.module else []))
        for a in x.names:
            if a.name == "*":
                continue
            if base == self.project.pkg or base.startswith(self.project.pkg + "."):
                t = self.project.module(base)
                if t is None:
                    self.bad("import", n, q, x, base, "there is no module %s" % base)
                elif base.endswith("._version") or a.name in self.defs.modvars.get(base, set()) or self.project.find(base + "." + a.name) or self.star(t) or base in self.project.broken:
                    self.ok("import")
                elif a.name == "__version__":
                    self.ok("import")
                else:
                    self.bad("import", n, q, x, base + "." + a.name, "%s does not define %s" % (base, a.name))
            elif base in self.mods:
                if a.name in self.mods[base] or base + "." + a.name in self.mods:
                    self.ok("import")
                else:
                    self.bad("import", n, q, x, base + "." + a.name, "%s does not define %s" % (base, a.name))

    # ---- call shapes
    def library(self, tree, f, q):
        """name of the library function with a known signature that f stands for, or None"""
        d = dotted(f)
        if d is None:
            return None
        root = d.split(".")[0]
        if root in local_names(tree, q) or q == "module" and root in stored_top(tree):
            return None
        alias = module_aliases(tree)
        if isinstance(f, ast.Name):
            hits = [x for x in ast.walk(tree) if isinstance(x, ast.ImportFrom) and not x.level
                    and any((a.asname or a.name) == root for a in x.names)]
            if len(hits) != 1 or root in stored_top(tree):
                return None
            full = hits[0].module + "." + [a.name for a in hits[0].names if (a.asname or a.name) == root][0]
        elif root in alias:
            full = alias[root] + d[len(root):]
        else:
            return None
        return full if full in self.shapes else None

    def calls(self):
        for n, p in self.project.modules():
            if n in self.project.broken:
                continue
            s = self.project.module(n)
            imported = from_imports(s.tree)
            for x, q in with_scope(s.tree):
                if not isinstance(x, ast.Call):
                    continue
                if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                lib = self.library(s.tree, x.func, q)
                if lib is not None:
                    self.ctx.calls += 1
                    if fits_shape(self.shapes[lib], len(x.args), [k.arg for k in x.keywords]):
                        self.ok("library call")
                    else:
                        self.bad("library call", n, q, x, lib, "%s does not accept %d arguments and keywords %s" % (
                            lib, len(x.args), [k.arg for k in x.keywords]))
                    continue
                cands = None
                if isinstance(x.func, ast.Name):
                    name = x.func.id
                    src = imported.get(name, name)
                    if name in local_names(s.tree, q):
                        continue
                    if src in self.defs.classes and (name in imported or name in self.defs.modvars[n]):
                        cands = []
                        for m, c in self.defs.classes[src]:
                            ini = [b for b in c.body if isinstance(b, ast.FunctionDef) and b.name == "__init__"]
                            if not ini or c.bases or c.decorator_list:
                                cands = None
                                break
                            cands.append((ini[0], 1))
                    elif src in self.defs.funcs and (name in imported or name in self.defs.modvars[n]):
                        cands = [(f, 0) for m, f, meth, c in self.defs.funcs[src] if not meth]
                elif isinstance(x.func, ast.Attribute) and x.func.attr in self.defs.funcs and x.func.attr not in self.types:
                    name = x.func.attr
                    root = dotted(x.func.value)
                    if root and root.split(".")[0] in module_aliases(s.tree):
                        continue
                    if name in self.project.stored_names():
                        continue
                    if all(any(meth and not f.decorator_list for m, f, meth, c in self.defs.funcs[name]) for _ in (0,)):
                        if any(f.decorator_list for m, f, meth, c in self.defs.funcs[name] if meth):
                            continue
                        cands = [(f, 1) for m, f, meth, c in self.defs.funcs[name] if meth]
                if not cands:
                    continue
                self.ctx.calls += 1
                if any(accepts(f, skip, len(x.args), [k.arg for k in x.keywords]) for f, skip in cands) or any(f.decorator_list for f, k in cands):
                    self.ok("call")
                else:
                    self.bad("call", n, q, x, ast.unparse(x.func), "no definition of %s accepts %d arguments and keywords %s" % (
                        ast.unparse(x.func), len(x.args), [k.arg for k in x.keywords]))


_TOP = {}


def stored_top(tree):
    """names the module or any of its functions binds other than by import"""
    if id(tree) not in _TOP:
        out = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
        _TOP[id(tree)] = out
    return _TOP[id(tree)]


def fits_shape(s, npos, kws):
    if npos > len(s["pos"]) and not s["var"]:
        return False
    given = {x for x in s["pos"][:npos] if x}
    for k in kws:
        if k in given or k not in s["pos"] and k not in s["kw"] and not s["anykw"]:
            return False
    if any(x not in kws for x in s["pos"][npos:s["need"]]):
        return False
    return all(k in kws for k in s.get("kwneed", ()))


def accepts(f, skip, npos, kws):
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if len(pos) < skip:
        return True if a.vararg else False
    need = pos[skip:]
    if npos > len(need) and not a.vararg:
        return False
    given = set(need[:npos])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in kws:
        if k in given:
            return False
        if k not in need and k not in kwonly and not a.kwarg:
            return False
    ndef = len(a.defaults)
    required = [x for x in (pos[:-ndef] if ndef else pos)][skip:]
    for r in required:
        if r not in given and r not in kws:
            return False
    for k, d in zip(kwonly, a.kw_defaults):
        if d is None and k not in kws:
            return False
    return True


def dotted(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        b = dotted(x.value)
        return b + "." + x.attr if b else None
    return None


def module_aliases(tree):
    out = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.pop(x.id, None)
        elif isinstance(x, ast.arg):
            out.pop(x.arg, None)
    return out


def from_imports(tree):
    out = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                out[a.asname or a.name] = a.name
    return out


_LOC = {}


def local_names(tree, q):
    key = (id(tree), q)
    if key not in _LOC:
        out = set()
        for f, fq in functions(tree):
            if fq == q or q.startswith(fq + "."):
                out |= {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
                for x in ast.walk(f):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, ast.FunctionDef) and x is not f:
                        out.add(x.name)
                    elif isinstance(x, ast.arg):
                        out.add(x.arg)
        _LOC[key] = out
    return _LOC[key]


def functions(tree, q=""):
    for x in ast.iter_child_nodes(tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield x, q + x.name
            yield from functions(x, q + x.name + ".")
        elif isinstance(x, ast.ClassDef):
            yield from functions(x, q + x.name + ".")
        else:
            yield from functions(x, q)


def with_scope(tree, q="module"):
    for x in ast.iter_child_nodes(tree):
        yield x, q
        nq = q
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            nq = x.name if q == "module" else q + "." + x.name
        yield from with_scope(x, nq)


def own(f):
    """nodes of a function without nested functions"""
    stack = list(f.body)
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(x))


def own_bound(node):
    out = set()
    stack = [node]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            out.add(x.rest)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(x))
    return out


def run_names(prop, root):
    from .harness import Ctx
    ctx = Ctx(prop, root)
    a = Names(root, ctx)
    a.undefined()
    a.unbound()
    a.attributes()
    a.calls()
    return ctx
