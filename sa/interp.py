"""Abstract interpreter over the Python syntax tree (value numbering with a heap)."""
import ast
import os
from fractions import Fraction

from .alg import (Poly, P, ZERO, ONE, Atom, atom, Lin, ppow, subst, bvs, all_atoms, deps, ite, b_not, b_and, b_or,
                  cmp_lt, cmp_le, cmp_eq, ind, equal, show, unknowns, NONNEG)
from .values import *
from . import arrays as A
from .arrays import unk, unk_poly, ShapeError, polys_of, as_arr, dim, IndexErr


class Dead(Exception):
    """the current path raises"""

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc


class AnalysisBroken(Exception):
    pass


class State:
    __slots__ = ("heap", "envs", "pc")

    def __init__(self, heap, envs, pc):
        self.heap, self.envs, self.pc = heap, envs, pc

    def fork(self):
        return State(dict(self.heap), {k: dict(v) for k, v in self.envs.items()}, self.pc)


class Frame:
    def __init__(self, fid, mod, func, parent):
        self.fid, self.mod, self.func, self.parent = fid, mod, func, parent
        self.exits = None


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.ns = {}
        self.loaded = False


BUILTINS = {"range", "len", "max", "min", "abs", "sum", "int", "float", "bool", "str", "list", "tuple", "dict",
            "set", "enumerate", "zip", "print", "isinstance", "hasattr", "getattr", "setattr", "type", "round",
            "sorted", "reversed", "any", "all", "map", "filter", "object", "super", "iter", "next", "repr", "vars",
            "callable", "id", "frozenset", "divmod", "pow", "complex", "slice", "delattr", "format", "issubclass",
            "property", "staticmethod", "classmethod", "open", "input"}
EXC_NAMES = {"ValueError", "TypeError", "KeyError", "RuntimeError", "NotImplementedError", "AssertionError",
             "SystemExit", "Exception", "IndexError", "AttributeError", "Warning", "UserWarning", "RuntimeWarning",
             "ImportError", "ModuleNotFoundError", "BaseException", "StopIteration", "ZeroDivisionError",
             "DeprecationWarning", "ArithmeticError", "FloatingPointError", "NameError", "OverflowError",
             "KeyboardInterrupt", "OSError", "LookupError"}

MAX_DEPTH = 70


class Interp:
    def __init__(self, project):
        self.project = project
        self.nid = 0
        self.namespaces = {}        # heap id of an attribute dictionary -> heap id of the object
        self.view_of = {}           # heap id -> array it may share memory with
        self.linked = {}            # heap id -> (array whose memory it shows, how to read, how to store)
        self.sharing = {}           # heap id -> ids of arrays that show its memory
        self.kinds = {}             # heap id -> element type, of arrays that round what is stored
        self.bools = set()          # heap ids of arrays of truth values
        self.listlike = set()       # heap ids of arrays that stand for lists of symbolic length
        self.st = State({}, {}, ONE)
        self.frames = []
        self.parents = {}
        self.loops = []
        self.events = []
        self.attrloc = {}
        self.overrides = {}
        self.funcs_seen = set()
        self.stmts_seen = set()
        self.calls = 0
        self.node = None
        self.spec_builtins = {}
        self.inputs = {}
        self.objnames = {}
        self.partial = set()        # objects that a contract assembled attribute by attribute
        self.mods = {}
        self.bvn = 0
        from . import models
        self.models = models

    # ---------------------------------------------------------------- basics
    def newid(self):
        self.nid += 1
        return self.nid

    def boolean(self, v):
        """note that the elements are truth values: as an index they select instead of numbering"""
        if isinstance(v, ARef):
            self.bools.add(v.id)
        return v

    def is_boolean(self, v):
        while isinstance(v, View):
            v = v.base
        if isinstance(v, ListRef):
            items = self.st.heap[v.id][1]
            return bool(items) and all(isinstance(x, bool) for x in items)
        return isinstance(v, bool) or isinstance(v, ARef) and v.id in self.bools

    def kind_of(self, v):
        """element type of an array that cannot hold every number: 'int' or 'f32'"""
        while isinstance(v, View):
            v = v.base
        return self.kinds.get(v.id) if isinstance(v, ARef) else None

    def alloc_arr(self, a):
        if not isinstance(a, Arr) or a.shape == ():
            return a.cells[0] if isinstance(a, Arr) else a
        i = self.newid()
        self.st.heap[i] = ("arr", a)
        return ARef(i)

    def alloc_list(self, items):
        i = self.newid()
        self.st.heap[i] = ("list", tuple(items))
        return ListRef(i)

    def alloc_dict(self, items):
        i = self.newid()
        self.st.heap[i] = ("dict", tuple(items))
        return DictRef(i)

    def obj_dict(self, o):
        """o.__dict__: what is stored in it becomes an attribute"""
        d = self.alloc_dict(list(self.st.heap[o.id][2].items()))
        self.namespaces[d.id] = o.id
        return d

    def store_dict(self, i, items):
        old, new = dict(self.st.heap[i][1]), dict(items)
        self.st.heap[i] = ("dict", tuple(items))
        if i in self.namespaces:
            c = self.st.heap[self.namespaces[i]]
            at = {k: v for k, v in c[2].items() if k in new or k not in old}
            at.update({k: v for k, v in new.items() if k not in old or v is not old[k]})
            self.st.heap[self.namespaces[i]] = ("obj", c[1], at)

    def alloc_obj(self, cls, attrs=None):
        i = self.newid()
        self.st.heap[i] = ("obj", cls, dict(attrs or {}))
        return ObjRef(i)

    def loc(self, node=None):
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        path = fr.mod.path if fr else "?"
        return "%s:%s (%s)" % (self.project.rel(path), getattr(node, "lineno", "?"),
                               fr.func.qual() if fr and fr.func else "<module>")

    def event(self, kind, text, node=None):
        e = (kind, text, self.loc(node))
        if e not in self.events:
            self.events.append(e)

    def deref(self, v):
        if isinstance(v, ARef):
            return self.st.heap[v.id][1]
        if isinstance(v, View):
            b = self.deref(v.base)
            try:
                return A.getitem(b, v.idx) if isinstance(b, Arr) else unk("view", b)
            except ShapeError:
                return unk("view", b)
        return v

    def num(self, v):
        """-> Arr / LinV / BlockV for numeric values, else None"""
        v = self.deref(v)
        if isinstance(v, (Arr, LinV, BlockV)):
            return v
        if isinstance(v, (bool, int, float, Fraction, Poly)):
            return Arr((), (P(v),))
        if isinstance(v, (ListRef, tuple, IterV)):
            return self.models.to_array(self, v)
        if isinstance(v, SymSeq):
            return unk("sequence", *self.polys(v.elem))
        if isinstance(v, Choice):
            a, b = self.num(v.a), self.num(v.b)
            if v.a is None:
                return b
            if v.b is None:
                return a
            if isinstance(a, Arr) and isinstance(b, Arr):
                try:
                    return A.binop(lambda x, y: ite(v.cond, x, y), a, b)
                except ShapeError:
                    pass
            return unk("choice", *self.polys(v))
        return None

    def polys(self, v, depth=0):
        """all polynomials inside a value (for dependency tracking)"""
        v = self.deref(v)
        if depth > 4:
            return []
        if isinstance(v, ListRef):
            return [p for x in self.st.heap[v.id][1] for p in self.polys(x, depth + 1)]
        if isinstance(v, DictRef):
            return [p for k, x in self.st.heap[v.id][1] for p in self.polys(x, depth + 1)]
        if isinstance(v, (tuple,)):
            return [p for x in v for p in self.polys(x, depth + 1)]
        if isinstance(v, IterV):
            return [p for x in v.items for p in self.polys(x, depth + 1)]
        if isinstance(v, Choice):
            return [v.cond] + self.polys(v.a, depth + 1) + self.polys(v.b, depth + 1)
        if isinstance(v, ObjRef):
            c = self.st.heap[v.id]
            return [p for x in c[2].values() for p in self.polys(x, depth + 2)]
        if isinstance(v, SymSeq):
            return self.polys(v.elem, depth + 1) + [v.n]
        if isinstance(v, Arr):
            return [p for c in v.cells for p in self.polys(c, depth + 1)]
        return polys_of(v)

    def opaque(self, v, depth=0):
        """does the value hold a function, an object or a lazy sequence, whose dependences polys() does not (all) list?"""
        if isinstance(v, (FuncV, BoundM, PartialV, ExtM, ObjRef, DictRef)) or callable(v):
            return True
        if isinstance(v, ListRef):
            v = self.st.heap[v.id][1]
        if isinstance(v, tuple):
            return depth > 3 or any(self.opaque(self.deref(x), depth + 1) for x in v)
        return not isinstance(v, (Poly, Lin, Arr, LinV, BlockV, SymSeq, RangeV, IterV, SliceV, Choice, str, StrV, bool, int, float, Fraction,
                                  type(None), type(Ellipsis), ExtV, ClassV, ModV, ARef, View))

    def unk(self, reason, *vals):
        ps = []
        for v in vals:
            ps.extend(self.polys(v))
            if self.opaque(self.deref(v)):
                ps.append(self.models.OPAQUE)
        return self.alloc_arr(Arr(None, (P(atom("unk", reason, tuple(dict.fromkeys(ps)), scalar=False)),)))

    def scalar(self, v):
        """-> Poly or None"""
        v = self.deref(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, (bool, int, float, Fraction)):
            return P(v)
        if isinstance(v, Arr) and len(v.cells) == 1 and (v.shape is None or all(d == 1 for d in v.shape)):
            return v.cells[0] if isinstance(v.cells[0], Poly) else None
        if isinstance(v, Choice):
            n = self.num(v)
            return self.scalar(n) if n is not None else None
        return None

    def truth(self, v):
        """-> bool or Poly"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        v = self.deref(v)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return c != 0
            if self.is_bool(v):
                return v
            return b_not(cmp_eq(v, ZERO))
        if isinstance(v, ListRef):
            return len(self.st.heap[v.id][1]) > 0
        if isinstance(v, DictRef):
            return len(self.st.heap[v.id][1]) > 0
        if isinstance(v, IterV):
            return len(v.items) > 0
        if isinstance(v, Arr):
            if len(v.cells) == 1 and isinstance(v.cells[0], Poly):
                return self.truth(v.cells[0])
            return P(atom("ind", "truth", tuple(self.polys(v)), scalar=True))
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            r = ite(v.cond, P(a), P(b))
            c = r.const()
            return bool(c) if c is not None else r
        if isinstance(v, StrV):
            return ind("strtrue", P(atom("in", v.name, scalar=True)))
        return True

    def is_bool(self, p):
        for m in p.t:
            for a, e in m:
                if a.op not in ("ind", "bool"):
                    return False
        # 0/1 valued only if built by our combinators; accept
        return True

    # ---------------------------------------------------------------- modules
    def load(self, name):
        if name in self.mods:
            m = self.mods[name]
        else:
            src = self.project.module(name)
            if src is None:
                return None
            m = Module(src.name, src.path, src.tree, src.src)
            self.mods[name] = m
        if not m.loaded:
            m.loaded = True
            fr = Frame(self.newid(), m, None, None)
            self.st.envs[fr.fid] = m.ns
            # module namespace is shared by all states
            self.frames.append(fr)
            saved = self.st.pc
            try:
                self.st.envs[fr.fid] = {}
                self.exec_block(m.tree.body)
                if self.st is None:
                    raise AnalysisBroken("module %s raises on import" % name)
                m.ns.update(self.st.envs.pop(fr.fid))
            except Dead as d:
                raise AnalysisBroken("module %s raises on import: %s" % (name, d.exc))
            finally:
                self.frames.pop()
            self.st.pc = saved
        return m

    def mod_get(self, modname, attr):
        m = self.load(modname)
        if m is None:
            return None
        if attr in m.ns:
            return m.ns[attr]
        sub = modname + "." + attr
        if self.project.module(sub) is not None:
            return ModV(sub)
        return None

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for k, s in enumerate(stmts):
            if self.st is None:
                return
            fr = self.frames[-1]
            if isinstance(s, ast.If) and k + 1 < len(stmts) and fr.func is not None and "/CADMium/" in "/" + str(fr.mod.path):
                self.rest = list(stmts[k + 1:])
                self.exec_stmt(s)
                if self.rest is None:       # the alternatives went to the end of the block on their own
                    self.rest = []
                    return
                self.rest = []
            else:
                self.rest = []
                self.exec_stmt(s)

    rest = []

    def apart(self, ra, rb, rest):
        """local values of the two states that have no common shape, so that a merge would lose them"""
        fid = self.frames[-1].fid
        ea, eb = ra.envs.get(fid, {}), rb.envs.get(fid, {})
        names = {x.id for s in rest for x in ast.walk(s) if isinstance(x, ast.Name)}
        for k in names & ea.keys() & eb.keys():
            x, y = ea[k], eb[k]
            if isinstance(x, SymSeq) and isinstance(y, ARef) or isinstance(x, ARef) and isinstance(y, SymSeq) or (
                    isinstance(x, SymSeq) and isinstance(y, SymSeq) and x.n != y.n):
                return True
            if not isinstance(x, (ARef, ListRef)) or type(x) is not type(y):
                continue
            p, q = ra.heap.get(x.id), rb.heap.get(y.id)
            if p is None or q is None or p is q or p[0] != q[0]:
                continue
            if p[0] == "list" and len(p[1]) != len(q[1]):
                return True
            if p[0] == "arr" and isinstance(p[1], Arr) and isinstance(q[1], Arr) and None not in (p[1].shape, q[1].shape) and p[1].shape != q[1].shape:
                return True
        return False

    def add_exit(self, kind, value=None):
        fr = self.frames[-1]
        st = self.st
        if fr.exits is not None:
            fr.exits.append((kind, st.pc if st else ONE, st, value))
        self.st = None

    def exec_stmt(self, s):
        self.node = s
        self.stmts_seen.add((self.frames[-1].mod.path, getattr(s, "lineno", 0)))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.event("unsupported", type(s).__name__, s)
            return
        try:
            m(s)
        except Dead as d:
            if self.frames[-1].func is None and self.frames[-1].exits is None:
                raise
            st = self.st
            if self.frames[-1].exits is not None:
                self.frames[-1].exits.append(("raise", st.pc if st else ONE, st, d))
            self.st = None

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            root = a.name if a.asname else a.name.split(".")[0]
            v = ModV(root) if self.project.module(root) is not None else ExtV(root)
            self.setname(a.asname or root, v)

    def s_ImportFrom(self, s):
        cur = self.frames[-1].mod
        if s.level:
            parts = cur.name.split(".")
            is_pkg = os.path.basename(cur.path) == "__init__.py"
            up = s.level - (1 if is_pkg else 0)
            base = parts[:len(parts) - up] if up else parts
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        for a in s.names:
            if a.name == "*":
                m = self.load(name)
                if m:
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            self.setname(k, v)
                continue
            if self.project.module(name) is not None or self.project.module(name + "." + a.name) is not None:
                v = None
                if self.project.module(name) is not None:
                    v = self.mod_get(name, a.name)
                if v is None and self.project.module(name + "." + a.name) is not None:
                    v = ModV(name + "." + a.name)
                if v is None:
                    self.event("undefined-import", "%s.%s" % (name, a.name), s)
                    v = ExtV(name + "." + a.name)
            else:
                v = ExtV(name + "." + a.name)
            self.setname(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.setname(s.name, v)

    def make_func(self, node, name=None):
        a = node.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwd = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        fid = fr.fid if fr.func is not None else None
        return FuncV(node, fr.mod, name or node.name, fid, defaults, kwd)

    def decorate(self, d, v):
        name = None
        args = ()
        if isinstance(d, ast.Call):
            name = self.dotted(d.func)
            args = tuple(self.ev(x) for x in d.args)
        else:
            name = self.dotted(d)
        short = (name or "").split(".")[-1]
        if short in ("property", "staticmethod", "classmethod", "validator", "root_validator", "field_validator",
                     "setter", "cached_property"):
            return DecoV(short, v, args)
        if short in ("wraps", "lru_cache", "jit", "njit", "cache"):
            return v
        f = self.ev(d.func) if isinstance(d, ast.Call) else self.ev(d)
        if isinstance(d, ast.Call):
            f = self.ev(d)
        return self.call(f, [v], {})

    def dotted(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return b + "." + n.attr if b else None
        return None

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = Frame(self.newid(), self.frames[-1].mod, self.frames[-1].func, self.frames[-1].fid)
        self.parents[fr.fid] = self.frames[-1].fid if self.frames[-1].func is not None else None
        self.st.envs[fr.fid] = {}
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        ns = self.st.envs.pop(fr.fid)
        c = ClassV(s.name, self.frames[-1].mod, s, bases, ns)
        for v in ns.values():
            f = v.func if isinstance(v, DecoV) else v
            if isinstance(f, FuncV) and f.cls is None:
                f.cls = c
                f.fid = self.frames[-1].fid if self.frames[-1].func is not None else None
        c.dataclass = False
        for d in s.decorator_list:
            nm = self.dotted(d.func if isinstance(d, ast.Call) else d) or ""
            if nm.split(".")[-1] == "dataclass":
                c.dataclass = True
        self.setname(s.name, c)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def setname(self, name, v):
        fr = self.frames[-1]
        self.st.envs[fr.fid][name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, n, t):
        d = self.deref(v)
        if isinstance(d, Choice):
            a, b = self.unpack(d.a, n, t), self.unpack(d.b, n, t)
            return [self.merge_val(x, y, d.cond, self.st.heap, self.st.heap, self.st.heap, {}) for x, y in zip(a, b)]
        kind = self.models.iterate(self, v)
        if kind[0] == "conc":
            items = kind[1]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                m = len(items) - (n - 1)
                return items[:k] + [self.alloc_list(items[k:k + m])] + items[k + m:]
            if len(items) == n:
                return items
            if len(items) != n:
                raise Dead("ValueError: unpack %d into %d" % (len(items), n), self.loc(t))
        if isinstance(d, Arr) and d.shape is not None and len(d.shape) and not isinstance(d.shape[0], int):
            return [self.getitem(v, P(i), t) for i in range(n)]
        return [self.unk("unpack", v) for _ in range(n)]

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            self.setattr(o.a, name, v)
            self.setattr(o.b, name, v)
            return
        if isinstance(o, ObjRef):
            c = self.st.heap[o.id]
            if c[1] is not None and isinstance(c[1], ClassV):
                p = c[1].lookup(name)
                if isinstance(p, DecoV) and p.kind == "setter":
                    self.call(BoundM(o, p.func), [v], {})
                    return
            at = dict(c[2])
            at[name] = v
            self.st.heap[o.id] = ("obj", c[1], at)
            self.attrloc[(o.id, name)] = self.loc()
        elif isinstance(o, ClassV):
            o = o  # class attribute mutation
            self.event("class-attr-write", "%s.%s" % (o.name, name))
            o.ns[name] = v
        else:
            self.event("setattr-on", "%s.%s" % (type(o).__name__, name))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            val = self.ev(s.value)
            new = self.aug(cur, val, op, s)
            if new is not None:
                self.setname(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            val = self.ev(s.value)
            new = self.aug(cur, val, op, s)
            if new is not None:
                self.setattr(o, t.attr, new)
            elif isinstance(o, ObjRef):
                self.attrloc[(o.id, t.attr)] = self.loc()
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k, t)
            val = self.ev(s.value)
            od = self.deref(o)
            new = self.binop(op, cur, val, s)
            self.setitem(o, k, new, t)

    def aug(self, cur, val, op, s):
        """in place; None if mutated in place, else new value to bind"""
        if isinstance(cur, ListRef) and op == "Add":
            items = self.st.heap[cur.id][1]
            k = self.models.iterate(self, val)
            if k[0] == "conc":
                self.st.heap[cur.id] = ("list", items + tuple(k[1]))
                return None
        if isinstance(cur, (ARef, View)):
            old = self.deref(cur)
            new = self.binop(op, cur, val, s)
            nd = self.deref(new)
            if isinstance(nd, (LinV, BlockV)):
                return new
            if isinstance(nd, Poly):
                nd = Arr((), (nd,))
            if isinstance(old, Arr) and isinstance(nd, Arr):
                if old.shape is not None and nd.shape is not None and old.shape != nd.shape:
                    if len(old.shape) == len(nd.shape) and all(
                            x == y or not (isinstance(x, int) and isinstance(y, int)) for x, y in zip(old.shape, nd.shape)):
                        nd = Arr(old.shape, nd.cells) if A.ncells(old.shape) == len(nd.cells) else nd
                    else:
                        self.event("shape-error", "in-place %s of shape %s into %s" % (op, nd.shape, old.shape), s)
                        nd = Arr(old.shape, [P(atom("shape_error", tuple(self.polys(nd)), scalar=False))] * A.ncells(old.shape))
                elif old.shape is not None and nd.shape is None:
                    nd = Arr(old.shape, [unk_poly("shape", nd)] * len(old.cells))
                self.write(cur, nd)
                return None
            return new
        new = self.binop(op, cur, val, s)
        if isinstance(cur, LinV) and isinstance(new, LinV) and not cur.sparse:
            self.rebind_lin(cur, new)
        return new

    def write(self, ref, new):
        if isinstance(ref, ARef):
            if ref.id in self.kinds and isinstance(new, Arr):
                new = self.models.to_kind(self, new, self.kinds[ref.id])
            self.st.heap[ref.id] = ("arr", new)
            self.taint(ref.id)
            if ref.id in self.linked:
                base, fwd, back = self.linked[ref.id]
                b = self.deref(base)
                if isinstance(b, Arr):
                    self.write(base, self.through(back, b, new, b.shape))
                    return
            self.refresh(ref.id)
        elif isinstance(ref, View):
            b = self.deref(ref.base)
            try:
                nb = A.setitem(b, ref.idx, new)
            except ShapeError as e:
                self.event("shape-error", str(e))
                nb = Arr(b.shape, [P(atom("shape_error", tuple(self.polys(new)), scalar=False))] * len(b.cells))
            self.write(ref.base, nb)

    @staticmethod
    def through(f, *a):
        *xs, shape = a
        try:
            r = f(*xs)
        except ShapeError:
            r = None
        if isinstance(r, Arr) and (shape is None or r.shape == shape):
            return r
        x = Arr((), (P(r),)) if isinstance(r, Poly) else xs[-1]
        return Arr(shape, [unk_poly("written through a view", x)] * A.ncells(shape)) if shape is not None else unk("view", x)

    def refresh(self, i):
        """arrays that share the memory of array i see what was stored in it"""
        for k in self.sharing.get(i, ()):
            if k in self.st.heap and self.st.heap[k][0] == "arr":
                base, fwd, back = self.linked[k]
                b, old = self.deref(base), self.st.heap[k][1]
                self.st.heap[k] = ("arr", self.through(fwd, b, old.shape) if isinstance(b, Arr) else unk("view", b))
                self.refresh(k)

    def link(self, v, base, fwd, back):
        """v shows the memory of base: v = fwd(base), and storing w in v makes base = back(base, w)"""
        self.linked[v.id] = (base, fwd, back)
        root = base
        while isinstance(root, View):
            root = root.base
        self.sharing.setdefault(root.id, []).append(v.id)
        return v

    def contiguous(self, v):
        """array known to lie in memory in one piece, whatever the order: made fresh, at most one extent other than 1"""
        if not isinstance(v, ARef) or (v.id in self.view_of and v.id not in self.linked):
            return False
        if v.id in self.linked and not self.contiguous(self.linked[v.id][0]):
            return False
        d = self.deref(v)
        return isinstance(d, Arr) and d.shape is not None and sum(x != 1 for x in d.shape) <= 1

    def taint(self, i):
        """writing through an array made by reshape/... may write to its base"""
        base = self.view_of.get(i)
        if base is not None:
            d = self.deref(base)
            if isinstance(d, Arr):
                self.write(base, Arr(d.shape, [unk_poly("written through a reshaped view", d)] * len(d.cells)))

    def mark_view(self, v, base):
        if isinstance(v, ARef) and isinstance(base, (ARef, View)):
            self.view_of[v.id] = base
        return v

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.envs[self.frames[-1].fid].pop(t.id, None)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.add_exit("return", v)

    def s_Break(self, s):
        self.add_exit("break")

    def s_Continue(self, s):
        self.add_exit("continue")

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = (self.dotted(e) or "Exception").split(".")[-1]
        raise Dead(name, self.loc(s))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c is False:
            raise Dead("AssertionError", self.loc(s))
        if isinstance(c, Poly):
            self.note_raise("AssertionError", b_not(c), s)

    def note_raise(self, exc, cond, node):
        self.events.append(("may-raise", exc, self.loc(node)))

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def s_Try(self, s):
        before = self.st.fork()
        fr = self.frames[-1]
        n0 = len(fr.exits) if fr.exits is not None else 0
        self.exec_block(s.body)
        if fr.exits is not None:
            mine = fr.exits[n0:]
            raised = [e for e in mine if e[0] == "raise"]
            if raised and s.handlers:
                handled = []
                for e in raised:
                    if self.handler_for(s.handlers, e[3]) is not None:
                        handled.append(e)
                fr.exits[n0:] = [e for e in mine if e not in handled]
                live = self.st
                for e in handled:
                    h = self.handler_for(s.handlers, e[3])
                    self.st = e[2] if e[2] is not None else before
                    self.exec_block(h.body)
                    if self.st is not None:
                        if live is None:
                            live = self.st
                        else:
                            live = self.merge(self.st, live, self.st.pc)
                self.st = live
        if self.st is not None:
            self.exec_block(s.orelse)
        if self.st is not None:
            self.exec_block(s.finalbody)

    def handler_for(self, handlers, dead):
        for h in handlers:
            if h.type is None:
                return h
            names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
            for n in names:
                nm = (self.dotted(n) or "").split(".")[-1]
                if nm in ("Exception", "BaseException") or dead.exc.split(":")[0] == nm:
                    return h
        return None

    def s_If(self, s):
        rest, self.rest = self.rest, []
        c = self.truth(self.ev(s.test))
        if isinstance(c, Poly):
            k = c.const()
            if k is not None:
                c = bool(k)
            elif (self.st.pc * c).is_zero():
                c = False
            elif (self.st.pc * b_not(c)).is_zero():
                c = True
        if c is True or c is False:
            self.exec_block((s.body if c else s.orelse) + rest)
            self.rest = None if rest else []
            return
        fr = self.frames[-1]
        if not rest or getattr(fr, "splits", 0) >= 3:
            return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))
        st = self.st
        sa, sb = st.fork(), st
        sa.pc, sb.pc = sa.pc * c, sb.pc * b_not(c)
        self.st = sa
        self.exec_block(s.body)
        ra, self.st = self.st, sb
        self.exec_block(s.orelse)
        rb = self.st
        if ra is None or rb is None:
            self.st = rb if ra is None else ra
        elif self.apart(ra, rb, rest):
            fr.splits = getattr(fr, "splits", 0) + 1
            self.st = ra
            self.exec_block(rest)
            ra, self.st = self.st, rb
            self.exec_block(rest)
            rb = self.st
            self.st = rb if ra is None else ra if rb is None else self.merge(ra, rb, c)
            self.rest = None
        else:
            self.st = self.merge(ra, rb, c)

    def branch(self, c, fa, fb):
        st = self.st
        sa, sb = st.fork(), st
        sa.pc, sb.pc = sa.pc * c, sb.pc * b_not(c)
        self.st = sa
        fa()
        ra = self.st
        self.st = sb
        fb()
        rb = self.st
        if ra is None:
            self.st = rb
        elif rb is None:
            self.st = ra
        else:
            self.st = self.merge(ra, rb, c)

    # ---------------------------------------------------------------- merging
    def merge(self, a, b, c):
        """state a if c else b"""
        heap = {}
        memo = {}
        envs = {}
        new = State(heap, envs, a.pc + b.pc)
        for i in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None:
                heap[i] = y
            elif y is None or x is y or x == y:
                heap[i] = x
        for i in a.heap.keys() & b.heap.keys():
            if i in heap:
                continue
            x, y = a.heap[i], b.heap[i]
            if x[0] == "arr":
                heap[i] = ("arr", self.merge_arr(x[1], y[1], c))
            elif x[0] == "obj":
                at = {}
                for k in list(x[2]) + [k for k in y[2] if k not in x[2]]:
                    if k not in x[2]:
                        at[k] = y[2][k]
                    elif k not in y[2]:
                        at[k] = x[2][k]
                    else:
                        at[k] = self.merge_val(x[2][k], y[2][k], c, a.heap, b.heap, heap, memo)
                heap[i] = ("obj", x[1], at)
            elif x[0] == "list":
                if len(x[1]) == len(y[1]):
                    heap[i] = ("list", tuple(self.merge_val(p, q, c, a.heap, b.heap, heap, memo)
                                             for p, q in zip(x[1], y[1])))
                else:
                    heap[i] = ("list", (Choice(c, ("len", x[1]), ("len", y[1])),))
            elif x[0] == "dict":
                dx, dy = dict(x[1]), dict(y[1])
                out = []
                for k in list(dx) + [k for k in dy if k not in dx]:
                    if k not in dx:
                        out.append((k, dy[k]))
                    elif k not in dy:
                        out.append((k, dx[k]))
                    else:
                        out.append((k, self.merge_val(dx[k], dy[k], c, a.heap, b.heap, heap, memo)))
                heap[i] = ("dict", tuple(out))
            else:
                heap[i] = x
        for f in a.envs.keys() | b.envs.keys():
            ea, eb = a.envs.get(f), b.envs.get(f)
            if ea is None or eb is None:
                envs[f] = ea if eb is None else eb
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                if k not in ea:
                    e[k] = eb[k]
                elif k not in eb:
                    e[k] = ea[k]
                else:
                    e[k] = self.merge_val(ea[k], eb[k], c, a.heap, b.heap, heap, memo)
            envs[f] = e
        return new

    def merge_arr(self, x, y, c):
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.shape == y.shape and len(x.cells) == len(y.cells):
                return Arr(x.shape, [ite(c, p, q) if isinstance(p, Poly) and isinstance(q, Poly)
                                     else (p if p == q else Choice(c, p, q)) for p, q in zip(x.cells, y.cells)])
            try:
                return A.binop(lambda p, q: ite(c, p, q), x, y)
            except (ShapeError, TypeError, AttributeError):
                pass
        return unk("merge", *self.polys(x), *self.polys(y), c)

    def merge_val(self, x, y, c, ha, hb, hn, memo):
        if x is y or (type(x) == type(y) and self.same(x, y)):
            return x
        num = (bool, int, float, Fraction, Poly)
        if isinstance(x, bool) and isinstance(y, bool):
            return ite(c, P(x), P(y))
        if isinstance(x, num) and isinstance(y, num):
            return ite(c, P(x), P(y))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(p, q, c, ha, hb, hn, memo) for p, q in zip(x, y))
        if isinstance(x, (ARef, View, LinV) + num) and isinstance(y, (ARef, View, LinV) + num):
            k = tuple(("lin", id(v)) if isinstance(v, LinV) else v for v in (x, y))
            if k in memo:
                return memo[k]
            ax, ay = self.deref_in(x, ha), self.deref_in(y, hb)
            if isinstance(ax, LinV) and isinstance(ay, LinV):
                r = LinV(ay.lin + (ax.lin - ay.lin).scale(c), ax.sparse, ax.dims)
            else:
                if not isinstance(ax, (Arr, LinV)):
                    ax = Arr((), (P(ax),))
                if not isinstance(ay, (Arr, LinV)):
                    ay = Arr((), (P(ay),))
                v = self.merge_arr(ax, ay, c)
                i = self.newid()
                hn[i] = ("arr", v)
                r = ARef(i)
            memo[k] = r
            return r
        return Choice(c, x, y)

    def same(self, x, y):
        try:
            return x == y
        except Exception:
            return False

    def deref_in(self, v, heap):
        saved = self.st
        self.st = State(heap, {}, ONE)
        try:
            return self.deref(v)
        finally:
            self.st = saved

    # ---------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.models.iterate(self, self.ev(s.iter))
        fr = self.frames[-1]
        if it[0] == "conc":
            n0 = len(fr.exits) if fr.exits is not None else 0
            broke = []
            for x in it[1]:
                if self.st is None:
                    break
                self.assign(s.target, x)
                self.run_body(s.body, broke)
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            for st in broke:
                self.st = st if self.st is None else self.merge(st, self.st, st.pc)
            return
        if it[0] == "sym":
            return self.sym_for(s, it[1], it[2])
        # unknown iterable
        self.event("unknown-iterable", ast.dump(s.iter)[:80], s)
        self.bvn += 1
        x = self.unk("iterable", it[1])
        n = P(atom("unk", "length", tuple(self.polys(it[1])), scalar=True))
        return self.sym_for(s, n, lambda bv: x)

    def run_body(self, body, broke):
        """run a loop body once; continue-exits are merged, break states appended to broke"""
        fr = self.frames[-1]
        if fr.exits is None:
            fr.exits = []
        n0 = len(fr.exits)
        self.exec_block(body)
        mine = fr.exits[n0:]
        fr.exits[n0:] = [e for e in mine if e[0] not in ("break", "continue")]
        for e in mine:
            if e[0] == "continue":
                self.st = e[2] if self.st is None else self.merge(e[2], self.st, e[1])
            elif e[0] == "break":
                broke.append(e[2])

    def fresh_bv(self):
        self.bvn += 1
        a = atom("bv", "b%d" % self.bvn, scalar=True)
        NONNEG.add(a)
        return a

    def sym_for(self, s, n, elem):
        bv = self.fresh_bv()
        pre = self.st
        rec = self.loop_head(s, pre, lambda: self.assign(s.target, elem(bv)), s.body)
        if rec is None:
            return
        head, end, heads, broke, nraise = rec
        info = {"kind": "for", "node": s, "func": self.frames[-1].func, "bv": bv, "n": n, "pre": pre, "head": head,
                "end": end, "heads": heads, "broke": broke, "cond": None, "fid": self.frames[-1].fid,
                "loc": self.loc(s)}
        self.loops.append(info)
        if broke or end is None:
            # general loop: leave havocked values
            st = head.fork() if end is not None else pre
            self.bind_new(st, end, pre, s)
            for b in broke:
                b2 = b
                st = self.merge(b2, st, ind("left-by-break", P(bv))) if st is not None else b2
            st.pc = pre.pc
            self.st = st
            return
        out = pre.fork()
        trip = cmp_lt(ZERO, n)
        for (loc, hv) in heads.items():
            init = self.get_loc(pre, loc)
            fin = self.get_loc(end, loc)
            v = self.summarise(init, hv, fin, bv, n, heads, trip, pre, end, out)
            self.set_loc(out, loc, v)
        # objects / arrays created in the body and still referenced
        for i, c in end.heap.items():
            if i not in out.heap:
                out.heap[i] = c
        # variables first bound in the body
        for f, e in end.envs.items():
            for k, v in e.items():
                if f in out.envs and k not in out.envs[f]:
                    out.envs[f][k] = self.last_val(v, bv, n, heads, end, out)
        out.pc = pre.pc
        self.st = out

    def bind_new(self, st, end, pre, node):
        """names first bound in the body of a loop whose number of passes is not known: some value"""
        if end is None or st is None:
            return
        for f, e in end.envs.items():
            for k, v in e.items():
                if f in st.envs and k not in st.envs[f]:
                    st.envs[f][k] = self.head_value(("env", f, k), UNDEF, v, pre, end, st, "%s:%d" % (self.loc(node).split(":")[0], node.lineno))

    def last_val(self, v, bv, n, heads, end, out):
        d = self.deref_in(v, end.heap)
        mp = {bv: n - 1}
        if isinstance(d, Poly):
            return subst(d, mp)
        if isinstance(d, Arr):
            try:
                i = self.newid()
                out.heap[i] = ("arr", Arr(d.shape, [subst(c, mp) if isinstance(c, Poly) else c for c in d.cells]))
                return ARef(i)
            except Exception:
                return v
        if isinstance(d, LinV):
            return LinV(subst(d.lin, mp), d.sparse, d.dims)
        return v

    # locations: ('env', fid, name) | ('attr', objid, name) | ('arr', id) | ('list', id) | ('dict', id)
    def get_loc(self, st, loc):
        if loc[0] == "env":
            return st.envs.get(loc[1], {}).get(loc[2], UNDEF)
        c = st.heap.get(loc[1])
        if c is None:
            return UNDEF
        if loc[0] == "attr":
            return c[2].get(loc[2], UNDEF)
        return c[1]

    def set_loc(self, st, loc, v):
        if v is UNDEF:
            return
        if loc[0] == "env":
            st.envs.setdefault(loc[1], {})[loc[2]] = v
        elif loc[0] == "attr":
            c = st.heap[loc[1]]
            at = dict(c[2])
            at[loc[2]] = v
            st.heap[loc[1]] = ("obj", c[1], at)
        else:
            st.heap[loc[1]] = (loc[0], v)

    def modified(self, pre, end):
        out = []
        for f, e in end.envs.items():
            if f not in pre.envs:
                continue
            p = pre.envs[f]
            for k, v in e.items():
                if k in p and not (p[k] is v or self.same(p[k], v)):
                    out.append(("env", f, k))
        for i, c in end.heap.items():
            if i not in pre.heap or pre.heap[i] is c:
                continue
            p = pre.heap[i]
            if p[0] == "obj":
                for k, v in c[2].items():
                    if k not in p[2] or not (p[2][k] is v or self.same(p[2][k], v)):
                        out.append(("attr", i, k))
            elif not self.same(p, c):
                out.append((p[0], i))
        return out

    def loc_name(self, loc):
        if loc[0] == "env":
            return loc[2]
        if loc[0] == "attr":
            return "%s.%s" % (self.objnames.get(loc[1], "obj%d" % loc[1]), loc[2])
        return "%s%d" % (loc[0], loc[1])

    def head_value(self, loc, init, endv, pre, end, out, lid):
        """symbolic value standing for the location at the loop head"""
        name = self.loc_name(loc)
        d = self.deref_in(init, pre.heap) if init is not UNDEF else UNDEF
        if d is None or d is UNDEF:
            d = self.deref_in(endv, end.heap) if endv is not UNDEF else UNDEF
            if isinstance(init, type(None)) and init is None and isinstance(d, (Arr, Poly, bool)):
                pass
        if isinstance(d, bool):
            return P(atom("ind", "head", "%s@%s" % (name, lid), scalar=True))
        if isinstance(d, (Poly, int, float, Fraction)):
            e = self.deref_in(endv, end.heap) if endv is not UNDEF else d
            if isinstance(e, Arr) and e.shape != ():
                d = e
            else:
                return P(atom("head", "%s@%s" % (name, lid), scalar=True))
        if isinstance(d, Arr):
            sc = d.shape is not None and all(isinstance(x, int) for x in d.shape)
            if any(not isinstance(c, Poly) for c in d.cells):
                cells = []
                for k, c in enumerate(d.cells):
                    cells.append(c if not isinstance(c, Poly) else P(atom("head", "%s@%s" % (name, lid), k, scalar=sc)))
                a = Arr(d.shape, cells)
            else:
                a = Arr(d.shape, [P(atom("head", "%s@%s" % (name, lid), k, scalar=sc)) for k in range(len(d.cells))])
            if loc[0] == "arr":
                return a
            i = self.newid()
            out.heap[i] = ("arr", a)
            return ARef(i)
        if isinstance(d, LinV):
            return LinV(Lin.op(atom("headop", "%s@%s" % (name, lid))), d.sparse, d.dims)
        if isinstance(d, str):
            return StrV("%s@%s" % (name, lid))
        if isinstance(d, (ListRef, DictRef, ObjRef, FuncV, ExtV, ClassV, BoundM)) or loc[0] in ("list", "dict"):
            return init if init is not UNDEF else endv
        if isinstance(d, Choice):
            return P(atom("head", "%s@%s" % (name, lid), scalar=True))
        return init if init is not UNDEF else endv

    def loop_head(self, s, pre, bind, body, test=None):
        """find the loop-carried locations and run the body once from a havocked head"""
        lid = "%s:%d" % (os.path.basename(self.frames[-1].mod.path), s.lineno)
        heads = {}
        fr = self.frames[-1]
        result = None
        nloops = len(self.loops)
        for _ in range(6):
            del self.loops[nloops:]
            head = pre.fork()
            for loc, hv in heads.items():
                if loc[0] == "env" or loc[0] == "attr" or loc[0] == "arr":
                    if isinstance(hv, ARef) and hv.id in self._hv_cells:
                        head.heap[hv.id] = self._hv_cells[hv.id]
                    self.set_loc(head, loc, hv)
            self.st = head.fork()
            self.st.pc = ONE
            n0 = len(fr.exits) if fr.exits is not None else 0
            cond = None
            broke = []
            if test is not None:
                cond = self.truth(self.ev(test))
            if bind:
                bind()
            self.run_body(body, broke)
            end = self.st
            exits = fr.exits[n0:]
            result = (head, end, dict(heads), broke, exits, cond)
            mods = set()
            if end is not None:
                mods |= set(self.modified(pre, end))
            for b in broke:
                mods |= set(self.modified(pre, b))
            mods |= set(self.modified(head, end)) if end is not None else set()
            tgt = self.target_names(s) if isinstance(s, ast.For) else set()
            new = [m for m in mods if m not in heads and not (m[0] == "env" and m[1] == fr.fid and m[2] in tgt)]
            if not new:
                break
            if fr.exits is not None:
                del fr.exits[n0:]
            tmp = State({}, {}, ONE)
            src = end if end is not None else (broke[0] if broke else pre)
            for loc in sorted(new, key=str):
                heads[loc] = self.head_value(loc, self.get_loc(pre, loc), self.get_loc(src, loc), pre, src, tmp, lid)
            if not hasattr(self, "_hv_cells"):
                self._hv_cells = {}
            self._hv_cells.update(tmp.heap)
        head, end, heads, broke, exits, cond = result
        if end is None and not broke and not [e for e in exits if e[0] == "return"]:
            # body always raises: loop executes zero times on surviving paths
            self.st = pre
            return None
        self._last_cond = cond
        return head, end, heads, broke, exits

    def target_names(self, s):
        return {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

    def head_atoms(self, hv):
        d = self.deref_cells(hv)
        out = set()
        for p in d:
            if isinstance(p, Poly):
                for m in p.t:
                    for a, _ in m:
                        out.add(a)
        return out

    def deref_cells(self, hv):
        if isinstance(hv, ARef):
            c = self._hv_cells.get(hv.id)
            return c[1].cells if c else ()
        if isinstance(hv, Arr):
            return hv.cells
        if isinstance(hv, Poly):
            return (hv,)
        if isinstance(hv, LinV):
            return ()
        return ()

    def summarise(self, init, hv, fin, bv, n, heads, trip, pre, end, out):
        di = self.deref_in(init, pre.heap) if init is not UNDEF else UNDEF
        df = self.deref_in(fin, end.heap) if fin is not UNDEF else UNDEF
        hc = self.deref_cells(hv)
        every = set()
        for h in heads.values():
            every |= self.head_atoms(h)
        def wrapv(cells, shape):
            if isinstance(init, ARef) or isinstance(fin, ARef) or isinstance(init, View):
                i = self.newid()
                out.heap[i] = ("arr", Arr(shape, cells))
                # in place mutation keeps the identity of the initial array
                return ARef(i)
            return Arr(shape, cells)
        if isinstance(df, LinV):
            if isinstance(hv, LinV):
                g = df.lin - hv.lin
                hops = {f for w in hv.lin.t for k, f in w if k == "O"}
                used = {f for w in g.t for k, f in w if k == "O"}
                if not (hops & used):
                    base = di.lin if isinstance(di, LinV) else Lin({})
                    return LinV(base + self.lin_sum(bv, n, g), df.sparse, df.dims)
            if isinstance(hv, (ARef, Arr, Poly)):
                # zero array accumulated into a matrix
                pass
            return LinV(Lin.op(atom("unkop", "loop", tuple(self.polys(df)))), df.sparse, df.dims)
        if isinstance(df, Poly) or isinstance(df, (bool, int)):
            df = P(df)
            i0 = self.scalar(di) if di is not UNDEF and di is not None else None
            h = hc[0] if hc else None
            return self.summ_cell(i0, h, df, bv, n, every, trip)
        if isinstance(df, Arr):
            if isinstance(di, Arr) and di.shape == df.shape:
                ic = di.cells
            elif isinstance(di, Arr) and di.shape == () or isinstance(di, (Poly, int, float, Fraction)):
                i0 = self.scalar(di)
                ic = (i0,) * len(df.cells)
            else:
                ic = (None,) * len(df.cells)
            if len(hc) != len(df.cells):
                hc = (None,) * len(df.cells)
            cells = []
            for a, h, e in zip(ic, hc, df.cells):
                if not isinstance(e, Poly):
                    cells.append(e)
                    continue
                cells.append(self.summ_cell(a, h, e, bv, n, every, trip))
            if isinstance(hv, Arr):
                return Arr(df.shape, cells)
            i = self.newid()
            out.heap[i] = ("arr", Arr(df.shape, cells))
            return ARef(i)
        if fin is UNDEF:
            return init
        return fin

    def lin_sum(self, bv, n, g):
        r = Lin({})
        for w, c in g.t.items():
            dep = any(bv in bvs(f) for _, f in ((k, x if isinstance(x, Atom) else Poly({x: Fraction(1)})) for k, x in w))
            if not dep:
                r = r + Lin({w: A.bsum(bv, n, c)})
            else:
                one = Lin({w: c})
                nb = A.canon_bv(bv, ONE)
                r = r + Lin.op(atom("opsum", nb, n, subst(one, {bv: P(nb)})))
        return r

    def summ_cell(self, init, h, e, bv, n, every, trip):
        ha = A.as_single(h) if isinstance(h, Poly) else None
        atoms = all_atoms(e)
        own = ha is not None and ha in atoms
        others = (atoms & every) - ({ha} if ha else set())
        def bad(why):
            return P(atom("unk", "loop:" + why, tuple(x for x in (init, e, n) if x is not None), scalar=e.scalar()))
        if others:
            return bad("cross dependency")
        if not own:
            last = subst(e, {bv: n - 1}) if bv in bvs(e) else e
            if init is None:
                return last
            return ite(trip, last, init)
        g = e - P(ha)
        if ha not in all_atoms(g):
            if init is None:
                return bad("uninitialised accumulator")
            return init + A.bsum(bv, n, g)
        s = A.as_single(e)
        if s is not None and s.op == "st" and A.as_single(s.args[0]) is ha and s.args[1][1] == P(bv):
            axis = s.args[1][0]
            val = s.args[2]
            rd = atom("idx", ha, axis, P(bv), scalar=False)
            rd2 = atom("idx", ha, axis, P(bv), scalar=True)
            if init is None:
                return bad("store")
            ia = A.wrap(init, "idx", axis, P(bv), result_scalar=True) if rd2 in all_atoms(val) else \
                A.wrap(init, "idx", axis, P(bv), result_scalar=False)
            val = subst(val, {rd: ia, rd2: ia})
            if ha in all_atoms(val):
                return bad("store reads other elements")
            nb = A.canon_bv(bv, val)
            val = subst(val, {bv: P(nb)})
            return P(atom("map", nb, n, val, init, axis, scalar=False))
        if s is not None and s.op == "ew" and s.args[0] in ("max", "min") and P(ha) in s.args[1]:
            rest = [x for x in s.args[1] if x != P(ha)]
            if not any(ha in all_atoms(x) for x in rest) and init is not None:
                g = A.ew(s.args[0], *rest) if len(rest) > 1 else rest[0]
                nb = A.canon_bv(bv, g)
                return A.ew(s.args[0], init, P(atom("maxred", nb, n, s.args[0], subst(g, {bv: P(nb)}), scalar=True)))
        # h unchanged under a condition independent of h: sums of conditional increments are caught above
        return bad("recurrence")

    def counting(self, s):
        """while k < e: body; k += 1   is a for loop over range(k, e)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or s.orelse or len(s.body) < 2:
            return False
        k, op, e = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            k, e = e, k
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(k, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
            return False
        last = s.body[-1]
        one = None
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == k.id:
            one = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == k.id \
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            a, b = last.value.left, last.value.right
            if isinstance(a, ast.Constant):
                a, b = b, a
            if isinstance(a, ast.Name) and a.id == k.id:
                one = b
        if not (isinstance(one, ast.Constant) and one.value == 1):
            return False
        names, attrs = set(), set()
        for b in s.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Continue, ast.Return)):
                    return False
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    attrs.add(x.attr)
        if k.id in names:
            return False
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Attribute) and x.attr in attrs:
                return False
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "max", "min")):
                return False
        hi = e if not isinstance(op, ast.LtE) else ast.BinOp(e, ast.Add(), ast.Constant(1))
        start = self.ev(k)
        if not isinstance(self.deref(start), Poly) or isinstance(op, ast.NotEq) and self.num(start) != ZERO:
            return False
        lo, stop = "$from%d" % s.lineno, "$to%d" % s.lineno
        self.assign(ast.Name(lo, ast.Store()), start)
        self.assign(ast.Name(stop, ast.Store()), self.ev(ast.copy_location(hi, s)))
        loop = ast.For(ast.Name(k.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(lo, ast.Load()), ast.Name(stop, ast.Load())], []),
                       s.body[:-1], [])
        after = ast.Assign([ast.Name(k.id, ast.Store())], ast.Call(ast.Name("max", ast.Load()), [ast.Name(lo, ast.Load()), ast.Name(stop, ast.Load())], []))
        for x in (loop, after):
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        self.s_For(loop)
        if self.st is not None:
            self.exec_block([after])
        return True

    def s_While(self, s):
        # 1. try to unroll concretely
        snap = self.st.fork()
        fr = self.frames[-1]
        n0 = len(fr.exits) if fr.exits is not None else 0
        nev, nl = len(self.events), len(self.loops)
        broke = []
        ok = False
        for _ in range(80):
            if self.st is None:
                ok = True
                break
            c = self.truth(self.ev(s.test))
            if isinstance(c, Poly):
                break
            if c is False:
                ok = True
                break
            self.run_body(s.body, broke)
        if ok:
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            for st in broke:
                self.st = st if self.st is None else self.merge(st, self.st, st.pc)
            return
        self.st = snap
        if fr.exits is not None:
            del fr.exits[n0:]
        del self.events[nev:]
        del self.loops[nl:]
        if self.counting(s):
            return
        pre = self.st
        rec = self.loop_head(s, pre, None, s.body, test=s.test)
        if rec is None:
            return
        head, end, heads, broke, exits = rec
        cond = self._last_cond
        self.loops.append({"kind": "while", "node": s, "func": fr.func, "pre": pre, "head": head, "end": end,
                           "heads": heads, "broke": broke, "cond": cond, "test": s.test, "fid": fr.fid,
                           "mod": fr.mod, "loc": self.loc(s)})
        st = head.fork()
        st.pc = pre.pc
        self.bind_new(st, end, pre, s)
        for b in broke:
            b = b.fork()
            c = b.pc
            b.pc = pre.pc
            if end is None or cond is True:
                st = b if st is None or cond is True and st.heap is not None and not getattr(self, "_", None) else self.merge(b, st, c)
            else:
                st = self.merge(b, st, c)
        st.pc = pre.pc
        self.st = st

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        self.calls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, DecoV):
            return self.call(f.func, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, PartialV):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k, node)
        if isinstance(f, ObjRef):
            c = self.st.heap[f.id]
            if isinstance(c[1], ClassV):
                m = c[1].lookup("__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kw, node)
        if isinstance(f, Choice):
            if f.a is None or f.b is None:
                return self.call(f.b if f.a is None else f.a, args, kw, node)
            res = []
            st = self.st
            sa, sb = st.fork(), st
            self.st = sa
            va = self.call(f.a, args, kw, node)
            sa = self.st
            self.st = sb
            vb = self.call(f.b, args, kw, node)
            sb = self.st
            self.st = self.merge(sa, sb, f.cond)
            return self.merge_val(va, vb, f.cond, sa.heap, sb.heap, self.st.heap, {})
        if isinstance(f, (ExtV, ExtM)):
            return self.models.call_ext(self, f, args, kw, node)
        if callable(f) and not isinstance(f, (Poly, Arr)):
            return f(self, args, kw)
        if f is None:
            raise Dead("TypeError: None is not callable", self.loc(node))
        self.event("call-unknown", type(f).__name__, node)
        return self.unk("call of unknown", *args, *kw.values())

    def call_func(self, f, args, kw, node=None):
        q = f.qual()
        ov = self.overrides.get(q)
        if ov is not None and ov is not f:
            return self.call(ov, args, kw, node) if not callable(ov) else ov(self, args, kw)
        if len(self.frames) > MAX_DEPTH:
            return self.unk("recursion", *args)
        self.funcs_seen.add((f.mod.path, q, getattr(f.node, "lineno", 0)))
        fr = Frame(self.newid(), f.mod, f, f.fid)
        self.parents[fr.fid] = f.fid
        env = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        for nm, v in zip(names, pos):
            env[nm] = v
        extra = pos[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Dead("TypeError: too many arguments for %s" % q, self.loc(node))
        kws = dict(kw)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm in kws:
                env[nm] = kws.pop(nm)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc_dict(list(kws.items()))
        elif kws:
            raise Dead("TypeError: unexpected keyword %s for %s" % (sorted(kws), q), self.loc(node))
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            env.setdefault(nm, d)
        missing = [nm for nm in names + [x.arg for x in a.kwonlyargs] if nm not in env]
        if missing:
            raise Dead("TypeError: missing argument %s for %s" % (missing, q), self.loc(node))
        if isinstance(f.node, ast.Lambda):
            self.st.envs[fr.fid] = env
            self.frames.append(fr)
            fr.exits = []
            try:
                return self.ev(f.node.body)
            finally:
                self.frames.pop()
                self.drop_env(fr.fid)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return self.run_generator(f, fr, env)
        self.st.envs[fr.fid] = env
        outer_pc = self.st.pc
        self.st.pc = ONE
        fr.exits = []
        saved_node = self.node
        self.frames.append(fr)
        try:
            self.exec_block(f.node.body)
        finally:
            self.frames.pop()
        self.node = saved_node
        outs = [(c, s, v) for (k, c, s, v) in fr.exits if k == "return"]
        raises = [e for e in fr.exits if e[0] == "raise"]
        if self.st is not None:
            outs.append((self.st.pc, self.st, None))
        if not outs:
            d = raises[0][3] if raises else Dead("no return")
            self.st = raises[0][2] if raises and raises[0][2] is not None else State({}, {}, ONE)
            if self.st is not None:
                self.st.pc = outer_pc
            raise Dead(d.exc, d.loc)
        for e in raises:
            self.events.append(("may-raise", e[3].exc, str(e[3].loc)))
        c, st, v = outs[-1]
        for (c2, s2, v2) in reversed(outs[:-1]):
            m = self.merge(s2, st, c2)
            v = self.merge_val(v2, v, c2, s2.heap, st.heap, m.heap, {})
            st = m
        st.pc = outer_pc
        self.st = st
        if not self.has_closure(f.node):
            self.drop_env(fr.fid)
        return v

    def drop_env(self, fid):
        self.st.envs.pop(fid, None)

    _clos = {}

    def has_closure(self, node):
        r = self._clos.get(node)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
            self._clos[node] = r
        return r

    def run_generator(self, f, fr, env):
        """collect yields of a generator (concrete iterations only)"""
        self.st.envs[fr.fid] = env
        outer_pc = self.st.pc
        fr.exits = []
        fr.yields = []
        self.frames.append(fr)
        try:
            self.exec_block(f.node.body)
        finally:
            self.frames.pop()
        if self.st is None:
            outs = [e for e in fr.exits if e[0] == "return"]
            if not outs:
                raise Dead("generator raises")
            self.st = outs[-1][2]
        self.st.pc = outer_pc
        return IterV(fr.yields)

    def x_Yield(self, n):
        fr = self.frames[-1]
        v = self.ev(n.value) if n.value else None
        if getattr(fr, "yields", None) is not None:
            fr.yields.append(v)
        return None

    def instantiate(self, c, args, kw, node=None):
        q = c.name
        if q in self.overrides:
            ov = self.overrides[q]
            return ov(self, args, kw) if callable(ov) else self.call(ov, args, kw, node)
        ext = c.ext_bases()
        o = self.alloc_obj(c)
        if any(b.split(".")[-1] == "BaseModel" for b in ext):
            return self.models.pydantic_new(self, c, o, args, kw)
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw, node)
            return o
        if getattr(c, "dataclass", False):
            return self.models.dataclass_new(self, c, o, args, kw)
        if args or kw:
            if not ext:
                raise Dead("TypeError: %s takes no arguments" % c.name, self.loc(node))
        return o

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            self.event("unsupported", type(n).__name__, n)
            return self.unk("unsupported " + type(n).__name__)
        return m(n)

    def x_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return P(v)
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            return self.unk("complex")
        return v

    def x_Name(self, n):
        v = self.lookup(n.id)
        if v is UNDEF:
            self.event("undefined-name", n.id, n)
            raise Dead("NameError: %s" % n.id, self.loc(n))
        return v

    def lookup(self, name):
        fr = self.frames[-1]
        fid = fr.fid
        seen = 0
        while fid is not None and seen < 50:
            e = self.st.envs.get(fid)
            if e is not None and name in e:
                return e[name]
            fid = self.parents.get(fid)
            seen += 1
        m = fr.mod
        if name in m.ns:
            return m.ns[name]
        for f2 in self.frames:
            if f2.mod is m and f2.func is None and f2.fid in self.st.envs and name in self.st.envs[f2.fid]:
                return self.st.envs[f2.fid][name]
        if name in self.spec_builtins and m.name.startswith("spec"):
            return self.spec_builtins[name]
        if name in BUILTINS or name in EXC_NAMES:
            return ExtV("builtins." + name)
        if name == "__name__":
            return m.name
        if name == "__file__":
            return m.path
        if name == "NotImplemented":
            return None
        return UNDEF

    def x_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, n.attr, n)

    def getattr(self, o, name, node=None, default=UNDEF):
        if isinstance(o, ObjRef):
            c = self.st.heap[o.id]
            if name in c[2]:
                return c[2][name]
            if isinstance(c[1], ClassV):
                v = c[1].lookup(name)
                if v is not None or name in c[1].ns:
                    if isinstance(v, FuncV):
                        return BoundM(o, v)
                    if isinstance(v, DecoV):
                        if v.kind in ("property", "cached_property"):
                            return self.call(v.func, [o], {}, node)
                        if v.kind == "staticmethod":
                            return v.func
                        if v.kind == "classmethod":
                            return BoundM(c[1], v.func)
                        return BoundM(o, v.func)
                    return v
                r = self.models.class_attr(self, o, c[1], name)
                if r is not UNDEF:
                    return r
            if name == "__class__":
                return c[1]
            if name == "__dict__":
                return self.obj_dict(o)
            if default is not UNDEF:
                return default
            lazy = self.models.lazy_attr(self, o, c, name)
            if lazy is not UNDEF:
                return lazy
            if o.id in self.partial and {name, "*"} & self.project.stored_names():
                raise AnalysisBroken("the contract does not set up attribute %s read at %s" % (name, self.loc(node)))
            self.event("undefined-attribute", "%s.%s" % (c[1].name if isinstance(c[1], ClassV) else "object", name), node)
            raise Dead("AttributeError: %s" % name, self.loc(node))
        if isinstance(o, ModV):
            v = self.mod_get(o.name, name)
            if v is None:
                if default is not UNDEF:
                    return default
                raise Dead("AttributeError: module %s has no %s" % (o.name, name), self.loc(node))
            return v
        if isinstance(o, ExtV):
            r = self.models.ext_const(self, o.name + "." + name)
            return r if r is not UNDEF else ExtV(o.name + "." + name)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, DecoV) and v.kind == "classmethod":
                    return BoundM(o, v.func)
                return v.func if isinstance(v, DecoV) else v
            if name == "__name__":
                return o.name
            if default is not UNDEF:
                return default
            f = o.fields()
            if name in f:
                return f[name]
            return ExtM(o, name)
        if isinstance(o, Choice):
            if o.a is None:
                return self.getattr(o.b, name, node, default)
            if o.b is None:
                return self.getattr(o.a, name, node, default)
            x, y = self.getattr(o.a, name, node, default), self.getattr(o.b, name, node, default)
            return self.merge_val(x, y, o.cond, self.st.heap, self.st.heap, self.st.heap, {})
        if o is None:
            if default is not UNDEF:
                return default
            raise Dead("AttributeError: None.%s" % name, self.loc(node))
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassV):
                    v = b.lookup(name)
                    if v is not None:
                        return BoundM(o.obj, v)
            return ExtM(o, name)
        return self.models.value_attr(self, o, name, node, default)

    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x) for x in n.elts)
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.opt_scalar(self.ev(x))
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        return self.ev(n)

    def opt_scalar(self, v):
        if v is None:
            return None
        s = self.scalar(v)
        return s if s is not None else unk_poly("index", *self.polys(v))

    def x_Slice(self, n):
        return self.ev_index(n)

    def x_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev_index(n.slice)
        return self.getitem(o, k, n)

    def idx_norm(self, k):
        def one(x):
            if x is None or x is Ellipsis or isinstance(x, (SliceV, str)):
                return x
            mask = self.is_boolean(x)
            d = self.deref(x)
            if isinstance(d, bool):
                return P(d)
            if mask and isinstance(d, ListRef):
                d = self.models.to_array(self, d)
            if mask and isinstance(d, Arr):
                sel = A.chosen(d)
                if sel is not None and len(sel) == 1:
                    return sel[0]
                if sel is not None and not isinstance(k, tuple):
                    return sel
            if isinstance(d, (int, float, Fraction)):
                return P(d)
            if isinstance(d, RangeV):
                d = self.models.to_array(self, d)
            if isinstance(d, (ListRef, IterV)):
                d = self.models.to_array(self, d)
            if isinstance(d, Arr) and d.shape == ():
                return d.cells[0]
            if isinstance(d, Arr) and d.shape is None and len(d.cells) == 1:
                return d.cells[0]
            return d
        if isinstance(k, tuple):
            return tuple(one(x) for x in k)
        return one(k)

    def getitem(self, o, k, node=None):
        if isinstance(o, Choice):
            if o.a is None or o.b is None:
                return self.getitem(o.b if o.a is None else o.a, k, node)
            x, y = self.getitem(o.a, k, node), self.getitem(o.b, k, node)
            return self.merge_val(x, y, o.cond, self.st.heap, self.st.heap, self.st.heap, {})
        if isinstance(k, Choice):
            x, y = self.getitem(o, k.a, node), self.getitem(o, k.b, node)
            return self.merge_val(x, y, k.cond, self.st.heap, self.st.heap, self.st.heap, {})
        if isinstance(o, (tuple, ListRef, IterV)):
            items = self.st.heap[o.id][1] if isinstance(o, ListRef) else (o.items if isinstance(o, IterV) else o)
            if isinstance(k, SliceV):
                f = lambda x: None if x is None else (int(P(x).const()) if P(x).const() is not None else UNDEF)
                b = [f(k.lo), f(k.hi), f(k.step)]
                if UNDEF in b:
                    return self.unk("slice", o)
                r = items[slice(*b)]
                return tuple(r) if isinstance(o, tuple) else self.alloc_list(r)
            i = self.scalar(k)
            if i is not None and i.const() is not None:
                i = int(i.const())
                if -len(items) <= i < len(items):
                    return items[i]
                raise Dead("IndexError", self.loc(node))
            if i is not None and len(items) == 2 and self.is_bool(i):
                return self.merge_val(items[1], items[0], i, self.st.heap, self.st.heap, self.st.heap, {})
            return self.unk("list index", o, k)
        if isinstance(o, DictRef):
            key = self.dict_key(k)
            for kk, v in self.st.heap[o.id][1]:
                if kk == key:
                    return v
            dv = self.models.default_of(self, o)
            if dv is not UNDEF:
                v = self.call(dv, [], {})
                self.setitem(o, k, v, node)
                return v
            if self.models.is_open(self, o):
                return self.unk("dict item", o)
            raise Dead("KeyError: %s" % (key,), self.loc(node))
        if isinstance(o, str):
            i = self.scalar(k) if not isinstance(k, SliceV) else None
            if isinstance(k, SliceV):
                f = lambda x: None if x is None else int(P(x).const())
                try:
                    return o[slice(f(k.lo), f(k.hi), f(k.step))]
                except Exception:
                    return StrV("slice")
            if i is not None and i.const() is not None:
                return o[int(i.const())]
            return StrV("char")
        if isinstance(o, SymSeq):
            i = self.scalar(k) if not isinstance(k, (SliceV, tuple)) else None
            e = self.deref(o.elem)
            if i is not None:
                if i.const() is not None and i.const() < 0:
                    i = o.n + i
                if isinstance(e, Poly):
                    return subst(e, {o.bv: i})
                if isinstance(e, Arr):
                    return self.alloc_arr(Arr(e.shape, [subst(c, {o.bv: i}) if isinstance(c, Poly) else c for c in e.cells]))
            return self.unk("sequence index", o.elem, k)
        if isinstance(o, ObjRef):
            c = self.st.heap[o.id]
            if isinstance(c[1], ClassV):
                m = c[1].lookup("__getitem__")
                if m is not None:
                    return self.call(m, [o, k], {}, node)
            raise Dead("TypeError: not subscriptable", self.loc(node))
        if isinstance(o, (ExtV, ExtM)):
            return self.models.ext_index(self, o, k, node)
        if o is None:
            raise Dead("TypeError: None is not subscriptable", self.loc(node))
        d = self.num(o)
        if isinstance(d, (LinV, BlockV)):
            return self.models.lin_index(self, d, self.idx_norm(k))
        if isinstance(d, Arr):
            kk = self.idx_norm(k)
            if isinstance(d, Arr) and d.shape is None:
                return self.unk("index of unknown shape", d, *[x for x in (kk if isinstance(kk, tuple) else (kk,)) if isinstance(x, (Poly, Arr))])
            if isinstance(kk, Arr) or (isinstance(kk, tuple) and any(isinstance(x, (Arr, ListRef, tuple)) for x in kk)):
                try:
                    return self.alloc_arr(A.getitem(d, kk))
                except IndexErr:
                    raise Dead("IndexError", self.loc(node))
                except ShapeError as e:
                    self.event("shape-error", str(e), node)
                    return self.unk("index", o)
            try:
                r = A.getitem(d, kk)
            except IndexErr:
                raise Dead("IndexError", self.loc(node))
            except ShapeError as e:
                self.event("shape-error", str(e), node)
                return self.alloc_arr(Arr(None, (P(atom("shape_error", str(e), tuple(self.polys(d)), scalar=False)),)))
            if isinstance(r, Arr) and r.shape != ():
                if isinstance(o, (ARef, View)):
                    return View(o, kk)
                return self.alloc_arr(r)
            if isinstance(r, Arr):
                r = r.cells[0]
            return r
        self.event("getitem", type(o).__name__, node)
        return self.unk("getitem", o)

    def dict_key(self, k):
        d = self.deref(k)
        if isinstance(d, Poly) and d.const() is not None:
            return d.const()
        if isinstance(d, tuple):
            return tuple(self.dict_key(x) for x in d)
        if isinstance(d, (bool, int)):
            return Fraction(d)
        if isinstance(d, Arr) and d.shape == ():
            return self.dict_key(d.cells[0])
        return d

    def setitem(self, o, k, v, node=None):
        if isinstance(o, Choice):
            self.event("store-through-choice", "", node)
            for x, c in ((o.a, o.cond), (o.b, b_not(o.cond))):
                old = self.getitem(x, k, node)
                self.setitem(x, k, self.merge_val(v, old, c, self.st.heap, self.st.heap, self.st.heap, {}), node)
            return
        if isinstance(o, ListRef):
            items = list(self.st.heap[o.id][1])
            i = self.scalar(k) if not isinstance(k, SliceV) else None
            if i is not None and i.const() is not None:
                try:
                    items[int(i.const())] = v
                except IndexError:
                    raise Dead("IndexError", self.loc(node))
                self.st.heap[o.id] = ("list", tuple(items))
            else:
                self.st.heap[o.id] = ("list", tuple(self.unk("list store", *items, v) for _ in items))
            return
        if isinstance(o, DictRef):
            key = self.dict_key(k)
            items = [(a, b) for a, b in self.st.heap[o.id][1]]
            for i, (a, b) in enumerate(items):
                if a == key:
                    items[i] = (key, v)
                    break
            else:
                items.append((key, v))
            self.store_dict(o.id, items)
            return
        if isinstance(o, ObjRef):
            c = self.st.heap[o.id]
            if isinstance(c[1], ClassV):
                m = c[1].lookup("__setitem__")
                if m is not None:
                    self.call(m, [o, k, v], {}, node)
                    return
            raise Dead("TypeError: item assignment", self.loc(node))
        if isinstance(o, (ARef, View)):
            d = self.deref(o)
            kk = self.idx_norm(k)
            if isinstance(v, (ObjRef, DictRef, FuncV, str, type(None), ListRef)) and not isinstance(v, (bool,)):
                nv = v
                if isinstance(v, ListRef) and not self.is_object_arr(d):
                    nv = self.num(v)
            else:
                nv = self.num(v)
                if nv is None:
                    nv = v
            if isinstance(nv, Arr) and nv.shape == ():
                nv = nv.cells[0]
            if isinstance(d, Arr):
                if isinstance(nv, LinV) or isinstance(nv, BlockV):
                    nd = None
                    if self.is_object_arr(d):
                        nd = A.setitem(d, kk, nv)
                    else:
                        z = isinstance(nv, LinV) and nv.lin.is_zero()
                        nd = A.setitem(d, kk, ZERO if z else unk_poly("matrix store", *self.polys(nv)))
                    self.write(o, nd)
                    return
                try:
                    if isinstance(nv, Arr) and self.is_object_arr(d) and all(self.int_idx(x) for x in (kk if isinstance(kk, tuple) else (kk,))):
                        nd = self.obj_store(d, kk, v)
                    else:
                        nd = A.setitem(d, kk, nv)
                except IndexErr:
                    raise Dead("IndexError", self.loc(node))
                except ShapeError as e:
                    self.event("shape-error", str(e), node)
                    nd = Arr(d.shape, [P(atom("shape_error", str(e), tuple(self.polys(nv)), scalar=False))] * len(d.cells)) \
                        if d.shape is not None else d
                self.write(o, nd)
                return
        if isinstance(self.deref(o), (LinV, BlockV)):
            d = self.deref(o)
            kk = self.idx_norm(k)
            new = self.models.lin_store(self, d, kk, v)
            self.rebind_lin(d, new)
            return
        self.event("setitem", type(o).__name__, node)

    def int_idx(self, x):
        return isinstance(x, Poly)

    def is_object_arr(self, d):
        return isinstance(d, Arr) and any(not isinstance(c, Poly) for c in d.cells)

    def obj_store(self, d, kk, v):
        # store an array inside an object array cell
        tmp = A.setitem(d, kk, ("obj",))
        return Arr(tmp.shape, [v if c == ("obj",) else c for c in tmp.cells])

    def rebind_lin(self, old, new):
        """matrices are immutable values here: an item assignment replaces the object wherever it is known"""
        def put(v):
            if v is old:
                return new
            if type(v) is tuple and v:
                t = tuple(put(x) for x in v)
                return t if any(p is not q for p, q in zip(t, v)) else v
            return v

        for e in self.st.envs.values():
            for k, v in list(e.items()):
                w = put(v)
                if w is not v:
                    e[k] = w
        for i, c in list(self.st.heap.items()):
            if c[0] == "obj":
                if any(put(v) is not v for v in c[2].values()):
                    self.st.heap[i] = ("obj", c[1], {k: put(v) for k, v in c[2].items()})
            elif c[0] in ("list", "dict"):
                w = put(c[1])
                if w is not c[1]:
                    self.st.heap[i] = (c[0], w)
            elif c[0] == "arr" and isinstance(c[1], Arr) and any(x is old for x in c[1].cells):
                self.st.heap[i] = ("arr", Arr(c[1].shape, [put(x) for x in c[1].cells]))

    def x_Tuple(self, n):
        return tuple(self.seq(n.elts))

    def x_List(self, n):
        return self.alloc_list(self.seq(n.elts))

    def seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                k = self.models.iterate(self, self.ev(e.value))
                if k[0] == "conc":
                    out.extend(k[1])
                else:
                    out.append(self.unk("starred", *k[1:]))
            else:
                out.append(self.ev(e))
        return out

    def x_Set(self, n):
        return self.alloc_list(self.seq(n.elts))

    def x_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v)
                if isinstance(d, DictRef):
                    for a, b in self.st.heap[d.id][1]:
                        items = [(x, y) for x, y in items if x != a] + [(a, b)]
                continue
            items.append((self.dict_key(self.ev(k)), self.ev(v)))
        return self.alloc_dict(items)

    def x_JoinedStr(self, n):
        out = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                try:
                    v = self.ev(p.value)
                except Dead:
                    raise
                spec = "" if p.format_spec is None else self.x_JoinedStr(p.format_spec)
                c = self.models.py_const(v)
                if c is UNDEF or not isinstance(spec, str):
                    return StrV("fstring")
                try:
                    out.append(format(repr(c) if p.conversion == 114 else c, spec))
                except Exception:
                    return StrV("fstring")
        return "".join(out)

    def x_FormattedValue(self, n):
        self.ev(n.value)
        return StrV("f")

    def x_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def x_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if isinstance(c, Poly) and c.const() is not None:
            c = bool(c.const())
        if c is True:
            return self.ev(n.body)
        if c is False:
            return self.ev(n.orelse)
        res = {}
        dead = {}

        def run(key, node):
            try:
                res[key] = self.ev(node)
            except Dead as d:
                dead[key] = d
                self.st = None
        st = self.st
        sa, sb = st.fork(), st
        self.st = sa
        run("a", n.body)
        sa = self.st
        self.st = sb
        run("b", n.orelse)
        sb = self.st
        if sa is None and sb is None:
            self.st = st
            raise dead["a"]
        if sa is None:
            self.st = sb
            return res["b"]
        if sb is None:
            self.st = sa
            return res["a"]
        m = self.merge(sa, sb, c)
        m.pc = st.pc
        self.st = m
        return self.merge_val(res["a"], res["b"], c, sa.heap, sb.heap, m.heap, {})

    def x_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def x_Starred(self, n):
        return self.ev(n.value)

    def x_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        acc = None
        val = None
        for i, e in enumerate(n.values):
            try:
                v = self.ev(e)
            except Dead as d:
                if acc is not None and isinstance(acc, Poly):
                    # operand only reached under a condition
                    self.event("may-raise", d.exc, e)
                    v = P(atom("ind", "raises", d.exc, scalar=True))
                else:
                    raise
            t = self.truth(v)
            if isinstance(t, Poly) and t.const() is not None:
                t = bool(t.const())
            if t is (not is_and):
                if acc is None:
                    return v
                return False if is_and else True
            if isinstance(t, Poly):
                acc = t if acc is None else (b_and(acc, t) if is_and else b_or(acc, t))
                if acc.const() is not None:
                    return bool(acc.const())
            val = v
        if acc is None:
            return val
        return acc

    def x_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else b_not(t)
        d = self.num(v)
        if isinstance(n.op, ast.USub):
            if isinstance(d, LinV):
                return LinV(-d.lin, d.sparse, d.dims)
            if isinstance(d, BlockV):
                return self.models.block_map(d, lambda x: self.models.neg(x))
            if isinstance(d, Arr):
                if any(not isinstance(c, Poly) for c in d.cells):
                    return self.unk("neg", v)
                return self.alloc_arr(Arr(d.shape, [-c for c in d.cells]))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(d, Arr):
                r = self.alloc_arr(Arr(d.shape, [b_not(c) for c in d.cells]))
                return self.boolean(r) if self.is_boolean(v) else r
        return self.unk("unary", v)

    def x_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, node=None):
        r = self.models.binop(self, op, a, b, node)
        if op in ("BitAnd", "BitOr", "BitXor") and self.is_boolean(a) and self.is_boolean(b):
            self.boolean(r)
        return r

    def x_Compare(self, n):
        left = self.ev(n.left)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            v = self.models.compare(self, type(op).__name__, left, right, n)
            if acc is None:
                acc = v
            else:
                t1, t2 = self.truth(acc), self.truth(v)
                if t1 is False or t2 is False:
                    acc = False
                elif t1 is True:
                    acc = v
                elif t2 is True:
                    pass
                else:
                    acc = b_and(P(t1), P(t2))
            left = right
        return acc

    def grow(self, n, f):
        """a list of symbolic length takes the form of the array of its elements once it is added to"""
        more = [self.ev(x) for x in n.args]
        v = None
        if f.name in ("append", "extend") and len(more) == 1:
            v = self.models.join_lists(self, f.obj, self.alloc_list((more[0],)) if f.name == "append" else more[0])
        self.assign(n.func.value, self.unk("list." + f.name, f.obj, *more) if v is None else v)
        return None if f.name != "pop" else self.unk("pop", f.obj)

    def x_Call(self, n):
        f = self.ev(n.func)
        if isinstance(f, ExtM) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute)) and f.name in (
                "append", "extend", "insert", "reverse", "sort", "pop", "clear", "remove") and (
                isinstance(f.obj, SymSeq) or isinstance(f.obj, ARef) and f.obj.id in self.listlike):
            return self.grow(n, f)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                k = self.models.iterate(self, self.ev(x.value))
                if k[0] == "conc":
                    args.extend(k[1])
                else:
                    args.append(self.unk("star-args", *k[1:]))
            else:
                args.append(self.ev(x))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, DictRef):
                    for a, b in self.st.heap[d.id][1]:
                        kw[a] = b
                elif isinstance(d, ObjRef):
                    kw["**"] = d
            else:
                kw[k.arg] = self.ev(k.value)
        if isinstance(f, ExtV) and f.name == "builtins.super":
            fr = self.frames[-1]
            if not args and fr.func and fr.func.cls:
                first = fr.func.node.args.args[0].arg
                return SuperV(self.st.envs[fr.fid][first], fr.func.cls)
        saved = self.node
        self.node = n
        r = self.call(f, args, kw, n)
        self.node = saved
        return r

    # comprehensions
    def comp(self, n, kind):
        fr = Frame(self.newid(), self.frames[-1].mod, self.frames[-1].func, self.frames[-1].fid)
        self.parents[fr.fid] = self.frames[-1].fid
        fr.exits = self.frames[-1].exits
        self.st.envs[fr.fid] = {}
        self.frames.append(fr)
        out = []
        try:
            sym = self.comp_rec(n, 0, out, kind)
        finally:
            self.frames.pop()
            if self.st is not None:
                self.st.envs.pop(fr.fid, None)
        if sym is not None:
            return sym
        return out

    def comp_rec(self, n, i, out, kind):
        if i == len(n.generators):
            if kind == "dict":
                out.append((self.dict_key(self.ev(n.key)), self.ev(n.value)))
            else:
                out.append(self.ev(n.elt))
            return None
        g = n.generators[i]
        it = self.models.iterate(self, self.ev(g.iter))
        if it[0] == "conc":
            for x in it[1]:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    if t is False:
                        ok = False
                        break
                    if isinstance(t, Poly):
                        if t.const() is not None:
                            ok = bool(t.const())
                            if not ok:
                                break
                            continue
                        out.append(self.unk("conditional comprehension", t))
                        ok = False
                        break
                if ok:
                    r = self.comp_rec(n, i + 1, out, kind)
                    if r is not None:
                        out.append(r)
            return None
        if it[0] == "sym" and i == len(n.generators) - 1 and not g.ifs and kind != "dict":
            bv = self.fresh_bv()
            self.assign(g.target, it[2](bv))
            return SymSeq(bv, it[1], self.freeze(self.ev(n.elt)))
        self.event("unknown-iterable", "comprehension", n)
        return self.unk("comprehension", it[1])

    def freeze(self, v):
        d = self.deref(v)
        return d

    def x_ListComp(self, n):
        r = self.comp(n, "list")
        return self.alloc_list(r) if isinstance(r, list) else r

    def x_GeneratorExp(self, n):
        r = self.comp(n, "list")
        return IterV(r) if isinstance(r, list) else r

    x_SetComp = x_ListComp

    def x_DictComp(self, n):
        r = self.comp(n, "dict")
        items = []
        if isinstance(r, list):
            for k, v in r:
                items = [(a, b) for a, b in items if a != k] + [(k, v)]
            return self.alloc_dict(items)
        return r

    # match statements are rare: treat as chained comparison on constants
    def s_Match(self, s):
        subj = self.ev(s.subject)

        def rec(cases):
            if not cases:
                return
            c = cases[0]
            vals = None
            if isinstance(c.pattern, ast.MatchValue):
                vals = [self.ev(c.pattern.value)]
            elif isinstance(c.pattern, ast.MatchOr) and all(isinstance(p, ast.MatchValue) for p in c.pattern.patterns):
                vals = [self.ev(p.value) for p in c.pattern.patterns]
            elif isinstance(c.pattern, ast.MatchSingleton):
                vals = [c.pattern.value]
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                if c.pattern.name:
                    self.setname(c.pattern.name, subj)
                return self.exec_block(c.body)
            if vals is None:
                self.event("unsupported", "match pattern", s)
                return rec(cases[1:])
            t = False
            for v in vals:
                x = self.truth(self.models.compare(self, "Eq", subj, v, s))
                t = x if t is False else (t if x is False else (True if (t is True or x is True) else b_or(t, x)))
            if t is True:
                return self.exec_block(c.body)
            if t is False:
                return rec(cases[1:])
            self.branch(t, lambda: self.exec_block(c.body), lambda: rec(cases[1:]))
        rec(s.cases)
