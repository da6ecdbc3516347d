"""Abstract values of the interpreter (everything immutable; mutable things live in State.heap)."""
from .alg import (Poly, P, ZERO, ONE, Atom, atom, Lin, ppow, split)


class Arr:
    """Tensor.  shape: tuple of int | Poly(symbolic length), or None if unknown.
    cells: one value per point of the concrete (int) dimensions, row-major; each
    cell is read element by element along the symbolic dimensions."""
    __slots__ = ("shape", "cells")

    def __init__(self, shape, cells):
        self.shape = shape
        self.cells = tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and self.cells == o.cells

    def __hash__(self):
        return hash((self.shape, self.cells))

    def __repr__(self):
        return "Arr%r%r" % (self.shape, self.cells)

    @property
    def single(self):
        return len(self.cells) == 1


class SpArr(Arr):
    """sparse matrix with known cells ('*' is the matrix product)"""
    __slots__ = ()


class ARef:
    """reference to a heap array"""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, ARef) and o.id == self.id

    def __hash__(self):
        return hash(("ARef", self.id))


class View:
    """view of a heap array through a basic index (normalised)"""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __eq__(self, o):
        return isinstance(o, View) and (o.base, o.idx) == (self.base, self.idx)

    def __hash__(self):
        return hash(("View", self.base, self.idx))


class LinV:
    """matrix value (dense or sparse).  rows/cols: dims"""
    __slots__ = ("lin", "sparse", "dims")

    def __init__(self, lin, sparse=True, dims=None):
        self.lin, self.sparse, self.dims = lin, sparse, dims

    def __eq__(self, o):
        return isinstance(o, LinV) and o.lin == self.lin

    def __hash__(self):
        return hash(self.lin)

    def __repr__(self):
        return "Lin[%r]" % self.lin


class BlockV:
    """block matrix: tuple of rows of blocks"""
    __slots__ = ("rows", "sparse")

    def __init__(self, rows, sparse=True):
        self.rows, self.sparse = tuple(tuple(r) for r in rows), sparse

    def __eq__(self, o):
        return isinstance(o, BlockV) and o.rows == self.rows

    def __hash__(self):
        return hash(self.rows)


class ObjRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, ObjRef) and o.id == self.id

    def __hash__(self):
        return hash(("Obj", self.id))


class ListRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, ListRef) and o.id == self.id

    def __hash__(self):
        return hash(("List", self.id))


class DictRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, DictRef) and o.id == self.id

    def __hash__(self):
        return hash(("Dict", self.id))


class FuncV:
    __slots__ = ("node", "mod", "name", "fid", "defaults", "kwdefaults", "cls")

    def __init__(self, node, mod, name, fid=None, defaults=(), kwdefaults=None, cls=None):
        self.node, self.mod, self.name, self.fid = node, mod, name, fid
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls

    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class BoundM:
    __slots__ = ("obj", "func")

    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ExtM:
    """method of a builtin/array value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV:
    def __init__(self, name, mod, node, bases, ns):
        self.name, self.mod, self.node, self.bases, self.ns = name, mod, node, bases, ns

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def ext_bases(self):
        out = set()
        for b in self.bases:
            if isinstance(b, ExtV):
                out.add(b.name)
            elif isinstance(b, ClassV):
                out |= b.ext_bases()
        return out

    def fields(self):
        """annotated / assigned class-level data in definition order (bases first)"""
        out = {}
        for b in self.bases:
            if isinstance(b, ClassV):
                out.update(b.fields())
        for k, v in self.ns.items():
            if not isinstance(v, (FuncV, DecoV)):
                out[k] = v
        return out


class DecoV:
    """decorated function (property, staticmethod, validator, ...)"""

    def __init__(self, kind, func, args=()):
        self.kind, self.func, self.args = kind, func, args


class ModV:
    def __init__(self, name):
        self.name = name


class ExtV:
    """external name, dotted"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=ONE):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo=None, hi=None, step=None):
        self.lo, self.hi, self.step = lo, hi, step

    def full(self):
        return self.lo is None and self.hi is None and self.step is None

    def key(self):
        return (self.lo, self.hi, self.step)

    def __eq__(self, o):
        return isinstance(o, SliceV) and o.key() == self.key()

    def __hash__(self):
        return hash(("slice",) + self.key())

    def __repr__(self):
        return "%s:%s:%s" % self.key()


class SymSeq:
    """[elem(i) for i in range(n)] with symbolic n"""
    __slots__ = ("bv", "n", "elem")

    def __init__(self, bv, n, elem):
        self.bv, self.n, self.elem = bv, n, elem


class StrV:
    """symbolic string"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, StrV) and o.name == self.name

    def __hash__(self):
        return hash(("str", self.name))


class Choice:
    """value a if cond else b"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and (o.cond, o.a, o.b) == (self.cond, self.a, self.b)

    def __hash__(self):
        return hash((self.cond, self.a, self.b))


class Undef:
    pass


UNDEF = Undef()


class IterV:
    """concrete python iterable of values (enumerate/zip/... results)"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls
