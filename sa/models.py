"""Transfer functions of the external vocabulary (builtins, numpy, scipy, pydantic, multiprocessing)."""
import ast
import math
from fractions import Fraction
from itertools import product

from .alg import (special, ieee, Poly, P, ZERO, ONE, Atom, atom, Lin, ppow, subst, ite, b_not, b_and, b_or, cmp_lt, cmp_le, cmp_eq,
                  ind, equal, NONNEG, POS, all_atoms, bvs)
from .values import *
from . import arrays as A
from .arrays import ShapeError, unk_poly, dim, as_arr, polys_of

NP = {}
PI = P(atom("pi", scalar=True))
POS.add(atom("pi", scalar=True))
EPS = P(Fraction(1, 2 ** 52))


def npf(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def dead(I, exc, node=None):
    from .interp import Dead
    return Dead(exc, I.loc(node))


# ---------------------------------------------------------------- conversions
def to_array(I, v):
    v = I.deref(v)
    if isinstance(v, (Arr, LinV, BlockV)):
        return v
    if isinstance(v, RangeV):
        k = iterate(I, v)
        if k[0] == "conc":
            return to_array(I, tuple(k[1]))
        n = v.hi - v.lo
        return Arr((dim(n),), (v.lo + v.step * P(atom("arange", scalar=False)),))
    if isinstance(v, SymSeq):
        e = I.num(v.elem)
        if isinstance(e, Arr) and e.shape is not None and all(isinstance(c, Poly) for c in e.cells):
            b = A.canon_bv(v.bv, e.cells[0] if e.cells else ZERO)
            ax = sum(1 for d in e.shape if not isinstance(d, int))
            cells = []
            for c in e.cells:
                cells.append(P(atom("map", b, v.n, subst(c, {v.bv: P(b)}), ZERO, ax, scalar=False)))
            return Arr((dim(v.n),) + e.shape, cells)
        return Arr(None, (unk_poly("sequence", *I.polys(v)),))
    if isinstance(v, (bool, int, float, Fraction, Poly)):
        return Arr((), (P(v),))
    if isinstance(v, Choice):
        return I.num(v)
    if isinstance(v, ListRef):
        items = I.st.heap[v.id][1]
    elif isinstance(v, IterV):
        items = v.items
    elif isinstance(v, tuple):
        items = v
    else:
        return None
    if not items:
        return Arr((0,), ())
    arrs = []
    for x in items:
        d = I.deref(x)
        if d is None or isinstance(d, (str, ObjRef, FuncV, DictRef)):
            arrs.append(None)
        else:
            a = to_array(I, d)
            if isinstance(a, (LinV, BlockV)):
                return Arr(None, (unk_poly("array of matrices", *I.polys(v)),))
            arrs.append(a)
    if any(a is None for a in arrs):
        return Arr((len(items),), tuple(items))
    if any(a.shape is None for a in arrs):
        return Arr(None, (unk_poly("array of unknown", *I.polys(v)),))
    sh = arrs[0].shape
    for a in arrs[1:]:
        if a.shape != sh:
            if len(a.shape) == len(sh) and all(
                    x == y or (not isinstance(x, int) and not isinstance(y, int)) for x, y in zip(a.shape, sh)):
                continue
            return Arr((len(items),), tuple(items))
    return Arr((len(items),) + sh, tuple(c for a in arrs for c in a.cells))


def arr(I, v):
    """numeric array of v (Arr) or None"""
    n = I.num(v)
    if n is None and isinstance(I.deref(v), (tuple, ListRef, IterV, RangeV, SymSeq)):
        n = to_array(I, v)
    if n is None and isinstance(I.deref(v), RangeV):
        n = to_array(I, v)
    return n


def numeric(a):
    return isinstance(a, Arr) and all(isinstance(c, Poly) for c in a.cells)


def iterate(I, v):
    v = v if not isinstance(v, (ARef, View)) else v
    if isinstance(v, (tuple,)):
        return ("conc", list(v))
    if isinstance(v, ListRef):
        items = I.st.heap[v.id][1]
        if len(items) == 1 and isinstance(items[0], Choice) and isinstance(items[0].a, tuple) and items[0].a[:1] == ("len",):
            return ("unk", items[0].cond)
        return ("conc", list(items))
    if isinstance(v, IterV):
        return ("conc", list(v.items))
    if isinstance(v, str):
        return ("conc", list(v))
    if isinstance(v, DictRef):
        return ("conc", [key_value(k) for k, _ in I.st.heap[v.id][1]])
    if isinstance(v, RangeV):
        lo, hi, st = v.lo.const(), v.hi.const(), v.step.const()
        if None not in (lo, hi, st):
            return ("conc", [P(i) for i in range(int(lo), int(hi), int(st))])
        n = v.hi - v.lo
        if v.step == ONE:
            return ("sym", n, lambda bv: v.lo + P(bv))
        if v.step == P(-1):
            return ("sym", v.lo - v.hi, lambda bv: v.lo - P(bv))
        return ("unk", n)
    if isinstance(v, SymSeq):
        def el(bv):
            e = v.elem
            if isinstance(e, Poly):
                return subst(e, {v.bv: P(bv)})
            if isinstance(e, Arr):
                return I.alloc_arr(Arr(e.shape, [subst(c, {v.bv: P(bv)}) if isinstance(c, Poly) else c for c in e.cells]))
            if isinstance(e, tuple):
                return tuple(subst(x, {v.bv: P(bv)}) if isinstance(x, Poly) else x for x in e)
            return e
        return ("sym", v.n, el)
    if isinstance(v, Choice):
        a, b = iterate(I, v.a), iterate(I, v.b)
        if a[0] == b[0] == "conc" and len(a[1]) == len(b[1]):
            return ("conc", [I.merge_val(x, y, v.cond, I.st.heap, I.st.heap, I.st.heap, {}) for x, y in zip(a[1], b[1])])
        if a[0] == b[0] == "sym" and a[1] == b[1]:
            return ("sym", a[1], lambda bv: I.merge_val(a[2](bv), b[2](bv), v.cond, I.st.heap, I.st.heap, I.st.heap, {}))
        return ("unk", v.cond)
    if v is None:
        raise dead(I, "TypeError: not iterable")
    d = I.deref(v)
    if isinstance(d, Arr):
        if d.shape is None:
            return ("unk", v)
        if d.shape == ():
            raise dead(I, "TypeError: iteration over 0-d array")
        if isinstance(d.shape[0], int):
            return ("conc", [I.getitem(v, P(i)) for i in range(d.shape[0])])
        return ("sym", d.shape[0], lambda bv: I.getitem(v, P(bv)))
    if isinstance(v, ObjRef):
        c = I.st.heap[v.id]
        if isinstance(c[1], ClassV):
            m = c[1].lookup("__iter__")
            if m is not None:
                return iterate(I, I.call(m, [v], {}))
    return ("unk", v)


def key_value(k):
    return P(k) if isinstance(k, Fraction) else (tuple(key_value(x) for x in k) if isinstance(k, tuple) else k)


# ---------------------------------------------------------------- operators
def shape_err(I, e, node, *vals):
    if isinstance(e, A.BroadcastErr):
        raise dead(I, "ValueError: " + str(e), node)
    I.event("shape-error", str(e), node)
    ps = []
    for v in vals:
        ps.extend(I.polys(v))
    return I.alloc_arr(Arr(None, (P(atom("shape_error", tuple(dict.fromkeys(ps)), scalar=False)),)))


def objdim(d):
    return P(d)


def py_const(v):
    """python constant of an abstract value, or UNDEF"""
    if isinstance(v, (str, bool)) or v is None:
        return v
    if isinstance(v, Poly):
        c = v.const()
        if c is not None:
            return int(c) if Fraction(c).denominator == 1 else float(c)
    return UNDEF


def str_format(f, args):
    cs = tuple(py_const(x) for x in args)
    if any(c is UNDEF for c in cs):
        return None
    try:
        return f(cs)
    except Exception:
        return None


def binop(I, op, a, b, node=None):
    # strings, lists, tuples
    if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod" and isinstance(a, str):
            t = str_format(lambda args: a % args, b if isinstance(b, tuple) else (b,))
            return t if t is not None else StrV("string")
        if op == "Mult":
            s, k = (a, b) if isinstance(a, str) else (b, a)
            k = I.scalar(k)
            if isinstance(s, str) and k is not None and k.const() is not None:
                return s * int(k.const())
        return StrV("string")
    if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, (ListRef, IterV)) and isinstance(b, (ListRef, IterV)) and op == "Add":
        return I.alloc_list(list(iterate(I, a)[1]) + list(iterate(I, b)[1]))
    if op == "Add" and any(isinstance(x, SymSeq) or isinstance(x, ARef) and x.id in I.listlike for x in (a, b)) and all(
            isinstance(x, (SymSeq, ListRef, IterV)) or isinstance(x, ARef) and x.id in I.listlike for x in (a, b)):
        v = join_lists(I, a, b)
        return v if v is not None else I.unk("list sum", a, b)
    if op == "Mult" and (isinstance(a, (ListRef, tuple)) or isinstance(b, (ListRef, tuple))):
        s, k = (a, b) if isinstance(a, (ListRef, tuple)) else (b, a)
        kk = I.scalar(k) if not isinstance(k, (ARef, View)) else None
        if kk is not None and kk.const() is not None:
            items = list(iterate(I, s)[1]) * int(kk.const())
            return tuple(items) if isinstance(s, tuple) else I.alloc_list(items)
        if kk is not None and isinstance(s, ListRef) and len(I.st.heap[s.id][1]) == 1:
            I.bvn += 1
            return SymSeq(I.fresh_bv(), kk, I.freeze(I.st.heap[s.id][1][0]))
    if isinstance(a, DictRef) and isinstance(b, DictRef) and op == "BitOr":
        items = list(I.st.heap[a.id][1])
        for k, v in I.st.heap[b.id][1]:
            items = [(x, y) if x != k else (k, v) for x, y in items]
            if k not in [x for x, _ in items]:
                items.append((k, v))
        return I.alloc_dict(items)
    if isinstance(a, ObjRef) or isinstance(b, ObjRef):
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow"}
        nm = names.get(op)
        if nm:
            for o, x, pre in ((a, b, "__"), (b, a, "__r")):
                if isinstance(o, ObjRef) and isinstance(I.st.heap[o.id][1], ClassV):
                    m = I.st.heap[o.id][1].lookup(pre + nm + "__")
                    if m is not None:
                        return I.call(m, [o, x], {}, node)
        return I.unk("object arithmetic", a, b)
    x, y = arr(I, a), arr(I, b)
    if isinstance(a, Choice) and not isinstance(x, (Arr, LinV, BlockV)) or isinstance(b, Choice) and y is None:
        return I.unk("choice arithmetic", a, b)
    if x is None or y is None:
        if a is None or b is None:
            raise dead(I, "TypeError: None in arithmetic", node)
        return I.unk("arithmetic", a, b)
    if isinstance(x, (LinV, BlockV)) or isinstance(y, (LinV, BlockV)):
        return lin_binop(I, op, x, y, node)
    if not numeric(x) or not numeric(y):
        if numeric(x) or numeric(y) or True:
            return obj_binop(I, op, x, y, node)
    spx, spy = isinstance(x, SpArr), isinstance(y, SpArr)
    if spx or spy:
        scal = lambda v: v.shape is not None and all(d == 1 for d in v.shape)
        if op == "Mult" and not scal(x) and not scal(y):
            op = "MatMult"
        if op == "Pow" and spx and y.shape == () and y.cells[0].const() in (2, 3):
            r = x
            for _ in range(int(y.cells[0].const()) - 1):
                r = matmul(I, r, x)
            return I.alloc_arr(SpArr(r.shape, r.cells))
        sp = (spx and spy) or (op in ("Mult", "Div") and (spx and scal(y) or spy and scal(x)))
        if sp:
            r = I.deref(binop(I, op, Arr(x.shape, x.cells), Arr(y.shape, y.cells), node))
            return I.alloc_arr(SpArr(r.shape, r.cells)) if isinstance(r, Arr) and r.shape is not None else r
    if op == "MatMult":
        try:
            return I.alloc_arr(matmul(I, x, y))
        except ShapeError as e:
            return shape_err(I, e, node, x, y)
    f = SCALAR_OPS.get(op)
    if f is None:
        return I.unk("operator " + op, a, b)
    try:
        r = A.binop(f, x, y)
    except ShapeError as e:
        return shape_err(I, e, node, x, y)
    except (OverflowError, ZeroDivisionError):
        return I.unk("numeric", a, b)
    return I.alloc_arr(r)


def obj_binop(I, op, x, y, node):
    try:
        sh = A.broadcast_shapes(x.shape, y.shape) if x.shape is not None and y.shape is not None else None
    except ShapeError as e:
        return shape_err(I, e, node, x, y)
    if sh is None:
        return I.unk("object arrays", x, y)
    cs = [binop(I, op, p, q, node) for p, q in zip(A.expand_to(x, sh), A.expand_to(y, sh))]
    return I.alloc_arr(Arr(sh, cs))


def p_div(a, b):
    r = ieee("div", a, b)
    if r is not None:
        return r
    c = b.const()
    if c is not None and c == 0:
        return P(atom("div0", a, scalar=a.scalar()))
    return a / b


def p_add(a, b):
    r = ieee("add", a, b)
    return a + b if r is None else r


def p_sub(a, b):
    r = ieee("sub", a, b)
    return a - b if r is None else r


def p_mul(a, b):
    r = ieee("mul", a, b)
    return a * b if r is None else r


def p_pow(a, b):
    e = b.const()
    if e is None:
        c = a.const()
        if c == 1:
            return ONE
        # integer-coefficient symbolic exponents: x**(k+1) = x * x**k
        k = b.t.get((), Fraction(0))
        if k and k.denominator == 1 and b - P(k) != ZERO:
            return p_pow(a, b - P(k)) * ppow(a, k)
        return P(atom("pow", a, b, scalar=a.scalar() and b.scalar()))
    if e.denominator > 64:
        e2 = e.limit_denominator(64)
        if abs(float(e) - float(e2)) < 1e-13:
            e = e2
        else:
            return P(atom("pow", a, b, scalar=a.scalar()))
    return ppow(a, e)


def p_floordiv(a, b):
    return A.ew("floor", p_div(a, b))


def p_mod(a, b):
    return a - b * p_floordiv(a, b)


def p_bits(f):
    return f


SCALAR_OPS = {
    "Add": p_add, "Sub": p_sub, "Mult": p_mul, "Div": p_div, "Pow": p_pow,
    "FloorDiv": p_floordiv, "Mod": p_mod, "BitAnd": lambda a, b: b_and(a, b), "BitOr": lambda a, b: b_or(a, b),
    "BitXor": lambda a, b: a + b - 2 * a * b,
}


def matmul(I, x, y):
    if x.shape is None or y.shape is None:
        return A.unk("matmul", x, y)
    if x.shape == () or y.shape == ():
        raise ShapeError("matmul with a scalar operand")
    a = x if len(x.shape) > 1 else Arr((1,) + x.shape, x.cells)
    b = y if len(y.shape) > 1 else Arr(y.shape + (1,), y.cells)
    if len(a.shape) != 2 or len(b.shape) != 2:
        return A.unk("batched matmul", x, y)
    m, k = a.shape
    k2, n = b.shape
    if k != k2:
        if isinstance(k, int) or isinstance(k2, int) or (P(k) - P(k2)).const() is not None:
            raise ShapeError("matmul %r @ %r" % (x.shape, y.shape))
    shape = (() if len(x.shape) == 1 else (m,)) + (() if len(y.shape) == 1 else (n,))
    mi, ni = isinstance(m, int), isinstance(n, int)
    cells = []
    if isinstance(k, int):
        # sum over concrete index
        for i in range(m if mi else 1):
            for j in range(n if ni else 1):
                s = ZERO
                for q in range(k):
                    p = a.cells[(i * k + q) if mi else q]
                    r = b.cells[(q * n + j) if ni else q]
                    if not mi and not ni:
                        p = A.wrap(p, "bc", (1,))
                        r = A.wrap(r, "bc", (0,))
                    s = s + p * r
                cells.append(s)
    else:
        for i in range(m if mi else 1):
            for j in range(n if ni else 1):
                p, r = a.cells[i], b.cells[j]
                if mi and ni:
                    cells.append(A.red_all(p * r, "sum", (0,), (k,)))
                else:
                    cells.append(P(atom("dot", p, r, (not mi, not ni))))
    return mk2(shape, cells)


def mk2(shape, cells):
    return Arr(shape, cells)


def diag_vec(x):
    """(N,), (1,N) or (N,1) Arr -> Poly of the vector"""
    if isinstance(x, Arr) and x.shape is not None and len(x.cells) == 1 and isinstance(x.cells[0], Poly):
        return x.cells[0]
    return None


def is_zero_arr(x):
    return isinstance(x, Arr) and all(isinstance(c, Poly) and c.is_zero() for c in x.cells)


def as_lin(I, x):
    """matrix value of x"""
    if isinstance(x, LinV):
        return x
    if isinstance(x, Arr):
        if is_zero_arr(x):
            return LinV(Lin({}), True, x.shape)
        if x.shape is not None and len(x.shape) == 2 and len(x.cells) == 1 and isinstance(x.cells[0], Poly):
            return LinV(lin_of_poly(x.cells[0], x.shape), True, x.shape)
        return LinV(Lin.op(atom("matof", tuple(I.polys(x)))), True, x.shape)
    return None


def lin_of_poly(p, dims):
    """matrix given entrywise: linear in scalars"""
    r = Lin({})
    for m, c in p.t.items():
        s, v = A.split(m)
        if v:
            r = r + Lin.op(mat_atom(Poly({v: Fraction(1)}))).scale(Poly({s: c}))
        else:
            r = r + Lin.op(atom("ones2", tuple(P(d) for d in dims))).scale(Poly({s: c}))
    return r


def mat_atom(p):
    a = A.as_single(p)
    if a is not None and a.op == "entries":
        return a.args[0]
    return atom("matof", p)


def lin_binop(I, op, x, y, node):
    if isinstance(x, BlockV) or isinstance(y, BlockV):
        if op in ("Mult", "Div") and isinstance(x, BlockV) and isinstance(y, Arr) and y.shape == ():
            k = y.cells[0] if op == "Mult" else ppow(y.cells[0], Fraction(-1))
            return block_map(x, lambda b: binop(I, "Mult", b, k))
        return I.unk("block arithmetic", x, y)
    if op in ("Add", "Sub"):
        a, b = x, y
        if isinstance(a, Arr) and a.shape == () and a.cells[0].is_zero():
            return LinV(b.lin if op == "Add" else -b.lin, b.sparse, b.dims)
        if isinstance(b, Arr) and b.shape == () and b.cells[0].is_zero():
            return LinV(a.lin, a.sparse, a.dims)
        for z, o in ((a, b), (b, a)):
            if isinstance(z, Arr) and isinstance(o, LinV) and z.shape is not None and is_zero_arr(z) and o.dims is not None and \
                    len(z.shape) <= 2 and all(dim_eq(p, q) or p == 1 for p, q in zip(z.shape[::-1], o.dims[::-1])):
                return LinV(o.lin if op == "Add" or o is a else -o.lin, False, o.dims)
        if (isinstance(a, Arr) and a.shape == ()) or (isinstance(b, Arr) and b.shape == ()):
            return I.unk("matrix plus scalar", x, y)
        sp = (a.sparse if isinstance(a, LinV) else False) and (b.sparse if isinstance(b, LinV) else False)
        a, b = as_lin(I, a), as_lin(I, b)
        if not dims_agree(a.dims, b.dims):
            return shape_err(I, "matrix shapes %r and %r" % (a.dims, b.dims), node, x, y)
        return LinV(a.lin + b.lin if op == "Add" else a.lin - b.lin, sp, a.dims or b.dims)
    if op in ("Mult", "MatMult", "Div"):
        # scalar scaling
        for p, q, first in ((x, y, True), (y, x, False)):
            if isinstance(q, Arr) and q.shape is not None and all(d == 1 for d in q.shape) and isinstance(p, LinV) \
                    and (op != "MatMult"):
                k = q.cells[0]
                if op == "Div":
                    if not first:
                        break
                    k = ppow(k, Fraction(-1))
                return LinV(p.lin.scale(k), p.sparse, p.dims)
        if op == "Div":
            if isinstance(x, LinV) and isinstance(y, Arr):
                return elementwise_lin(I, x, A.binop(lambda u, v: p_div(ONE, v), Arr((), (ONE,)), y), node)
            return I.unk("matrix division", x, y)
        mm = op == "MatMult" or (isinstance(x, LinV) and x.sparse and op == "Mult") or \
            (isinstance(y, LinV) and y.sparse and op == "Mult" and isinstance(x, Arr))
        if not mm:
            if isinstance(x, LinV) and isinstance(y, LinV):
                return I.unk("elementwise matrix product", x, y)
            l, v = (x, y) if isinstance(x, LinV) else (y, x)
            return elementwise_lin(I, l, v, node)
        if isinstance(x, LinV) and isinstance(y, LinV):
            if not (x.dims is None or y.dims is None) and not dim_eq(x.dims[1], y.dims[0]):
                return shape_err(I, "matmul %r @ %r" % (x.dims, y.dims), node, x, y)
            d = (x.dims[0], y.dims[1]) if x.dims and y.dims else None
            return LinV(x.lin @ y.lin, x.sparse and y.sparse, d)
        if isinstance(x, LinV):
            return apply_lin(I, x, y, node)
        if isinstance(y, LinV):
            # row vector times matrix
            if isinstance(x, Arr) and x.shape is not None and len(x.shape) <= 2:
                xt = A.transpose(x)
                r = I.deref(apply_lin(I, LinV(y.lin.T(), y.sparse, y.dims[::-1] if y.dims else None), xt, node))
                return I.alloc_arr(A.transpose(r)) if isinstance(r, Arr) else r
            return I.unk("matmul", x, y)
    if op == "Pow" and isinstance(x, LinV):
        d = x.lin.as_diag()
        k = I.scalar(y)
        if k is not None and k.const() is not None and x.sparse and k.const().denominator == 1 and k.const() > 0:
            r = x.lin
            for _ in range(int(k.const()) - 1):
                r = r @ x.lin
            return LinV(r, x.sparse, x.dims)
    return I.unk("matrix " + op, x, y)


def elementwise_lin(I, l, v, node):
    """dense matrix times array elementwise with broadcasting: row/column scaling"""
    if isinstance(v, Arr) and v.shape is not None and len(v.cells) == 1 and isinstance(v.cells[0], Poly):
        d = Lin.diag(v.cells[0])
        if len(v.shape) == 2 and v.shape[1] == 1:
            return LinV(d @ l.lin, l.sparse, l.dims)
        if (len(v.shape) == 2 and v.shape[0] == 1) or len(v.shape) == 1:
            return LinV(l.lin @ d, l.sparse, l.dims)
    return I.unk("elementwise matrix product", l, v)


def dim_eq(a, b):
    if a == b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    if not isinstance(a, int) and not isinstance(b, int):
        c = (P(a) - P(b)).const()
        return c is None or c == 0
    return False


def dims_agree(a, b):
    if a is None or b is None:
        return True
    return len(a) == len(b) and all(dim_eq(x, y) for x, y in zip(a, b))


def apply_lin(I, l, v, node=None):
    if not isinstance(v, Arr) or not numeric(v):
        return I.unk("operator applied", l, v)
    if v.shape is None:
        return I.unk("operator applied", l, v)
    if v.shape == ():
        if l.sparse:
            return LinV(l.lin.scale(v.cells[0]), l.sparse, l.dims)
        return shape_err(I, "matmul with scalar", node, l, v)
    if l.dims is not None and not dim_eq(l.dims[1], v.shape[0]):
        return shape_err(I, "matmul %r @ %r" % (l.dims, v.shape), node, l, v)
    out0 = l.dims[0] if l.dims is not None else v.shape[0]
    if isinstance(v.shape[0], int) and v.shape[0] > 1 and len(v.shape) <= 2 and all(isinstance(d, int) for d in v.shape):
        if out0 == v.shape[0]:
            return I.alloc_arr(A.perm_apply(l.lin, v))
        return I.unk("operator applied", l, v)
    if len(v.shape) == 1 or (len(v.shape) == 2 and isinstance(v.shape[1], int)):
        return I.alloc_arr(Arr((out0,) + v.shape[1:], [l.lin.apply(c) for c in v.cells]))
    if len(v.shape) == 2:
        m = as_lin(I, v)
        return LinV(l.lin @ m.lin, False, (out0, v.shape[1]))
    return I.unk("operator applied", l, v)


def neg(x):
    if isinstance(x, LinV):
        return LinV(-x.lin, x.sparse, x.dims)
    if isinstance(x, Poly):
        return -x
    if isinstance(x, Arr):
        return Arr(x.shape, [-c for c in x.cells])
    return x


def block_map(b, f):
    return BlockV([[f(x) for x in r] for r in b.rows], b.sparse)


# ---------------------------------------------------------------- comparison
def compare(I, op, l, r, node=None):
    if op in ("Is", "IsNot"):
        v = is_same(I, l, r)
        if isinstance(v, bool):
            return v if op == "Is" else not v
        return v if op == "Is" else b_not(v)
    if op in ("In", "NotIn"):
        v = contains(I, l, r, node)
        if op == "In":
            return v
        return (not v) if isinstance(v, bool) else b_not(v)
    if isinstance(l, Choice) and not numeric_choice(l) or isinstance(r, Choice) and not numeric_choice(r):
        ch, oth, left = (l, r, True) if isinstance(l, Choice) and not numeric_choice(l) else (r, l, False)
        a = I.truth(compare(I, op, ch.a, oth, node) if left else compare(I, op, oth, ch.a, node))
        b = I.truth(compare(I, op, ch.b, oth, node) if left else compare(I, op, oth, ch.b, node))
        p = ite(ch.cond, P(a), P(b))
        return bool(p.const()) if p.const() is not None else p
    simple = (str, type(None), bool)
    if op in ("Eq", "NotEq"):
        v = None
        if isinstance(l, StrV) or isinstance(r, StrV):
            x, y = sorted([repr_val(l), repr_val(r)])
            v = True if l == r else ind("streq", x, y)
        elif isinstance(l, str) or isinstance(r, str):
            v = l == r if isinstance(l, str) and isinstance(r, str) else False
        elif l is None or r is None:
            v = l is None and r is None
        elif isinstance(l, (tuple, ListRef, IterV)) and isinstance(r, (tuple, ListRef, IterV)):
            a, b = iterate(I, l), iterate(I, r)
            if a[0] == b[0] == "conc":
                if len(a[1]) != len(b[1]):
                    v = False
                else:
                    acc = ONE
                    for x, y in zip(a[1], b[1]):
                        acc = acc * P(I.truth(compare(I, "Eq", x, y, node)))
                    v = bool(acc.const()) if acc.const() is not None else acc
        elif isinstance(l, (ObjRef, ClassV, FuncV, ExtV, DictRef)) or isinstance(r, (ObjRef, ClassV, FuncV, ExtV, DictRef)):
            v = l == r
            if isinstance(l, DictRef) and isinstance(r, DictRef):
                v = I.st.heap[l.id][1] == I.st.heap[r.id][1]
        if v is not None:
            if op == "Eq":
                return v
            return (not v) if isinstance(v, bool) else b_not(v)
    if isinstance(l, str) and isinstance(r, str):
        return {"Lt": l < r, "Gt": l > r, "LtE": l <= r, "GtE": l >= r}[op]
    x, y = arr(I, l), arr(I, r)
    if x is None or y is None or isinstance(x, (LinV, BlockV)) or isinstance(y, (LinV, BlockV)):
        if op in ("Lt", "Gt", "LtE", "GtE") and (l is None or r is None):
            raise dead(I, "TypeError: ordering with None", node)
        return ind("cmp", op, tuple(I.polys(l)), tuple(I.polys(r)))
    if not numeric(x) or not numeric(y):
        return ind("cmp", op, tuple(I.polys(l)), tuple(I.polys(r)))
    f = {"Lt": cmp_lt, "Gt": lambda a, b: cmp_lt(b, a), "LtE": cmp_le, "GtE": lambda a, b: cmp_le(b, a),
         "Eq": cmp_eq, "NotEq": lambda a, b: b_not(cmp_eq(a, b))}[op]
    try:
        z = A.binop(f, x, y)
    except ShapeError as e:
        return shape_err(I, e, node, x, y)
    if z.shape == ():
        c = z.cells[0].const()
        return bool(c) if c is not None else z.cells[0]
    return I.boolean(I.alloc_arr(z))


def numeric_choice(c):
    ok = (Poly, bool, int, Fraction, ARef, View)
    return isinstance(c.a, ok) and isinstance(c.b, ok)


def repr_val(v):
    return "S:" + v.name if isinstance(v, StrV) else "L:" + str(v)


def is_same(I, l, r):
    if isinstance(l, Choice) or isinstance(r, Choice):
        ch, o = (l, r) if isinstance(l, Choice) else (r, l)
        a, b = is_same(I, ch.a, o), is_same(I, ch.b, o)
        p = ite(ch.cond, P(a), P(b))
        return bool(p.const()) if p.const() is not None else p
    if l is None or r is None:
        return l is None and r is None
    if isinstance(l, bool) and isinstance(r, bool):
        return l == r
    if isinstance(l, bool) or isinstance(r, bool):
        b, o = (l, r) if isinstance(l, bool) else (r, l)
        d = o
        if isinstance(d, Poly):
            if I.is_bool(d) and d.const() is None:
                return d if b else b_not(d)
            if d.const() is not None and d.const() in (0, 1) and getattr(I, "bool_consts", False):
                return bool(d.const()) == b
            return False
        if isinstance(d, (ARef, View)):
            return False
        return False
    if isinstance(l, Poly) and isinstance(r, Poly):
        if l.const() is not None and r.const() is not None:
            return l == r
        return True if l == r else ind("is", l, r)
    if isinstance(l, str) and isinstance(r, str):
        return l == r
    try:
        return l == r
    except Exception:
        return l is r


def contains(I, l, r, node):
    if isinstance(r, str):
        if isinstance(l, str):
            return l in r
        return ind("in", repr_val(l), r)
    if isinstance(r, DictRef):
        keys = [k for k, _ in I.st.heap[r.id][1]]
        k = I.dict_key(l)
        if isinstance(l, (StrV, Choice)) or (isinstance(k, Poly)):
            if isinstance(l, StrV) and any(isinstance(q, StrV) and q == l for q in keys):
                return True
            items = [compare(I, "Eq", l, key_value(q), node) for q in keys]
            return any_of(I, items)
        return k in keys
    if isinstance(r, ObjRef):
        c = I.st.heap[r.id]
        if isinstance(c[1], ClassV):
            m = c[1].lookup("__contains__")
            if m is not None:
                return I.call(m, [r, l], {}, node)
    k = iterate(I, r)
    if k[0] == "conc":
        return any_of(I, [compare(I, "Eq", l, x, node) for x in k[1]])
    return ind("in", tuple(I.polys(l)), tuple(I.polys(r)))


def any_of(I, items):
    acc = ZERO
    for x in items:
        t = I.truth(x)
        if t is True:
            return True
        if t is False:
            continue
        acc = b_or(acc, t)
    c = acc.const()
    return bool(c) if c is not None else acc


# ---------------------------------------------------------------- attributes
def shape_val(sh):
    return tuple(P(d) for d in sh)


def value_attr(I, o, name, node=None, default=UNDEF):
    d = I.deref(o)
    if isinstance(o, (str, StrV, tuple, ListRef, DictRef, IterV, SymSeq, RangeV)):
        return ExtM(o, name)
    if isinstance(d, (bool, int, float, Fraction)):
        d = Arr((), (P(d),))
    if isinstance(d, Poly):
        d = Arr((), (d,))
    if isinstance(d, Arr):
        if name == "shape":
            if d.shape is None:
                return (P(atom("unk", "dim", tuple(I.polys(d)), scalar=True)),) * 1
            return shape_val(d.shape)
        if name == "size":
            return A.size(d.shape) if d.shape is not None else P(atom("unk", "size", tuple(I.polys(d)), scalar=True))
        if name == "ndim":
            return P(len(d.shape)) if d.shape is not None else P(atom("unk", "ndim", tuple(I.polys(d)), scalar=True))
        if name == "T":
            return derived(I, o, A.transpose(d), A.transpose, lambda b, w: A.transpose(w))
        if name in ("real",):
            return o
        if name == "imag":
            return I.alloc_arr(Arr(d.shape, [ZERO] * len(d.cells)))
        if name == "dtype":
            return ExtV("numpy.dtype")
        if name == "flat":
            return I.alloc_arr(A.reshape(d, (-1,)))
        return ExtM(o, name)
    if isinstance(d, LinV):
        if name in ("T",):
            return LinV(d.lin.T(), d.sparse, d.dims[::-1] if d.dims else None)
        if name in ("real",):
            return d
        if name in ("A",):
            return LinV(d.lin, False, d.dims)
        if name == "shape":
            return shape_val(d.dims) if d.dims else tuple(P(atom("unk", "dim%d" % i, (d.lin,), scalar=True)) for i in (0, 1))
        return ExtM(d, name)
    if isinstance(d, BlockV):
        if name == "T":
            return BlockV([[transpose_block(I, x) for x in col] for col in zip(*d.rows)], d.sparse)
        if name == "shape":
            return block_shape(I, d)
        if name == "A":
            return BlockV(d.rows, False)
        return ExtM(d, name)
    if isinstance(o, (ExtM, FuncV, BoundM)):
        if name in ("__name__",):
            return getattr(o, "name", "f")
        if default is not UNDEF:
            return default
        return ExtM(o, name)
    if default is not UNDEF:
        return default
    if isinstance(o, Choice):
        return I.unk("attribute of choice", o)
    return ExtM(o, name)


def transpose_block(I, x):
    if isinstance(x, LinV):
        return LinV(x.lin.T(), x.sparse, x.dims[::-1] if x.dims else None)
    d = I.deref(x)
    return A.transpose(d) if isinstance(d, Arr) and d.shape is not None and len(d.shape) > 1 else d


def block_shape(I, d):
    r = ZERO
    for row in d.rows:
        r = r + P(bdims(I, row[0])[0])
    c = ZERO
    for x in d.rows[0]:
        c = c + P(bdims(I, x)[1])
    return (r, c)


def bdims(I, x):
    if isinstance(x, LinV):
        return x.dims or (P(atom("unk", "bdim", (), scalar=True)),) * 2
    d = x if isinstance(x, Arr) else I.num(x)
    if isinstance(d, Arr) and d.shape is not None:
        return ((1,) * (2 - len(d.shape)) + tuple(d.shape))[:2]
    return (P(atom("unk", "bdim", (), scalar=True)),) * 2


def derived(I, base, a, fwd=None, back=None):
    """array derived from base sharing memory in numpy; fwd and back when it certainly does, and how"""
    r = I.alloc_arr(a)
    if fwd is not None and isinstance(base, (ARef, View)) and isinstance(a, Arr) and a.shape is not None:
        return I.link(r, base, fwd, back)
    return I.mark_view(r, base)


def ext_const(I, name):
    n = name.replace("numpy.linalg", "linalg")
    if name in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
        return PI
    if name in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan"):
        return P(atom("const", "nan", scalar=True))
    if name in ("numpy.inf", "numpy.Inf", "math.inf", "numpy.Infinity"):
        return P(atom("const", "inf", scalar=True))
    if name in ("numpy.NINF",):
        return -P(atom("const", "inf", scalar=True))
    if name in ("numpy.e", "math.e"):
        return P(atom("const", "e", scalar=True))
    if name == "numpy.newaxis":
        return None
    if name == "sys.float_info.epsilon":
        return EPS
    return UNDEF


def ext_index(I, o, k, node=None):
    if isinstance(o, ExtV) and o.name in ("numpy.r_", "numpy.c_", "numpy.s_"):
        if o.name == "numpy.s_":
            return k
        items = k if isinstance(k, tuple) else (k,)
        return call_np(I, "hstack" if o.name == "numpy.r_" else "column_stack", [tuple(items)], {}, node)
    if isinstance(o, ExtM):
        d = I.deref(o.obj)
        return I.unk("index " + o.name, d)
    return ExtV(o.name + "[]")    # typing generics


def cut(offs, sel):
    """block range [i, j) selected by a slice or index over block offsets, plus whether the axis is dropped"""
    tot = offs[-1]
    if isinstance(sel, SliceV):
        if sel.step is not None:
            return None
        ends = []
        for v, dflt in ((sel.lo, ZERO), (sel.hi, tot)):
            v = dflt if v is None else P(v)
            if v.const() is not None and v.const() < 0:
                v = tot + v
            hit = [i for i, o in enumerate(offs) if equal(o, v)]
            if not hit:
                return None
            ends.append(hit[0])
        return ends[0], ends[1], False
    if isinstance(sel, Poly):
        v = tot + sel if sel.const() is not None and sel.const() < 0 else sel
        for i in range(len(offs) - 1):
            if equal(offs[i], v) and equal(offs[i + 1] - offs[i], ONE):
                return i, i + 1, True
    return None


def marked(d):
    """whether a store into the block matrix could only be recorded, not applied"""
    return any(isinstance(row[0], tuple) for row in d.rows)


def block_offsets(I, d):
    ro, co = [ZERO], [ZERO]
    for row in d.rows:
        ro.append(ro[-1] + P(bdims(I, row[0])[0]))
    for x in d.rows[0]:
        co.append(co[-1] + P(bdims(I, x)[1]))
    return ro, co


def block_store(I, d, k, v):
    """block matrix after a store that lies in one array block, or None"""
    ks = k if isinstance(k, tuple) else (k, SliceV())
    nv = I.num(v)
    if len(ks) != 2 or marked(d) or not isinstance(nv, Arr):
        return None
    ro, co = block_offsets(I, d)
    r = cut(ro, ks[0])
    if r is None or r[1] - r[0] != 1:
        return None
    c = cut(co, ks[1])
    if c is not None and c[1] - c[0] == 1:
        at = ZERO if c[2] else SliceV()
        c = c[0]
    elif len(d.rows[0]) == 1 and isinstance(ks[1], Poly):
        at, c = ks[1], 0
    else:
        return None
    b = d.rows[r[0]][c]
    if not isinstance(b, Arr):
        b = I.num(b)
    if not isinstance(b, Arr):
        return None
    try:
        nb = A.setitem(b, (ZERO if r[2] else SliceV(), at), nv.cells[0] if nv.shape == () else nv)
    except ShapeError:
        return None
    rows = [list(row) for row in d.rows]
    rows[r[0]][c] = nb
    return BlockV(rows, d.sparse)


def block_index(I, d, k):
    ks = k if isinstance(k, tuple) else (k, SliceV())
    if len(ks) != 2:
        return I.unk("block index", d)
    if marked(d):
        return I.unk("block index", d)
    ro, co = block_offsets(I, d)
    r, c = cut(ro, ks[0]), cut(co, ks[1])
    if r is None or c is None:
        return I.unk("block index", d)
    rows = [row[c[0]:c[1]] for row in d.rows[r[0]:r[1]]]
    if len(rows) == 1 and len(rows[0]) == 1:
        b = rows[0][0]
        if r[2] or c[2]:
            return I.getitem(b, tuple(ZERO if q[2] else SliceV() for q in (r, c)))
        return b
    if r[2] or c[2]:
        return I.unk("block index", d)
    return BlockV(rows, d.sparse)


def lin_index(I, d, k):
    if isinstance(d, BlockV):
        return block_index(I, d, k)
    ks = k if isinstance(k, tuple) else (k,)
    if len(ks) == 2 and all(isinstance(x, SliceV) for x in ks) and d.dims is not None:
        r = [A.norm_slice(x, n) for x, n in zip(ks, d.dims)]
        if all(x[0] == "all" for x in r):
            return d
        lo = [ZERO if x[0] == "all" else P(x[1]) if x[0] == "slice" else None for x in r]
        hi = [P(n) if x[0] == "all" else P(x[2]) if x[0] == "slice" else None for x, n in zip(r, d.dims)]
        if None not in lo and None not in hi:
            desc = (tuple(lo), tuple(hi))
            t = Lin({})
            for w, c in d.lin.t.items():
                t = t + Lin.op(atom("subblk", Lin({w: ONE}), desc)).scale(c)
            return LinV(t, d.sparse, tuple(dim(h - l) for l, h in zip(lo, hi)))
    if len(ks) == 2 and isinstance(ks[0], SliceV) and ks[0].full() and isinstance(ks[1], Poly):
        n = d.dims[0] if d.dims else P(atom("unk", "rows", (d.lin,), scalar=True))
        r = ZERO
        for w, c in d.lin.t.items():
            r = r + c * P(atom("col", Lin({w: ONE}), ks[1]))
        return I.alloc_arr(Arr((n,), (r,)))
    if len(ks) >= 1 and isinstance(ks[0], Poly) and (len(ks) == 1 or isinstance(ks[1], SliceV) and ks[1].full()):
        n = d.dims[1] if d.dims else P(atom("unk", "cols", (d.lin,), scalar=True))
        r = ZERO
        for w, c in d.lin.T().t.items():
            r = r + c * P(atom("col", Lin({w: ONE}), ks[0]))
        return I.alloc_arr(Arr((n,), (r,)))
    if len(ks) == 2 and isinstance(ks[0], Poly) and isinstance(ks[1], Poly):
        r = ZERO
        for w, c in d.lin.t.items():
            r = r + c * P(atom("entry", Lin({w: ONE}), ks[0], ks[1], scalar=True))
        return r
    return I.unk("matrix index", d)


def lin_store(I, d, k, v):
    """value of the matrix after storing v at k"""
    if isinstance(d, BlockV):
        n = block_store(I, d, k, v)
        if n is not None:
            return n
        return BlockV(d.rows + ((("stored", I.dict_key(k) if not isinstance(k, SliceV) else k.key(),
                                   tuple(I.polys(v))),),), d.sparse)
    old = lin_index(I, d, k)
    nv = I.num(v)
    ks = k if isinstance(k, tuple) else (k,)
    if isinstance(old, LinV):
        n = as_lin(I, nv) if nv is not None else None
        if n is not None and d.dims is not None:
            delta = n.lin - old.lin
            if delta.is_zero():
                return d
            r = [A.norm_slice(x, m) for x, m in zip(ks, d.dims)]
            lo = tuple(ZERO if x[0] == "all" else P(x[1]) for x in r)
            t = d.lin
            for w, c in delta.t.items():
                t = t + Lin.op(atom("embed", Lin({w: ONE}), lo, tuple(P(x) for x in d.dims))).scale(c)
            return LinV(t, d.sparse, d.dims)
    return LinV(Lin.op(atom("stored", d.lin, repr(k), tuple(I.polys(v)))), d.sparse, d.dims)


# ---------------------------------------------------------------- objects
def class_attr(I, o, cls, name):
    f = cls.fields()
    if name in f:
        return f[name]
    if any(b.split(".")[-1] == "BaseModel" for b in cls.ext_bases()):
        return ExtM(o, name)
    return UNDEF


def lazy_attr(I, o, c, name):
    h = getattr(I, "lazy", None)
    if h is not None:
        return h(o, c, name)
    return UNDEF


def default_of(I, o):
    return getattr(I, "dict_defaults", {}).get(o.id, UNDEF)


def is_open(I, o):
    return o.id in getattr(I, "open_dicts", ())


def model_fields(I, cls):
    """ordered field -> default (UNDEF if required)"""
    out = {}
    for b in cls.bases:
        if isinstance(b, ClassV):
            out.update(model_fields(I, b))
    import ast
    for s in cls.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out[s.target.id] = cls.ns.get(s.target.id, UNDEF)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and not t.id.startswith("_") and t.id in cls.ns:
                    v = cls.ns[t.id]
                    if not isinstance(v, (FuncV, DecoV, ClassV)) and t.id not in ("Config", "model_config"):
                        out[t.id] = v
    return out


def validators(cls):
    out = []
    for b in cls.bases:
        if isinstance(b, ClassV):
            out.extend(validators(b))
    names = [x[0] for x in out]
    for k, v in cls.ns.items():
        d = v
        while isinstance(d, DecoV):
            if d.kind in ("validator", "field_validator", "root_validator"):
                out = [x for x in out if x[0] != k]
                f = d.func
                while isinstance(f, DecoV):
                    f = f.func
                out.append((k, d.kind, [a for a in d.args if isinstance(a, str)], f))
                break
            d = d.func
    return out


def copy_default(I, v):
    """pydantic copies mutable defaults"""
    if isinstance(v, ListRef):
        return I.alloc_list(I.st.heap[v.id][1])
    if isinstance(v, DictRef):
        return I.alloc_dict(I.st.heap[v.id][1])
    return v


def pydantic_new(I, cls, o, args, kw):
    fields = model_fields(I, cls)
    at = {}
    for k, d in fields.items():
        if k in kw:
            at[k] = kw[k]
        elif d is UNDEF:
            raise dead(I, "ValidationError: %s missing" % k)
        else:
            d = factory_value(I, d)
            at[k] = copy_default(I, d)
    for k in kw:
        if k not in fields and k != "**":
            I.event("unknown-option", "%s(%s)" % (cls.name, k))
    I.st.heap[o.id] = ("obj", cls, at)
    for name, kind, names, f in validators(cls):
        if kind == "root_validator":
            continue
        for fld in names:
            for k in (fields if fld == "*" else [fld]):
                if k in kw and k in at:
                    na = len(f.node.args.args)
                    a = [cls, at[k]] + ([I.alloc_dict(list(at.items()))] if na > 2 else [])
                    v = I.call(f, a, {})
                    c = I.st.heap[o.id]
                    at = dict(c[2])
                    at[k] = v
                    I.st.heap[o.id] = ("obj", cls, at)
    return o


def factory_value(I, d):
    if isinstance(d, DictRef):
        items = dict(I.st.heap[d.id][1])
        if "__field__" in items:
            if "default_factory" in items:
                return I.call(items["default_factory"], [], {})
            return items.get("default", UNDEF)
    return d


def dataclass_new(I, cls, o, args, kw):
    fields = model_fields(I, cls)
    at = {}
    names = list(fields)
    for k, v in zip(names, args):
        at[k] = v
    for k, v in kw.items():
        at[k] = v
    for k, d in fields.items():
        if k not in at:
            if d is UNDEF:
                raise dead(I, "TypeError: missing field %s" % k)
            at[k] = factory_value(I, d)
    I.st.heap[o.id] = ("obj", cls, at)
    post = cls.lookup("__post_init__")
    if post is not None:
        I.call(post, [o], {})
    return o


# ---------------------------------------------------------------- deep copies
def deep_copy(I, v, src=None, memo=None, depth=None):
    """copy v (living in heap src) into the current heap; depth None = fully deep"""
    src = src if src is not None else I.st.heap
    memo = {} if memo is None else memo
    if isinstance(v, (ARef, ObjRef, ListRef, DictRef)):
        if v in memo:
            return memo[v]
        c = src.get(v.id)
        if c is None:
            return v
        i = I.newid()
        r = type(v)(i)
        memo[v] = r
        if c[0] == "arr":
            a = c[1]
            if isinstance(a, Arr) and not numeric(a):
                I.st.heap[i] = ("arr", a)
                a = Arr(a.shape, [deep_copy(I, x, src, memo) for x in a.cells])
            I.st.heap[i] = ("arr", a)
        elif c[0] == "obj":
            I.st.heap[i] = ("obj", c[1], {})
            I.st.heap[i] = ("obj", c[1], {k: deep_copy(I, x, src, memo) for k, x in c[2].items()})
            if v.id in I.objnames:
                I.objnames[i] = I.objnames[v.id]
        elif c[0] == "list":
            I.st.heap[i] = ("list", tuple(deep_copy(I, x, src, memo) for x in c[1]))
        elif c[0] == "dict":
            I.st.heap[i] = ("dict", tuple((k, deep_copy(I, x, src, memo)) for k, x in c[1]))
        return r
    if isinstance(v, View):
        return I.alloc_arr(I.deref_in(v, src))
    if isinstance(v, tuple):
        return tuple(deep_copy(I, x, src, memo) for x in v)
    if isinstance(v, BoundM):
        return BoundM(deep_copy(I, v.obj, src, memo), v.func)
    if isinstance(v, Choice):
        return Choice(v.cond, deep_copy(I, v.a, src, memo), deep_copy(I, v.b, src, memo))
    return v


def shallow_copy(I, v):
    if isinstance(v, (ARef, View)):
        return I.alloc_arr(I.deref(v))
    if isinstance(v, ListRef):
        return I.alloc_list(I.st.heap[v.id][1])
    if isinstance(v, DictRef):
        return I.alloc_dict(I.st.heap[v.id][1])
    if isinstance(v, ObjRef):
        c = I.st.heap[v.id]
        return I.alloc_obj(c[1], c[2])
    if isinstance(v, Choice):
        return Choice(v.cond, shallow_copy(I, v.a), shallow_copy(I, v.b))
    return v


# ---------------------------------------------------------------- external calls
# operand whose dependences are not followed
OPAQUE = P(atom("opaque", scalar=False))


def uninterp(I, name, args, kw, shape=None):
    ps = []
    for v in args:
        d = I.deref(v)
        if isinstance(d, (str, type(None), bool)):
            ps.append(("lit", str(d)))
        else:
            ps.append(tuple(I.polys(v)))
        if I.opaque(d):
            ps.append((OPAQUE,))
    for k in sorted(kw):
        d = I.deref(kw[k])
        if I.opaque(d):
            ps.append((OPAQUE,))
        ps.append((k, str(d)) if isinstance(d, (str, type(None), bool)) else (k, tuple(I.polys(kw[k]))))
    if shape is not None and any(isinstance(d, int) and d != 1 for d in shape):
        sc = all(isinstance(d, int) for d in shape)
        return I.alloc_arr(Arr(shape, [P(atom("call", name, tuple(ps) + (("at",) + pt,), scalar=sc)) for pt in A.cell_points(shape)]))
    return I.alloc_arr(Arr(shape, (P(atom("call", name, tuple(ps), scalar=shape == ())),)))


def call_ext(I, f, args, kw, node=None):
    if isinstance(f, ExtM):
        return call_method(I, f.obj, f.name, args, kw, node)
    name = f.name
    if name in I.overrides:
        ov = I.overrides[name]
        return ov(I, args, kw) if callable(ov) else I.call(ov, args, kw, node)
    last = name.split(".")[-1]
    root = name.split(".")[0]
    if root == "builtins":
        h = BUILTIN.get(name[9:]) or BUILTIN.get(last)
        if h is not None:
            return h(I, args, kw, node)
        if last in EXC or last.endswith(("Error", "Warning", "Exception")):
            return ExtV("exception." + last)
        return uninterp(I, name, args, kw)
    if root in ("numpy", "scipy", "math"):
        key = ".".join(name.split(".")[1:])
        for k in (key, last):
            if k in NP:
                return NP[k](I, args, kw, node)
        if name.startswith("numpy.float") or last in ("float64", "float", "int64", "int32", "float32", "double", "single", "half", "int_", "intp"):
            return cast(I, args[0], last) if args else ZERO
        I.event("uninterpreted", name, node)
        return uninterp(I, name, args, kw)
    h = OTHER.get(name) or OTHER.get(last if root in ("copy", "warnings", "dataclasses", "functools", "itertools",
                                                     "multiprocessing", "pydantic", "typing", "collections", "operator")
                                     else "")
    if h is not None:
        return h(I, args, kw, node)
    if root in ("time", "sys", "os", "logging", "matplotlib", "tqdm"):
        return uninterp(I, name, args, kw)
    I.event("uninterpreted", name, node)
    return uninterp(I, name, args, kw)


def call_np(I, name, args, kw, node=None):
    return NP[name](I, args, kw, node)


EXC = {"Exception", "StopIteration", "SystemExit", "KeyboardInterrupt"}
BUILTIN = {}
OTHER = {}


def bi(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco


def ot(*names):
    def deco(f):
        for n in names:
            OTHER[n] = f
        return f
    return deco


@bi("range")
def b_range(I, args, kw, node):
    v = [I.scalar(a) for a in args]
    if any(x is None for x in v):
        v = [x if x is not None else P(atom("unk", "range", tuple(I.polys(a)), scalar=True)) for x, a in zip(v, args)]
    if len(v) == 1:
        return RangeV(ZERO, v[0])
    if len(v) == 2:
        return RangeV(v[0], v[1])
    return RangeV(*v)


def join_lists(I, a, b):
    """one list behind another, at least one of symbolic length: the array of their elements"""
    parts = []
    for x in (a, b):
        k = iterate(I, x)
        if k[0] == "conc" and not k[1]:
            continue
        y = to_array(I, x) if not isinstance(x, (ARef, View)) else I.num(x)
        if not isinstance(y, Arr) or y.shape is None or len(y.shape) != 1 or not numeric(y):
            return None
        parts.append(y)
    if not parts:
        return None
    r = I.alloc_arr(A.concat(parts, 0))
    I.listlike.add(r.id)
    return r


def length(I, v, node=None):
    if isinstance(v, Choice):
        return ite(v.cond, length(I, v.a, node), length(I, v.b, node))
    if isinstance(v, (tuple, str)):
        return P(len(v))
    if isinstance(v, (ListRef, DictRef)):
        return P(len(I.st.heap[v.id][1]))
    if isinstance(v, IterV):
        return P(len(v.items))
    if isinstance(v, SymSeq):
        return v.n
    if isinstance(v, RangeV):
        return v.hi - v.lo
    if isinstance(v, StrV):
        return P(atom("in", "len(%s)" % v.name, scalar=True))
    if v is None:
        raise dead(I, "TypeError: len of None", node)
    d = I.deref(v)
    if isinstance(d, Arr):
        if d.shape is None:
            return P(atom("unk", "length", tuple(I.polys(d)), scalar=True))
        if d.shape == ():
            raise dead(I, "TypeError: len of unsized object", node)
        return P(d.shape[0])
    if isinstance(d, LinV) and d.dims:
        return P(d.dims[0])
    if isinstance(v, ObjRef) and isinstance(I.st.heap[v.id][1], ClassV):
        m = I.st.heap[v.id][1].lookup("__len__")
        if m is not None:
            return I.call(m, [v], {}, node)
    return P(atom("unk", "length", tuple(I.polys(v)), scalar=True))


@bi("len")
def b_len(I, args, kw, node):
    return length(I, args[0], node)


def fold_minmax(I, which, items, node):
    if not items:
        raise dead(I, "ValueError: %s of empty sequence" % which, node)
    ps = []
    for x in items:
        if x is None:
            raise dead(I, "TypeError: None in %s" % which, node)
        s = I.scalar(x)
        if s is None:
            return I.unk(which, *items)
        ps.append(s)
    if any(special(p) == "nan" for p in ps):
        # comparisons with a nan are false: the result depends on the order
        b = ps[0]
        for p in ps[1:]:
            c = A.cmp_lt(b, p) if which == "max" else A.cmp_lt(p, b)
            b = A.ite(c, p, b)
        return b
    return A.ew(which, *ps) if len(ps) > 1 else ps[0]


def b_minmax(which):
    def f(I, args, kw, node):
        items = args
        if len(args) == 1:
            k = iterate(I, args[0])
            if k[0] == "sym":
                bv = I.fresh_bv()
                e = I.scalar(k[2](bv))
                if e is not None:
                    nb = A.canon_bv(bv, e)
                    return P(atom("maxred", nb, P(k[1]), which, subst(e, {bv: P(nb)}), scalar=True))
            if k[0] != "conc":
                return I.unk(which, args[0])
            items = k[1]
            if not items and "default" in kw:
                return kw["default"]
        if kw.get("key") is not None:
            ks = [I.scalar(I.call(kw["key"], [x], {}, node)) for x in items]
            ps = [I.scalar(x) for x in items]
            if not items or any(x is None for x in ks + ps):
                cs = [k.const() if k is not None else None for k in ks]
                if items and None not in cs:
                    return items[cs.index(max(cs) if which == "max" else min(cs))]
                return I.unk(which + " with key", *items)
            b, kb = ps[0], ks[0]
            for x, kx in zip(ps[1:], ks[1:]):
                c = A.cmp_lt(kb, kx) if which == "max" else A.cmp_lt(kx, kb)
                b, kb = A.ite(c, x, b), A.ite(c, kx, kb)
            return b
        return fold_minmax(I, which, items, node)
    return f


BUILTIN["max"] = b_minmax("max")
BUILTIN["min"] = b_minmax("min")


@bi("abs")
def b_abs(I, args, kw, node):
    return ewf(I, "abs", args[0])


@bi("sum")
def b_sum(I, args, kw, node):
    k = iterate(I, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if k[0] == "conc":
        r = start
        for x in k[1]:
            r = binop(I, "Add", r, x, node)
        return r
    if k[0] == "sym":
        bv = I.fresh_bv()
        e = I.num(k[2](bv))
        if isinstance(e, Arr) and numeric(e):
            a = Arr(e.shape, [A.bsum(bv, P(k[1]), c) for c in e.cells])
            return binop(I, "Add", start, I.alloc_arr(a), node)
    return I.unk("sum", args[0])


NARROW = {"float32": "f32", "single": "f32", "float16": "f32", "half": "f32", "f4": "f32", "f2": "f32", "f": "f32", "<f4": "f32"}
WHOLE = {"int", "int_", "intp", "intc", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "long", "i4", "i8", "i", "integer"}


def kind_named(d):
    """element type of a dtype argument: 'int', 'f32', 'other' or None if there is none"""
    if d is None:
        return None
    n = d if isinstance(d, str) else getattr(d, "name", None)
    if not isinstance(n, str):
        return "other"
    n = n.split(".")[-1]
    return NARROW.get(n) or ("int" if n in WHOLE else "other")


def to_kind(I, a, kind):
    """what an array of that element type keeps of the values"""
    if kind == "f32":
        return Arr(a.shape, [narrow(c) for c in a.cells])
    if kind == "int":
        return Arr(a.shape, [cast(I, c, "int") if isinstance(c, Poly) and not I.is_bool(c) else c for c in a.cells])
    return a


def narrow(c):
    if not isinstance(c, Poly):
        return c
    v = c.const()
    if v is not None and v.denominator & (v.denominator - 1) == 0 and abs(v.numerator) < 2 ** 24 and v.denominator < 2 ** 24:
        return c
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ew" and m[0][0].args[0] == "f32":
            return c
    if all(a.op == "uninit" for a in all_atoms(c)) and c.const() is None:
        return c
    return A.ew("f32", c)


def whole_literal(n):
    """a list of whole number literals"""
    if isinstance(n, (ast.List, ast.Tuple)):
        return bool(n.elts) and all(whole_literal(e) for e in n.elts)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        return whole_literal(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and isinstance(n.left, (ast.List, ast.Tuple)):
        return whole_literal(n.left)
    return isinstance(n, ast.Constant) and type(n.value) is int


def kinded(f, dtype_at, source=None):
    """constructor that respects the element type asked for, or that of what it copies"""
    def g(I, a, kw, node):
        r = f(I, a, kw, node)
        k = kind_named(kw.get("dtype"))
        if k is None and dtype_at is not None and len(a) > dtype_at:
            k = kind_named(a[dtype_at])
        if k is None and source is not None and a:
            k = I.kind_of(a[source])
            at = node.args[source] if isinstance(node, ast.Call) and len(node.args) > source else None
            if k is None and at is not None and (isinstance(at, (ast.List, ast.Tuple, ast.BinOp)) or f is np_full) and whole_literal(at):
                k = "int"
        if k in ("int", "f32") and isinstance(r, ARef) and (r is not (a[0] if a else None) or I.kind_of(r) != k):
            d = I.deref(r)
            if a and r is a[0]:
                r = I.alloc_arr(d)
            if isinstance(d, Arr):
                I.kinds[r.id] = k
                I.st.heap[r.id] = ("arr", to_kind(I, d, k))
        elif k in ("f32",) and isinstance(r, LinV):
            return LinV(r.lin.scale(P(atom("f32", "matrix", scalar=True))), r.sparse, r.dims)
        elif k in ("f32", "int") and isinstance(r, Poly):
            return narrow(r) if k == "f32" else cast(I, r, "int")
        return r
    return g


def cast(I, v, kind):
    if isinstance(v, Choice):
        return I.merge_val(cast(I, v.a, kind), cast(I, v.b, kind), v.cond, I.st.heap, I.st.heap, I.st.heap, {})
    if isinstance(v, str):
        try:
            return P(int(v)) if kind.startswith("int") else P(float(v))
        except ValueError:
            raise dead(I, "ValueError: cast")
    s = I.scalar(v)
    if s is None:
        d = I.deref(v)
        if isinstance(d, Arr) and d.shape is not None:
            return I.alloc_arr(to_kind(I, d, kind_named(kind)))
        return I.unk("cast", v)
    if kind.startswith("int"):
        if integer_valued(I, s):
            return s
        c = s.const()
        if c is not None:
            return P(int(c))
        return A.ew("floor", s)
    return narrow(s) if kind_named(kind) == "f32" else s


def integer_valued(I, p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if a.op == "ew" and a.args[0] == "floor" or a.op in ("bv", "ind") or a in INTEGER:
                continue
            return False
    return True


INTEGER = set()


@bi("int")
def b_int(I, args, kw, node):
    return cast(I, args[0], "int") if args else ZERO


@bi("float")
def b_float(I, args, kw, node):
    if args and isinstance(args[0], str) and args[0].lower() in ("inf", "+inf", "infinity"):
        return P(atom("const", "inf", scalar=True))
    if args and isinstance(args[0], str) and args[0].lower() in ("-inf", "-infinity"):
        return -P(atom("const", "inf", scalar=True))
    if args and isinstance(args[0], str) and args[0].lower() == "nan":
        return P(atom("const", "nan", scalar=True))
    return cast(I, args[0], "float") if args else ZERO


@bi("bool")
def b_bool(I, args, kw, node):
    return I.truth(args[0]) if args else False


@bi("str", "repr", "format")
def b_str(I, args, kw, node):
    if args and isinstance(args[0], str):
        return args[0]
    if args and isinstance(args[0], Poly) and args[0].const() is not None:
        return str(args[0].const())
    return StrV("str()")


@bi("list")
def b_list(I, args, kw, node):
    if not args:
        return I.alloc_list(())
    if isinstance(args[0], SymSeq):
        return args[0]
    k = iterate(I, args[0])
    if k[0] == "conc":
        return I.alloc_list(k[1])
    if k[0] == "sym":
        bv = I.fresh_bv()
        return SymSeq(bv, P(k[1]), I.freeze(k[2](bv)))
    return I.unk("list", args[0])


@bi("tuple")
def b_tuple(I, args, kw, node):
    if not args:
        return ()
    k = iterate(I, args[0])
    return tuple(k[1]) if k[0] == "conc" else args[0]


@bi("set", "frozenset")
def b_set(I, args, kw, node):
    if not args:
        return I.alloc_list(())
    k = iterate(I, args[0])
    if k[0] == "conc":
        out = []
        for x in k[1]:
            if not any(compare(I, "Eq", x, y) is True for y in out):
                out.append(x)
        return I.alloc_list(out)
    return args[0]


@bi("dict.fromkeys")
def b_fromkeys(I, args, kw, node):
    k = iterate(I, args[0])
    if k[0] != "conc":
        return I.unk("fromkeys", *args)
    keys = []
    for x in k[1]:
        x = I.dict_key(x)
        if x not in keys:
            keys.append(x)
    return I.alloc_dict([(x, args[1] if len(args) > 1 else None) for x in keys])


@bi("dict")
def b_dict(I, args, kw, node):
    items = []
    if args:
        if isinstance(args[0], DictRef):
            items = list(I.st.heap[args[0].id][1])
        else:
            k = iterate(I, args[0])
            if k[0] == "conc":
                for x in k[1]:
                    p = iterate(I, x)
                    if p[0] == "conc" and len(p[1]) == 2:
                        key = I.dict_key(p[1][0])
                        items = [(a, b) for a, b in items if a != key] + [(key, p[1][1])]
    for k, v in kw.items():
        items = [(a, b) for a, b in items if a != k] + [(k, v)]
    return I.alloc_dict(items)


@bi("enumerate")
def b_enum(I, args, kw, node):
    start = I.scalar(args[1]) if len(args) > 1 else (I.scalar(kw["start"]) if "start" in kw else ZERO)
    k = iterate(I, args[0])
    if k[0] == "conc":
        return IterV([(start + P(i), x) for i, x in enumerate(k[1])])
    if k[0] == "sym":
        return LazyIter(k[1], lambda bv: (start + P(bv), k[2](bv)))
    return I.unk("enumerate", args[0])


class LazyIter:
    """symbolic-length iterable"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


_orig_iterate = iterate


def iterate(I, v):  # noqa: F811
    if isinstance(v, LazyIter):
        return ("sym", v.n, v.elem)
    return _orig_iterate(I, v)


@bi("zip")
def b_zip(I, args, kw, node):
    ks = [iterate(I, a) for a in args]
    if all(k[0] == "conc" for k in ks):
        return IterV([tuple(x) for x in zip(*[k[1] for k in ks])])
    if any(k[0] == "sym" for k in ks) and all(k[0] == "sym" or k[0] == "conc" for k in ks):
        if all(k[0] == "sym" for k in ks):
            return LazyIter(ks[0][1], lambda bv: tuple(k[2](bv) for k in ks))
    return I.unk("zip", *args)


@bi("map")
def b_map(I, args, kw, node):
    ks = [iterate(I, a) for a in args[1:]]
    if all(k[0] == "conc" for k in ks):
        return IterV([I.call(args[0], list(x), {}, node) for x in zip(*[k[1] for k in ks])])
    if all(k[0] == "sym" for k in ks):
        return LazyIter(ks[0][1], lambda bv: I.call(args[0], [k[2](bv) for k in ks], {}, node))
    return I.unk("map", *args[1:])


@bi("filter")
def b_filter(I, args, kw, node):
    k = iterate(I, args[1])
    if k[0] == "conc":
        out = []
        for x in k[1]:
            t = I.truth(I.call(args[0], [x], {}, node) if args[0] is not None else x)
            if t is True:
                out.append(x)
            elif t is not False:
                return I.unk("filter", args[1])
        return IterV(out)
    return I.unk("filter", args[1])


@bi("reversed")
def b_reversed(I, args, kw, node):
    v = args[0]
    if isinstance(v, RangeV) and v.step == ONE and (v.lo.const() is None or v.hi.const() is None):
        return LazyIter(v.hi - v.lo, lambda bv: v.hi - ONE - P(bv))
    k = iterate(I, v)
    if k[0] == "conc":
        return IterV(k[1][::-1])
    if k[0] == "sym":
        return I.unk("reversed", v)
    return I.unk("reversed", v)


@bi("sorted")
def b_sorted(I, args, kw, node):
    k = iterate(I, args[0])
    if k[0] == "conc":
        if all(isinstance(x, str) for x in k[1]) and not kw:
            return I.alloc_list(sorted(k[1]))
        ps = [I.scalar(x) for x in k[1]]
        if all(p is not None and p.const() is not None for p in ps) and not kw:
            return I.alloc_list(sorted(ps, key=lambda p: p.const()))
    return I.unk("sorted", args[0])


@bi("any", "all")
def b_any(I, args, kw, node):
    return b_anyall(I, args, node, None)


def b_anyall(I, args, node, which):
    k = iterate(I, args[0])
    if k[0] == "conc":
        if which == "any":
            return any_of(I, k[1])
        acc = ONE
        for x in k[1]:
            acc = acc * P(I.truth(x))
        return bool(acc.const()) if acc.const() is not None else acc
    if k[0] == "sym":
        bv = I.fresh_bv()
        e = I.truth(k[2](bv))
        nb = A.canon_bv(bv, P(e))
        return ind("red" + which, nb, k[1], subst(P(e), {bv: P(nb)}))
    return ind(which, tuple(I.polys(args[0])))


BUILTIN["any"] = lambda I, a, k, n: b_anyall(I, a, n, "any")
BUILTIN["all"] = lambda I, a, k, n: b_anyall(I, a, n, "all")


@bi("print")
def b_print(I, args, kw, node):
    return None


@bi("isinstance")
def b_isinstance(I, args, kw, node):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    d = I.deref(v)
    for c in ts:
        if isinstance(c, ClassV):
            if isinstance(v, ObjRef):
                k = I.st.heap[v.id][1]
                stack = [k]
                while stack:
                    q = stack.pop()
                    if q is c:
                        return True
                    if isinstance(q, ClassV):
                        stack.extend(q.bases)
            continue
        if isinstance(c, ExtV):
            n = c.name.split(".")[-1]
            if n == "str" and isinstance(v, (str, StrV)):
                return True
            if n == "bool" and isinstance(v, bool):
                return True
            if n in ("list",) and isinstance(v, (ListRef, SymSeq)):
                return True
            if n in ("tuple",) and isinstance(v, tuple):
                return True
            if n in ("dict", "Mapping") and isinstance(v, DictRef):
                return True
            if n in ("ndarray",) and isinstance(v, (ARef, View)):
                return True
            if n in ("Sequence", "Iterable") and isinstance(v, (ListRef, tuple)):
                return True
            if n in ("int", "integer", "Integral") and isinstance(v, Poly):
                c_ = v.const()
                if c_ is not None:
                    if c_.denominator == 1:
                        return True
                else:
                    return ind("isint", v) if not integer_valued(I, v) else True
            if n in ("float", "Number", "Real", "floating", "number") and isinstance(v, Poly):
                return True
    return False


@bi("hasattr")
def b_hasattr(I, args, kw, node):
    o, n = args
    return has(I, o, n)


def has(I, o, n):
    if isinstance(o, Choice):
        p = ite(o.cond, P(has(I, o.a, n)), P(has(I, o.b, n)))
        return bool(p.const()) if p.const() is not None else p
    if isinstance(o, ObjRef):
        c = I.st.heap[o.id]
        if n in c[2]:
            return True
        if isinstance(c[1], ClassV):
            if c[1].lookup(n) is not None or n in c[1].fields():
                return True
        lz = lazy_attr(I, o, c, n)
        return lz is not UNDEF
    if o is None:
        return False
    d = I.deref(o)
    if isinstance(d, (Arr, LinV)):
        return n in ("shape", "T", "size", "ndim", "dtype", "copy", "flatten", "ravel", "sum", "reshape", "toarray",
                     "__len__")
    if isinstance(d, (str, tuple, ListRef, DictRef)):
        return n in ("__len__", "__iter__", "keys", "append")
    return False


@bi("getattr")
def b_getattr(I, args, kw, node):
    if isinstance(args[1], str):
        if len(args) > 2:
            if has(I, args[0], args[1]) is False:
                return args[2]
        return I.getattr(args[0], args[1], node)
    return I.unk("getattr", args[0])


@bi("setattr")
def b_setattr(I, args, kw, node):
    if isinstance(args[1], str):
        I.setattr(args[0], args[1], args[2])
    else:
        I.event("setattr-dynamic", "", node)
    return None


@bi("delattr")
def b_delattr(I, args, kw, node):
    o, n = args
    if isinstance(o, ObjRef) and isinstance(n, str):
        c = I.st.heap[o.id]
        I.st.heap[o.id] = ("obj", c[1], {k: v for k, v in c[2].items() if k != n})
    return None


@bi("type")
def b_type(I, args, kw, node):
    if isinstance(args[0], ObjRef):
        return I.st.heap[args[0].id][1]
    return ExtV("type")


@bi("callable")
def b_callable(I, args, kw, node):
    return isinstance(args[0], (FuncV, BoundM, ExtV, ExtM, ClassV, PartialV))


@bi("round")
def b_round(I, args, kw, node):
    return uninterp(I, "round", args, kw, ())


@bi("divmod")
def b_divmod(I, args, kw, node):
    return (binop(I, "FloorDiv", args[0], args[1], node), binop(I, "Mod", args[0], args[1], node))


@bi("pow")
def b_pow(I, args, kw, node):
    return binop(I, "Pow", args[0], args[1], node)


@bi("slice")
def b_slice(I, args, kw, node):
    f = lambda x: None if x is None else I.opt_scalar(x)
    if len(args) == 1:
        return SliceV(None, f(args[0]), None)
    return SliceV(*[f(x) for x in args])


@bi("iter")
def b_iter(I, args, kw, node):
    return args[0]


@bi("next")
def b_next(I, args, kw, node):
    k = iterate(I, args[0])
    if k[0] == "conc":
        if k[1]:
            return k[1][0]
        if len(args) > 1:
            return args[1]
    return I.unk("next", args[0])


@bi("vars")
def b_vars(I, args, kw, node):
    if args and isinstance(args[0], ObjRef):
        return I.obj_dict(args[0])
    return I.alloc_dict(())


@bi("id")
def b_id(I, args, kw, node):
    return uninterp(I, "id", (), {}, ())


@bi("object")
def b_object(I, args, kw, node):
    return I.alloc_obj(None)


@bi("complex")
def b_complex(I, args, kw, node):
    return I.unk("complex", *args)


# ---------------------------------------------------------------- numpy: creation
def shape_arg(I, v):
    d = I.deref(v)
    if isinstance(d, (tuple, ListRef, IterV)):
        k = iterate(I, d if not isinstance(d, tuple) else d)
        out = []
        for x in k[1]:
            s = I.scalar(x)
            out.append(dim(s) if s is not None else None)
        if None in out:
            return None
        return tuple(out)
    if isinstance(d, Arr) and d.shape is not None and len(d.shape) == 1 and isinstance(d.shape[0], int):
        return tuple(dim(c) for c in d.cells)
    s = I.scalar(v)
    return (dim(s),) if s is not None else None


def filled(I, shape, val):
    if shape is None:
        return I.unk("shape", val)
    if shape == ():
        return I.alloc_arr0(val) if hasattr(I, "alloc_arr0") else val
    if any(isinstance(d, int) and d < 0 for d in shape):
        I.event("shape-error", "negative dimension %r" % (shape,))
        shape = tuple(max(0, d) if isinstance(d, int) else d for d in shape)
    return I.alloc_arr(Arr(shape, [val] * A.ncells(shape)))


def is_object_dtype(kw):
    d = kw.get("dtype")
    return isinstance(d, ExtV) and d.name.split(".")[-1] in ("object", "object_")


@npf("zeros")
def np_zeros(I, a, kw, node):
    return filled(I, shape_arg(I, a[0] if a else kw["shape"]), None if is_object_dtype(kw) else ZERO)


@npf("empty")
def np_empty(I, a, kw, node):
    sh = shape_arg(I, a[0] if a else kw["shape"])
    if is_object_dtype(kw) or (len(a) > 1 and is_object_dtype({"dtype": a[1]})):
        return filled(I, sh, None)
    return filled(I, sh, P(atom("uninit", scalar=True)))


@npf("ones")
def np_ones(I, a, kw, node):
    return filled(I, shape_arg(I, a[0] if a else kw["shape"]), ONE)


@npf("full")
def np_full(I, a, kw, node):
    sh = shape_arg(I, a[0])
    v = I.num(a[1] if len(a) > 1 else kw["fill_value"])
    if v is None:
        return filled(I, sh, a[1])
    if isinstance(v, Arr) and sh is not None:
        try:
            return I.alloc_arr(Arr(sh, A.expand_to(v, sh) if v.shape is not None else [v.cells[0]] * A.ncells(sh)))
        except Exception:
            pass
    return I.unk("full", *a)


def like_shape(I, v, kw):
    d = arr(I, v)
    if "shape" in kw and kw["shape"] is not None:
        return shape_arg(I, kw["shape"])
    if isinstance(d, Arr):
        return d.shape
    if isinstance(d, LinV):
        return d.dims
    return None


def like(val, obj=None):
    def f(I, a, kw, node):
        d = arr(I, a[0])
        sh = like_shape(I, a[0], kw)
        if sh is None:
            if isinstance(d, Arr) and d.shape is None:
                return I.alloc_arr(Arr(None, (val,)))
            return I.unk("like", a[0])
        v = val
        if is_object_dtype(kw) or (isinstance(d, Arr) and d.cells and not numeric(d) and not kw):
            v = None
        if sh == ():
            return v
        return filled(I, sh, v)
    return f


NP["zeros_like"] = like(ZERO)
NP["ones_like"] = like(ONE)
NP["empty_like"] = like(P(atom("uninit", scalar=True)))


@npf("full_like")
def np_full_like(I, a, kw, node):
    sh = like_shape(I, a[0], kw)
    return np_full(I, [shape_val(sh), a[1] if len(a) > 1 else kw["fill_value"]], {}, node) if sh is not None else I.unk("full_like", *a)


@npf("asarray", "asanyarray", "ascontiguousarray", "atleast_1d")
def np_asarray(I, a, kw, node):
    """no copy of what is an array already"""
    v = a[0] if a else kw.get("object", kw.get("a"))
    if len(a) < 2 and not (set(kw) - {"object", "a"}) and isinstance(v, (ARef, View, LinV)):
        d = I.deref(v)
        if (isinstance(d, Arr) and d.shape is not None and d.shape != ()) or (isinstance(d, LinV) and not d.sparse):
            return v
    return np_array(I, a, kw, node)


@npf("array", "copy", "asfortranarray")
def np_array(I, a, kw, node):
    if kw.get("copy") is False:
        return np_asarray(I, a, {k: v for k, v in kw.items() if k != "copy"}, node)
    v = a[0] if a else kw.get("object", kw.get("a"))
    d = I.deref(v)
    n = arr(I, v)
    if isinstance(n, (LinV, BlockV)):
        return LinV(n.lin, False, n.dims) if isinstance(n, LinV) else n
    if isinstance(n, Arr):
        if n.shape == () and isinstance(n.cells[0], Poly):
            return n.cells[0]
        return I.alloc_arr(Arr(n.shape, n.cells))
    if isinstance(d, (ObjRef,)) or d is None:
        return I.alloc_arr(Arr((1,), (v,)))
    return I.unk("np.array", v)


@npf("asmatrix", "matrix")
def np_matrix(I, a, kw, node):
    return np_array(I, a, kw, node)


@npf("arange")
def np_arange(I, a, kw, node):
    s = [I.scalar(x) for x in a]
    if any(x is None for x in s):
        return I.unk("arange", *a)
    lo, hi, st = (ZERO, s[0], ONE) if len(s) == 1 else (s[0], s[1], s[2] if len(s) > 2 else ONE)
    cl, ch, cs = lo.const(), hi.const(), st.const()
    if None not in (cl, ch, cs) and cs:
        n = max(0, math.ceil((ch - cl) / cs))
        if n <= 4096:
            return I.alloc_arr(Arr((n,), [P(cl + i * cs) for i in range(n)]))
    if cs == 1:
        n = hi - lo
        return I.alloc_arr(Arr((dim(n),), (lo + ARANGE,)))
    # n = (hi-lo)/st when that is a known integer expression
    n = (hi - lo) / st
    if integer_valued(I, n):
        return I.alloc_arr(Arr((dim(n),), (lo + st * ARANGE,)))
    return I.unk("arange", *a)


ARANGE = P(atom("arange", scalar=False))


@npf("linspace")
def np_linspace(I, a, kw, node):
    lo, hi = I.scalar(a[0]), I.scalar(a[1])
    n = I.scalar(a[2]) if len(a) > 2 else (I.scalar(kw["num"]) if "num" in kw else P(50))
    ep = kw.get("endpoint", True)
    if None in (lo, hi, n) or not isinstance(ep, bool):
        return I.unk("linspace", *a)
    m = n - ONE if ep else n
    c = n.const()
    if c is not None:
        k = int(c)
        r = I.alloc_arr(Arr((k,), [lo + (hi - lo) * (P(i) / m if m != ZERO else ZERO) for i in range(k)]))
    else:
        r = I.alloc_arr(Arr((dim(n),), (lo + (hi - lo) * ARANGE / m,)))
    if kw.get("retstep") is True:
        return (r, (hi - lo) / m if m != ZERO else A.NAN)
    return r


@npf("meshgrid")
def np_meshgrid(I, a, kw, node):
    xs = [arr(I, x) for x in a]
    indexing = kw.get("indexing", "xy")
    if all(isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1 for x in xs) and len(xs) == 2:
        x, y = xs
        if indexing == "xy":
            sh = (y.shape[0], x.shape[0])
            X = A.expand_to(Arr((1, x.shape[0]), x.cells), sh)
            Y = A.expand_to(Arr((y.shape[0], 1), y.cells), sh)
        else:
            sh = (x.shape[0], y.shape[0])
            X = A.expand_to(Arr((x.shape[0], 1), x.cells), sh)
            Y = A.expand_to(Arr((1, y.shape[0]), y.cells), sh)
        return I.alloc_list([I.alloc_arr(Arr(sh, X)), I.alloc_arr(Arr(sh, Y))])
    return I.alloc_list([I.unk("meshgrid", *a) for _ in a])


@npf("eye", "identity", "speye")
def np_eye(I, a, kw, node):
    n = I.scalar(a[0])
    m = I.scalar(a[1]) if len(a) > 1 and a[1] is not None else n
    k = I.scalar(a[2]) if len(a) > 2 else (I.scalar(kw["k"]) if "k" in kw else ZERO)
    if n is None or m is None or k is None:
        return I.unk("eye", *a)
    cn, cm, ck = n.const(), m.const(), k.const()
    if None not in (cn, cm, ck):
        cn, cm, ck = int(cn), int(cm), int(ck)
        return I.alloc_arr(Arr((cn, cm), [ONE if j - i == ck else ZERO for i in range(cn) for j in range(cm)]))
    if k.is_zero():
        return LinV(Lin.ident(), False, (dim(n), dim(m)))
    return LinV(Lin.op(atom("eyek", n, k)), False, (dim(n), dim(m)))


def sp_eye(I, a, kw, node):
    r = np_eye(I, a, kw, node)
    if isinstance(r, LinV):
        return LinV(r.lin, True, r.dims)
    d = I.deref(r)
    return I.alloc_arr(SpArr(d.shape, d.cells)) if isinstance(d, Arr) and d.shape is not None else r


NP["sparse.eye"] = NP["sparse.identity"] = NP["sparse.eye_array"] = sp_eye


# ---------------------------------------------------------------- numpy: elementwise
def ewf(I, name, v, node=None):
    if isinstance(v, Choice):
        n = I.num(v)
    n = arr(I, v)
    if isinstance(n, LinV):
        d = n.lin.as_diag()
        if name == "abs" and d is not None:
            return LinV(Lin.diag(A.ew("abs", d)), n.sparse, n.dims)
        return LinV(Lin.op(atom("ewop", name, n.lin)), n.sparse, n.dims)
    if not numeric(n):
        if v is None:
            raise dead(I, "TypeError: None in np.%s" % name, node)
        return I.unk(name, v)
    return I.alloc_arr(Arr(n.shape, [A.ew(name, c) for c in n.cells]))


for _n, _e in {"abs": "abs", "absolute": "abs", "fabs": "abs", "sqrt": "sqrt", "exp": "exp", "log": "log",
               "log2": "log2", "log10": "log10", "sin": "sin", "cos": "cos", "tan": "tan", "sinh": "sinh",
               "cosh": "cosh", "tanh": "tanh", "arcsin": "arcsin", "arccos": "arccos", "arctan": "arctan",
               "arcsinh": "arcsinh", "arccosh": "arccosh", "arctanh": "arctanh", "floor": "floor", "sign": "sign",
               "erf": "erf", "special.erf": "erf", "erfc": "erfc", "cbrt": "cbrt", "asin": "arcsin",
               "acosh": "arccosh", "acos": "arccos", "asinh": "arcsinh", "fix": "fix", "trunc": "fix"}.items():
    NP[_n] = (lambda e: lambda I, a, kw, node: with_out(I, ewf(I, e, a[0], node), kw))(_e)


def with_out(I, r, kw):
    o = kw.get("out")
    if isinstance(o, (ARef, View)):
        d = I.num(r)
        if isinstance(d, Arr):
            I.write(o, d)
        return o
    return r


@npf("ceil")
def np_ceil(I, a, kw, node):
    x = arr(I, a[0])
    if not numeric(x):
        return I.unk("ceil", a[0])

    def f(c):
        k = c.const()
        if k is not None:
            return P(-((-k.numerator) // k.denominator))
        fl = A.ew("floor", c)
        return fl + ONE - cmp_eq(c - fl, ZERO)
    return I.alloc_arr(Arr(x.shape, [f(c) for c in x.cells]))


NP["square"] = lambda I, a, kw, node: with_out(I, binop(I, "Pow", a[0], P(2), node), kw)
NP["reciprocal"] = lambda I, a, kw, node: with_out(I, binop(I, "Div", ONE, a[0], node), kw)
NP["negative"] = lambda I, a, kw, node: with_out(I, binop(I, "Mult", P(-1), a[0], node), kw)
NP["positive"] = lambda I, a, kw, node: a[0]
for _n, _o in {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
               "power": "Pow", "float_power": "Pow", "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv",
               "matmul": "MatMult", "pow": "Pow", "fmod": "Mod"}.items():
    NP[_n] = (lambda o: lambda I, a, kw, node: with_out(I, binop(I, o, a[0], a[1], node), kw))(_o)
for _n, _o in {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "greater": "Gt", "less_equal": "LtE",
               "greater_equal": "GtE"}.items():
    NP[_n] = (lambda o: lambda I, a, kw, node: compare(I, o, a[0], a[1], node))(_o)


def np_mm(which):
    def f(I, a, kw, node):
        x, y = arr(I, a[0]), arr(I, a[1])
        if not (numeric(x) and numeric(y)):
            return I.unk(which, *a)
        try:
            return with_out(I, I.alloc_arr(A.binop(lambda p, q: A.ew(which, p, q), x, y)), kw)
        except ShapeError as e:
            return shape_err(I, e, node, x, y)
    return f


def np_fmm(which):
    def f(I, a, kw, node):
        x, y = arr(I, a[0]), arr(I, a[1])
        if not (numeric(x) and numeric(y)):
            return I.unk(which, *a)

        def g(p, q):
            if special(p) == "nan":
                return q
            return p if special(q) == "nan" else A.ew(which, p, q)
        try:
            return with_out(I, I.alloc_arr(A.binop(g, x, y)), kw)
        except ShapeError as e:
            return shape_err(I, e, node, x, y)
    return f


NP["maximum"], NP["fmax"] = np_mm("max"), np_fmm("max")
NP["minimum"], NP["fmin"] = np_mm("min"), np_fmm("min")


def np_cbrt(I, a, kw, node):
    x = arr(I, a[0])
    if numeric(x) and all(A.sign_hint(c) == 1 for c in x.cells):
        return with_out(I, binop(I, "Pow", a[0], P(Fraction(1, 3)), node), kw)
    return ewf(I, "cbrt", a[0], node)


NP["cbrt"] = np_cbrt
for _n, _r in {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}.items():
    NP[_n + ".reduce"] = (lambda r: lambda I, a, kw, node: NP[r](I, a if len(a) > 1 or "axis" in kw else [a[0], ZERO], kw, node))(_r)


@npf("clip")
def np_clip(I, a, kw, node):
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
    r = a[0]
    if lo is not None:
        r = np_mm("max")(I, [r, lo], {}, node)
    if hi is not None:
        r = np_mm("min")(I, [r, hi], {}, node)
    return r


def np_test(kind):
    def f(I, a, kw, node):
        x = arr(I, a[0])
        if not numeric(x):
            return I.unk(kind, a[0])

        def g(c):
            if c.const() is not None:
                return ZERO
            sp = special(c)
            if sp:
                return ONE if kind == "is" + sp.lstrip("-") else ZERO
            s = A.as_single(c)
            if s is not None and s.op == "clean":
                kinds = s.args[1]
                if {"isnan": "nan", "isinf": "inf"}[kind] in kinds:
                    return ZERO
                return ind(kind, s.args[0])
            return ind(kind, c)
        r = Arr(x.shape, [g(c) for c in x.cells])
        if r.shape == ():
            c = r.cells[0].const()
            return bool(c) if c is not None else r.cells[0]
        return I.alloc_arr(r)
    return f


NP["isnan"] = np_test("isnan")
NP["isinf"] = np_test("isinf")


@npf("isfinite")
def np_isfinite(I, a, kw, node):
    x, y = np_test("isnan")(I, a, kw, node), np_test("isinf")(I, a, kw, node)
    fx, fy = I.num(x), I.num(y)
    r = A.binop(lambda p, q: b_not(b_or(p, q)), fx, fy)
    return r.cells[0] if r.shape == () else I.alloc_arr(r)


@npf("isclose")
def np_isclose(I, a, kw, node):
    x, y = arr(I, a[0]), arr(I, a[1])
    if not (numeric(x) and numeric(y)):
        return I.unk("isclose", *a)

    def g(p, q):
        d = p - q
        c = d.const()
        if c is not None:
            return P(abs(float(c)) <= 1e-8 + 1e-5 * abs(float(q.const() or 0)))
        if A._even(d) != d:
            d = -d
        return ind("isclose", d)
    r = A.binop(g, x, y)
    if r.shape == ():
        c = r.cells[0].const()
        return bool(c) if c is not None else r.cells[0]
    return I.alloc_arr(r)


@npf("allclose", "array_equal")
def np_allclose(I, a, kw, node):
    x, y = I.num(a[0]), I.num(a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and x.shape is not None and y.shape is not None:
        d = A.binop(lambda p, q: p - q, x, y) if x.shape == y.shape else None
        if d is not None and d.cells and all(isinstance(c, Poly) and c.is_zero() for c in d.cells):
            return True
    return ind("allclose", tuple(I.polys(a[0])), tuple(I.polys(a[1])))


@npf("nan_to_num")
def np_nan_to_num(I, a, kw, node):
    x = arr(I, a[0])
    if not numeric(x):
        return I.unk("nan_to_num", a[0])
    vals = [kw.get("nan", ZERO), kw.get("posinf", ZERO), kw.get("neginf", ZERO)]
    vals = [I.scalar(v) if v is not None else None for v in vals]
    big = "posinf" not in kw or "neginf" not in kw
    if all(v is not None and v.is_zero() for v in vals):
        r = Arr(x.shape, [A.clean(c, {"nan"} if big else {"nan", "inf"}) for c in x.cells])
    else:
        r = Arr(x.shape, [c if c.const() is not None else P(atom("cleanto", c, tuple(vals), scalar=c.scalar())) for c in x.cells])
    if kw.get("copy") is False and isinstance(a[0], (ARef, View)):
        I.write(a[0], r)
        return a[0]
    return I.alloc_arr(r)


@npf("where")
def np_where(I, a, kw, node):
    if len(a) < 3:
        return (I.unk("where", *a),)
    c, x, y = arr(I, a[0]), arr(I, a[1]), arr(I, a[2])
    if not (numeric(c) and numeric(x) and numeric(y)):
        return I.unk("where", *a)
    try:
        if None in (c.shape, x.shape, y.shape):
            return I.unk("where", *a)
        sh = A.broadcast_shapes(A.broadcast_shapes(c.shape, x.shape), y.shape)
        cc, xx, yy = (A.expand_to(v, sh) for v in (c, x, y))
    except ShapeError as e:
        return shape_err(I, e, node, *a)
    out = []
    for k, p, q in zip(cc, xx, yy):
        if p.const() is not None and p.is_zero():
            out.append(A.masked(q, k, ZERO))
        elif q.is_zero() and k.const() is None:
            # where(isfinite(x), x, 0)
            nk = b_not(k)
            m = finite_mask(nk, p)
            out.append(A.clean(p, m) if m else ite(k, p, q))
        else:
            out.append(ite(k, p, q))
    r = Arr(sh, out)
    return I.alloc_arr(r) if sh != () else r.cells[0]


def finite_mask(nk, p):
    kinds = set()
    for m in nk.t:
        for a, e in m:
            if a.op == "ind" and a.args[0] in ("isnan", "isinf") and a.args[1] == A.c0(p):
                kinds.add({"isnan": "nan", "isinf": "inf"}[a.args[0]])
            else:
                return None
    return kinds


@npf("logical_and", "bitwise_and")
def np_and(I, a, kw, node):
    return binop(I, "BitAnd", a[0], a[1], node)


@npf("logical_or", "bitwise_or")
def np_or(I, a, kw, node):
    return binop(I, "BitOr", a[0], a[1], node)


@npf("logical_not", "invert")
def np_not(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(a[0], bool):
        return not a[0]
    r = Arr(x.shape, [b_not(c) for c in x.cells])
    return I.alloc_arr(r)


@npf("real", "conjugate", "conj", "real_if_close")
def np_real(I, a, kw, node):
    return a[0]


@npf("imag")
def np_imag(I, a, kw, node):
    return NP["zeros_like"](I, [a[0]], {}, node)


# ---------------------------------------------------------------- numpy: reductions
def axis_arg(I, a, kw, pos=1):
    v = a[pos] if len(a) > pos else kw.get("axis")
    if v is None:
        return None
    if isinstance(v, (tuple, ListRef)):
        return tuple(int(I.scalar(x).const()) for x in iterate(I, v)[1])
    s = I.scalar(v)
    if s is None or s.const() is None:
        return "?"
    return int(s.const())


def reduce_fn(op):
    def f(I, a, kw, node):
        v = a[0] if a else kw.get("a")
        if isinstance(v, (IterV, LazyIter)) and op == "sum":
            return b_sum(I, [v], {}, node)
        if isinstance(v, SymSeq) and op in ("sum", "max", "min"):
            if op == "sum":
                return b_sum(I, [v], {}, node)
            return BUILTIN[op](I, [v], {}, node)
        x = arr(I, v)
        if isinstance(x, LinV):
            ax = axis_arg(I, a, kw)
            return I.unk("reduce matrix", v)
        if not numeric(x):
            if isinstance(x, Arr) and op == "sum" and x.cells:
                r = x.cells[0]
                for c in x.cells[1:]:
                    r = binop(I, "Add", r, c, node)
                return r
            ax = axis_arg(I, a, kw)
            if v is None and isinstance(ax, int):
                raise dead(I, "ValueError: axis %d is out of bounds for an array of dimension 0" % ax, node)
            return I.unk("np." + op, v)
        ax = axis_arg(I, a, kw)
        if ax == "?":
            return I.unk("np." + op, v)
        if isinstance(ax, int) and x.shape is not None:
            if not -len(x.shape) <= ax < len(x.shape):
                return shape_err(I, "axis %d out of bounds for shape %r" % (ax, x.shape), node, v)
        if x.shape is None:
            return I.alloc_arr(Arr(None if ax is not None else (), (P(atom("unk", "np." + op, tuple(I.polys(x)), scalar=ax is None)),)))
        if op in ("any", "all"):
            x = Arr(x.shape, [c if I.is_bool(c) else b_not(cmp_eq(c, ZERO)) for c in x.cells])
        if not x.cells:
            r = {"sum": ZERO, "prod": ONE, "any": ZERO, "all": ONE}.get(op)
            if r is not None and ax is None:
                return r
            return I.unk("empty reduction", v)
        r = A.reduce_axis(x, ax, op)
        if kw.get("keepdims") is True and x.shape is not None:
            if ax is None:
                sh = (1,) * len(x.shape)
            else:
                axs = {q % len(x.shape) for q in (ax if isinstance(ax, tuple) else (ax,))}
                sh = tuple(1 if i in axs else d for i, d in enumerate(x.shape))
            r = Arr(sh, r.cells if isinstance(r, Arr) else [r])
        if isinstance(r, Poly):
            if op in ("any", "all") and r.const() is not None:
                return bool(r.const())
            return r
        return I.alloc_arr(r)
    return f


for _n, _o in {"sum": "sum", "max": "max", "amax": "max", "min": "min", "amin": "min", "prod": "prod",
               "any": "any", "all": "all"}.items():
    NP[_n] = reduce_fn(_o)


def nan_reduce(op):
    def f(I, a, kw, node):
        x = arr(I, a[0]) if a else None
        ax = axis_arg(I, a, kw)
        if numeric(x) and ax is None and any(special(c) == "nan" for c in x.cells) and x.shape and all(isinstance(d, int) for d in x.shape):
            cs = [c for c in x.cells if special(c) != "nan"]
            if not cs:
                return ZERO if op == "sum" else A.NAN
            a = [I.alloc_arr(Arr((len(cs),), cs))] + list(a[1:])
        return reduce_fn(op)(I, a, kw, node)
    return f


for _n in ("sum", "max", "min"):
    NP["nan" + _n] = nan_reduce(_n)


@npf("mean", "average")
def np_mean(I, a, kw, node):
    x = arr(I, a[0])
    if not numeric(x) or x.shape is None:
        return I.unk("mean", *a)
    ax = axis_arg(I, a, kw)
    s = reduce_fn("sum")(I, [a[0]], {"axis": None if ax is None else P(ax)}, node)
    n = A.size(x.shape) if ax is None else P(x.shape[ax])
    return binop(I, "Div", s, n, node)


@npf("cumsum", "std", "var", "median", "trapz", "cumprod", "ptp", "percentile")
def np_unint(I, a, kw, node):
    return uninterp(I, "stat", a, kw)


@npf("linalg.norm", "norm")
def np_norm(I, a, kw, node):
    x = arr(I, a[0])
    o = a[1] if len(a) > 1 else kw.get("ord")
    if numeric(x) and x.shape is not None:
        ax = axis_arg(I, a, kw, 2)
        if o is None or (I.scalar(o) is not None and I.scalar(o).const() == 2 and len(x.shape) == 1):
            sq = Arr(x.shape, [c * c for c in x.cells])
            r = A.reduce_axis(sq, ax, "sum")
            if isinstance(r, Poly):
                return ppow(r, Fraction(1, 2))
            return I.alloc_arr(Arr(r.shape, [ppow(c, Fraction(1, 2)) for c in r.cells]))
        if isinstance(o, Poly) and A.as_single(o) is not None and A.as_single(o).op == "const":
            r = A.reduce_axis(Arr(x.shape, [A.ew("abs", c) for c in x.cells]), ax, "max")
            return r if isinstance(r, Poly) else I.alloc_arr(r)
    return uninterp(I, "norm", a, kw, ())


@npf("dot", "inner", "vdot")
def np_dot(I, a, kw, node):
    x, y = arr(I, a[0]), arr(I, a[1])
    if isinstance(x, Arr) and x.shape == () or isinstance(y, Arr) and y.shape == ():
        return binop(I, "Mult", a[0], a[1], node)
    return binop(I, "MatMult", a[0], a[1], node)


@npf("outer")
def np_outer(I, a, kw, node):
    x, y = arr(I, a[0]), arr(I, a[1])
    if numeric(x) and numeric(y) and x.shape is not None and y.shape is not None and len(x.shape) == len(y.shape) == 1:
        return binop(I, "Mult", Arr(x.shape + (1,), x.cells), Arr((1,) + y.shape, y.cells), node)
    return I.unk("outer", *a)


@npf("einsum")
def np_einsum(I, a, kw, node):
    spec = a[0]
    if isinstance(spec, str):
        s = spec.replace(" ", "")
        x = [arr(I, v) for v in a[1:]]
        if s in ("i,i->", "i,i") and len(x) == 2:
            return binop(I, "MatMult", a[1], a[2], node)
        if s in ("ij,ij->i", "ij,ij->j", "ij,ij->", "ij,ij->ij") and len(x) == 2:
            p = binop(I, "Mult", a[1], a[2], node)
            if s.endswith("ij"):
                return p
            return NP["sum"](I, [p], {"axis": {"i": ONE, "j": ZERO}.get(s[-1])}, node)
        if s in ("ij->i", "ij->j", "ij->", "i->"):
            return NP["sum"](I, [a[1]], {"axis": {"i": ONE, "j": ZERO}.get(s[-1]) if not s.endswith(">") else None}, node)
        if s in ("i,ij->ij", "i,i->i", "ij,i->ij", "i,j->ij"):
            l, o = s.split("->")
            vs = []
            for t, v in zip(l.split(","), x):
                sh, k = [], 0
                for c in o:
                    if c in t:
                        sh.append(v.shape[k])
                        k += 1
                    else:
                        sh.append(1)
                vs.append(Arr(tuple(sh), v.cells))
            return binop(I, "Mult", vs[0], vs[1], node)
        if s in ("ij,j->i", "ij,jk->ik"):
            return binop(I, "MatMult", a[1], a[2], node)
        if s == "ij->ji":
            return NP["transpose"](I, [a[1]], {}, node)
    return uninterp(I, "einsum", a, kw)


# ---------------------------------------------------------------- numpy: shape
@npf("squeeze")
def np_squeeze(I, a, kw, node):
    x = arr(I, a[0])
    if not isinstance(x, Arr):
        return a[0]
    if x.shape is None:
        return a[0]
    ax = axis_arg(I, a, kw)
    keep = [i for i, d in enumerate(x.shape) if not (d == 1 and (ax is None or i in [q % len(x.shape) for q in (ax if isinstance(ax, tuple) else (ax,))]))]
    sh = tuple(x.shape[i] for i in keep)
    if sh == ():
        return x.cells[0]
    return derived(I, a[0], Arr(sh, x.cells), lambda b: Arr(sh, b.cells), lambda b, w: Arr(b.shape, w.cells))


@npf("expand_dims")
def np_expand(I, a, kw, node):
    x = arr(I, a[0])
    ax = axis_arg(I, a, kw)
    if not isinstance(x, Arr) or x.shape is None or not isinstance(ax, int):
        return I.unk("expand_dims", *a)
    n = len(x.shape) + 1
    ax %= n
    sh = x.shape[:ax] + (1,) + x.shape[ax:]
    return derived(I, a[0], Arr(sh, x.cells), lambda b: Arr(sh, b.cells), lambda b, w: Arr(b.shape, w.cells))


@npf("atleast_2d")
def np_at2(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) < 2:
        return I.alloc_arr(Arr((1,) * (2 - len(x.shape)) + x.shape, x.cells))
    return a[0]


@npf("column_stack")
def np_colstack(I, a, kw, node):
    k = iterate(I, a[0])
    if k[0] != "conc":
        return I.unk("column_stack", a[0])
    xs = []
    for v in k[1]:
        x = arr(I, v)
        if not isinstance(x, Arr) or x.shape is None:
            return I.unk("column_stack", *k[1])
        xs.append(Arr(x.shape + (1,), x.cells) if len(x.shape) == 1 else x)
    try:
        return I.alloc_arr(A.concat(xs, 1))
    except ShapeError as e:
        return shape_err(I, e, node, *xs)


@npf("reshape")
def np_reshape(I, a, kw, node):
    x = arr(I, a[0])
    order = kw.get("order", a[2] if len(a) > 2 else "C")
    sh = shape_arg(I, a[1] if len(a) > 1 else kw.get("newshape", kw.get("shape")))
    return do_reshape(I, a[0], x, sh, order)


def do_reshape(I, base, x, sh, order):
    if isinstance(x, LinV) and sh is not None and x.dims and tuple(sh) == tuple(x.dims):
        return x
    if not isinstance(x, Arr) or sh is None or not isinstance(order, str):
        return I.unk("reshape", base)
    if order in ("A", "K"):
        order = "C"
    if x.shape is not None and -1 not in sh:
        t1, t2 = A.size(x.shape), A.size(sh)
        c = (t1 - t2).const()
        if c is not None and c != 0:
            return shape_err(I, "cannot reshape %r into %r" % (x.shape, sh), None, x)
    r = A.reshape(x, sh, order)
    if isinstance(r, Arr):
        if x.shape == r.shape or I.contiguous(base):
            return derived(I, base, r, lambda b: as_arr(A.reshape(b, sh, order)), lambda b, w: as_arr(A.reshape(w, b.shape, order)))
        return derived(I, base, r)
    return r


@npf("ravel", "flatten")
def np_ravel(I, a, kw, node):
    x = arr(I, a[0])
    order = kw.get("order", a[1] if len(a) > 1 else "C")
    if not isinstance(x, Arr) or x.shape is None:
        return I.unk("ravel", a[0])
    return do_reshape(I, a[0], x, (-1,) if A.size(x.shape).const() is None else (int(A.size(x.shape).const()),), order) \
        if x.shape != () else I.alloc_arr(Arr((1,), x.cells))


@npf("swapaxes", "moveaxis")
def np_swapaxes(I, a, kw, node):
    x = arr(I, a[0])
    i, j = axis_arg(I, a, kw, 1), axis_arg(I, a, kw, 2)
    if isinstance(x, Arr) and x.shape is not None and isinstance(i, int) and isinstance(j, int):
        n = len(x.shape)
        if n == 2 and (i - j) % 2 == 1:
            return np_transpose(I, [a[0]], {}, node)
        if i % n == j % n:
            return a[0]
    elif isinstance(x, (LinV, BlockV)):
        return np_transpose(I, [a[0]], {}, node)
    return I.unk("swapaxes", a[0])


@npf("take")
def np_take(I, a, kw, node):
    x = arr(I, a[0])
    ind_ = a[1] if len(a) > 1 else kw.get("indices")
    ax = axis_arg(I, a, kw, 2)
    if not isinstance(x, Arr) or x.shape is None or ax == "?" or isinstance(ax, tuple) or (ax is None and len(x.shape) != 1):
        return I.unk("take", *a[:2])
    n = len(x.shape)
    ax = 0 if ax is None else ax % n
    return I.getitem(a[0], tuple(ind_ if k == ax else SliceV() for k in range(n)), node) if n > 1 else I.getitem(a[0], ind_, node)


@npf("transpose")
def np_transpose(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(x, LinV):
        return LinV(x.lin.T(), x.sparse, x.dims[::-1] if x.dims else None)
    if isinstance(x, BlockV):
        return value_attr(I, a[0], "T")
    if not isinstance(x, Arr):
        return I.unk("transpose", a[0])
    axes = None
    ax = a[1] if len(a) > 1 else kw.get("axes")
    if ax is not None:
        axes = axis_arg(I, a, kw) if "axes" not in kw else tuple(int(I.scalar(q).const()) for q in iterate(I, kw["axes"])[1])
        if not isinstance(axes, tuple):
            return I.unk("transpose", a[0])
    back = None if axes is None else tuple(sorted(range(len(axes)), key=lambda k: axes[k] % len(axes)))
    return derived(I, a[0], A.transpose(x, axes), lambda b: A.transpose(b, axes), lambda b, w: A.transpose(w, back))


@npf("flip")
def np_flip(I, a, kw, node):
    x = arr(I, a[0])
    ax = axis_arg(I, a, kw)
    if isinstance(x, LinV):
        return lin_flip(I, x, ax)
    if not isinstance(x, Arr) or x.shape is None or ax == "?":
        return I.unk("flip", a[0])
    axs = range(len(x.shape)) if ax is None else [q % len(x.shape) for q in (ax if isinstance(ax, tuple) else (ax,))]
    idx = tuple(SliceV(None, None, P(-1)) if i in axs else SliceV() for i in range(len(x.shape)))
    return derived(I, a[0], as_arr(A.getitem(x, idx)), lambda b: as_arr(A.getitem(b, idx)), lambda b, w: as_arr(A.getitem(w, idx)))


def lin_flip(I, x, ax):
    j = lambda n: Lin.op(atom("flipm", P(n)))
    l = x.lin
    if x.dims is None:
        return I.unk("flip", x)
    if ax in (None, 0):
        l = j(x.dims[0]) @ l
    if ax in (None, 1):
        l = l @ j(x.dims[1])
    return LinV(l, x.sparse, x.dims)


NP["fliplr"] = lambda I, a, kw, node: np_flip(I, [a[0], ONE], {}, node)
NP["flipud"] = lambda I, a, kw, node: np_flip(I, [a[0], ZERO], {}, node)


@npf("roll")
def np_roll(I, a, kw, node):
    x = arr(I, a[0])
    k = I.scalar(a[1] if len(a) > 1 else kw["shift"])
    ax = axis_arg(I, a, kw, 2)
    if numeric(x) and x.shape is not None and isinstance(ax, int) and k is not None and k.const() is not None:
        ax %= len(x.shape)
        d = x.shape[ax]
        if isinstance(d, int) and d:
            s = int(k.const()) % d
            order = tuple((i - s) % d for i in range(d))
            idx = tuple(Arr((d,), [P(i) for i in order]) if q == ax else SliceV() for q in range(len(x.shape)))
            return I.alloc_arr(A.getitem(x, idx))
    return uninterp(I, "roll", a, kw, x.shape if isinstance(x, Arr) else None)


def cat_args(I, v, node):
    k = iterate(I, v)
    if k[0] != "conc":
        return None
    return k[1]


def lift_axis(xs, axis):
    return xs


@npf("concatenate")
def np_concat(I, a, kw, node):
    items = cat_args(I, a[0], node)
    ax = axis_arg(I, a, kw)
    if items is None:
        return I.unk("concatenate", a[0])
    xs = [arr(I, v) for v in items]
    if any(not isinstance(x, Arr) for x in xs) or ax == "?":
        return I.unk("concatenate", *items)
    if "axis" in kw and kw["axis"] is None:
        xs = [as_arr(I.deref(np_ravel(I, [x], {}, node))) for x in xs]
        ax = 0
    ax = 0 if ax is None else ax
    try:
        return I.alloc_arr(A.concat(xs, ax))
    except ShapeError as e:
        return shape_err(I, e, node, *xs)


@npf("hstack")
def np_hstack(I, a, kw, node):
    items = cat_args(I, a[0], node)
    if items is None:
        return I.unk("hstack", a[0])
    xs = [arr(I, v) for v in items]
    if any(isinstance(x, (LinV, BlockV)) for x in xs):
        return blocks(I, [items], node)
    if any(not isinstance(x, Arr) for x in xs):
        return I.unk("hstack", *items)
    xs = [Arr((1,), x.cells) if x.shape == () else x for x in xs]
    try:
        return I.alloc_arr(A.concat(xs, 0 if any(x.shape is not None and len(x.shape) == 1 for x in xs) else 1))
    except ShapeError as e:
        return shape_err(I, e, node, *xs)


@npf("vstack", "row_stack")
def np_vstack(I, a, kw, node):
    items = cat_args(I, a[0], node)
    if items is None:
        return I.unk("vstack", a[0])
    xs = [arr(I, v) for v in items]
    if any(isinstance(x, (LinV, BlockV)) for x in xs):
        return blocks(I, [[v] for v in items], node, sparse=False)
    if any(not isinstance(x, Arr) for x in xs):
        return I.unk("vstack", *items)
    xs = [Arr((1,) * (2 - len(x.shape)) + x.shape, x.cells) if x.shape is not None and len(x.shape) < 2 else x for x in xs]
    try:
        return I.alloc_arr(A.concat(xs, 0))
    except ShapeError as e:
        return shape_err(I, e, node, *xs)


def flat_block(I, v):
    """block matrix operand -> list of rows of blocks"""
    d = v if isinstance(v, (LinV, BlockV)) else I.num(v)
    if isinstance(d, BlockV):
        return [list(r) for r in d.rows]
    if isinstance(d, Arr):
        if d.shape is not None and len(d.shape) == 1:
            d = Arr((1,) + d.shape, d.cells)
        elif d.shape == ():
            d = Arr((1, 1), d.cells)
        return [[d]]
    return [[d]]


def blocks(I, rows, node, sparse=True):
    out = []
    for r in rows:
        parts = [flat_block(I, x) for x in r]
        h = len(parts[0])
        if any(len(p) != h for p in parts):
            return I.unk("blocks", *[x for r in rows for x in r])
        for i in range(h):
            out.append(sum((p[i] for p in parts), []))
    if len({len(r) for r in out}) != 1:
        return I.unk("blocks", *[x for r in rows for x in r])
    return BlockV(out, sparse)


def sp_hstack(I, a, kw, node):
    return blocks(I, [cat_args(I, a[0], node)], node)


def sp_vstack(I, a, kw, node):
    return blocks(I, [[v] for v in cat_args(I, a[0], node)], node)


def sp_bmat(I, a, kw, node):
    rows = [list(iterate(I, r)[1]) for r in iterate(I, a[0])[1]]
    rows = [[x if x is not None else Arr((1, 1), (ZERO,)) for x in r] for r in rows]
    return blocks(I, rows, node)


NP["sparse.hstack"] = sp_hstack
NP["sparse.vstack"] = sp_vstack
def np_block(I, a, kw, node):
    """dense blocks: rows joined along the last axis, then stacked"""
    k = iterate(I, a[0])
    if k[0] != "conc":
        return I.unk("block", a[0])
    rows = []
    for r in k[1]:
        if isinstance(I.deref(r), (ListRef, tuple)):
            q = iterate(I, r)
            if q[0] != "conc":
                return I.unk("block", a[0])
            rows.append(list(q[1]))
        else:
            rows.append(None)
    if all(r is None for r in rows):
        rows = [list(k[1])]
    if any(r is None or any(isinstance(I.deref(x), (ListRef, tuple)) for x in r) for r in rows):
        return I.unk("block", a[0])
    xs = [[arr(I, x) for x in r] for r in rows]
    flat = [x for r in xs for x in r]
    if any(isinstance(x, (LinV, BlockV)) for x in flat):
        return sp_bmat(I, a, kw, node)
    if any(not isinstance(x, Arr) or x.shape is None for x in flat):
        return I.unk("block", a[0])
    nd = max([1 if len(rows) == 1 else 2] + [len(x.shape) for x in flat])
    try:
        xs = [A.concat([Arr((1,) * (nd - len(x.shape)) + x.shape, x.cells) for x in r], nd - 1) for r in xs]
        return I.alloc_arr(xs[0] if len(xs) == 1 else A.concat(xs, nd - 2))
    except ShapeError as e:
        return shape_err(I, e, node, *flat)


NP["sparse.bmat"] = NP["sparse.block_array"] = NP["bmat"] = sp_bmat
NP["block"] = np_block


@npf("stack", "dstack")
def np_stack(I, a, kw, node):
    items = cat_args(I, a[0], node)
    if items is None:
        return I.unk("stack", a[0])
    ax = axis_arg(I, a, kw)
    ax = 0 if ax is None else ax
    xs = [arr(I, v) for v in items]
    if any(not isinstance(x, Arr) or x.shape is None for x in xs):
        return I.unk("stack", *items)
    n = len(xs[0].shape) + 1
    ax %= n
    xs = [Arr(x.shape[:ax] + (1,) + x.shape[ax:], x.cells) for x in xs]
    try:
        return I.alloc_arr(A.concat(xs, ax))
    except ShapeError as e:
        return shape_err(I, e, node, *xs)


@npf("append")
def np_append(I, a, kw, node):
    x, y = arr(I, a[0]), arr(I, a[1])
    ax = axis_arg(I, a, kw, 2)
    if not isinstance(x, Arr) or not isinstance(y, Arr):
        return I.unk("append", *a)
    if ax is None:
        f = lambda z: z if z.shape is not None and len(z.shape) == 1 else as_arr(I.deref(np_ravel(I, [z], {}, node)))
        x, y = f(x), f(y)
        ax = 0
    try:
        return I.alloc_arr(A.concat([x, y], ax))
    except ShapeError as e:
        return shape_err(I, e, node, x, y)


@npf("repeat", "tile", "broadcast_to")
def np_repeat(I, a, kw, node):
    return I.unk("repeat", *a)


def np_repeat_(I, a, kw, node):
    x = arr(I, a[0])
    k = I.scalar(a[1] if len(a) > 1 else kw.get("repeats"))
    if (isinstance(x, SpArr) or isinstance(x, LinV) and x.sparse) and k is not None and k.const() is not None:
        one = I.alloc_arr(x) if isinstance(x, SpArr) else x          # numpy sees a sparse matrix as one object
        return I.alloc_arr(Arr((int(k.const()),), [one] * int(k.const())))
    ax = axis_arg(I, a, kw, 2)
    if ax is None and isinstance(x, Arr) and x.shape is not None:
        x = x if len(x.shape) == 1 else as_arr(I.deref(np_ravel(I, [I.alloc_arr(x)], {}, node)))
        ax = 0
        n = arr(I, a[1] if len(a) > 1 else kw.get("repeats"))
        if isinstance(n, Arr) and n.shape is not None and len(n.shape) == 1 and n.shape == x.shape and all(isinstance(c, Poly) and c.const() is not None for c in n.cells):
            return I.alloc_arr(A.getitem(x, (Arr((sum(int(c.const()) for c in n.cells),), [P(i) for i, c in enumerate(n.cells) for _ in range(int(c.const()))]),)))
    if isinstance(x, Arr) and x.shape is not None and k is not None and isinstance(ax, int):
        if not -len(x.shape) <= ax < len(x.shape):
            return shape_err(I, "axis %d out of bounds for %r" % (ax, x.shape), node, x)
        ax %= len(x.shape)
        d = x.shape[ax]
        if isinstance(d, int) and k.const() is not None:
            order = [i for i in range(d) for _ in range(int(k.const()))]
            idx = tuple(Arr((len(order),), [P(i) for i in order]) if q == ax else SliceV() for q in range(len(x.shape)))
            return I.alloc_arr(A.getitem(x, idx))
        if d == 1:
            sh = x.shape[:ax] + (dim(k),) + x.shape[ax + 1:]
            return I.alloc_arr(Arr(sh, A.expand_to(x, sh)))
    return uninterp(I, "repeat", a, kw)


NP["repeat"] = np_repeat_


def np_repmat(I, a, kw, node):
    x = arr(I, a[0])
    r = [I.scalar(v) for v in a[1:3]]
    if isinstance(x, Arr) and x.shape is not None and len(r) == 2 and all(v is not None and v.const() is not None for v in r):
        if len(x.shape) == 1:
            x = Arr((1,) + x.shape, x.cells)
        try:
            row = A.concat([x] * int(r[1].const()), 1)
            return I.alloc_arr(A.concat([row] * int(r[0].const()), 0))
        except ShapeError as e:
            return shape_err(I, e, node, x)
    return uninterp(I, "repmat", a, kw)


NP["matlib.repmat"] = np_repmat


def np_tile(I, a, kw, node):
    x = arr(I, a[0])
    reps = shape_arg(I, a[1])
    if isinstance(x, Arr) and x.shape is not None and reps is not None:
        n = max(len(x.shape), len(reps))
        sh = (1,) * (n - len(x.shape)) + x.shape
        rp = (1,) * (n - len(reps)) + reps
        if all(r == 1 or d == 1 for r, d in zip(rp, sh)):
            out = tuple(r if d == 1 else d for r, d in zip(rp, sh))
            return I.alloc_arr(Arr(out, A.expand_to(Arr(sh, x.cells), out)))
        if all(isinstance(d, int) for d in sh) or all(r == 1 for r, d in zip(rp, sh) if not isinstance(d, int)):
            y = Arr(sh, x.cells)
            for ax, r in enumerate(rp):
                if r != 1:
                    y = A.concat([y] * int(r), ax)
            return I.alloc_arr(y)
    return uninterp(I, "tile", a, kw)


NP["tile"] = np_tile


def np_bcast(I, a, kw, node):
    x = arr(I, a[0])
    sh = shape_arg(I, a[1])
    if isinstance(x, Arr) and x.shape is not None and sh is not None:
        try:
            return I.alloc_arr(Arr(sh, A.expand_to(x, sh)))
        except Exception:
            pass
    return uninterp(I, "broadcast_to", a, kw)


NP["broadcast_to"] = np_bcast


@npf("ndindex")
def np_ndindex(I, a, kw, node):
    sh = shape_arg(I, a[0]) if len(a) == 1 else tuple(dim(I.scalar(x)) for x in a)
    if sh is not None and all(isinstance(d, int) for d in sh):
        return IterV([tuple(P(i) for i in t) for t in product(*[range(d) for d in sh])])
    return I.unk("ndindex", *a)


@npf("ndenumerate")
def np_ndenum(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(x, Arr) and x.shape is not None and all(isinstance(d, int) for d in x.shape):
        return IterV([(tuple(P(i) for i in t), c) for t, c in zip(product(*[range(d) for d in x.shape]), x.cells)])
    return I.unk("ndenumerate", a[0])


@npf("unique", "searchsorted", "lexsort")
def np_arg(I, a, kw, node, name="argsort"):
    return uninterp(I, name, a, kw, None)


def const_cells(x):
    if not isinstance(x, Arr) or x.shape is None or not all(isinstance(d, int) for d in x.shape):
        return None
    out = [c.const() if isinstance(c, Poly) else None for c in x.cells]
    return None if any(c is None for c in out) else out


@npf("argwhere", "nonzero", "flatnonzero")
def np_argwhere(I, a, kw, node, name="argwhere"):
    x = arr(I, a[0])
    cs = const_cells(x)
    if cs is None:
        return uninterp(I, name, a, kw, None)
    pts = [pt for pt, c in zip(product(*[range(d) for d in x.shape]), cs) if c != 0]
    if name == "flatnonzero":
        fl = [i for i, c in enumerate(cs) if c != 0]
        return I.alloc_arr(Arr((len(fl),), [P(i) for i in fl]))
    if name == "nonzero":
        return tuple(I.alloc_arr(Arr((len(pts),), [P(p[k]) for p in pts])) for k in range(len(x.shape)))
    return I.alloc_arr(Arr((len(pts), len(x.shape)), [P(k) for p in pts for k in p]))


NP["nonzero"] = lambda I, a, kw, node: np_argwhere(I, a, kw, node, "nonzero")
NP["flatnonzero"] = lambda I, a, kw, node: np_argwhere(I, a, kw, node, "flatnonzero")


@npf("argsort", "sort")
def np_argsort(I, a, kw, node, name="argsort"):
    x = arr(I, a[0])
    cs = const_cells(x)
    pk = A.perm_of(x)
    if pk is not None and name == "argsort":
        return I.alloc_arr(Arr(x.shape, [P(atom("perm", pk[0], not pk[1], i, scalar=True)) for i in range(x.shape[0])]))
    if cs is not None and len(x.shape) == 1:
        o = sorted(range(len(cs)), key=lambda i: cs[i])
        return I.alloc_arr(Arr(x.shape, [P(i) if name == "argsort" else P(cs[i]) for i in o]))
    return uninterp(I, name, a, kw, x.shape if isinstance(x, Arr) else None)


def np_named(nm, scalar_shape=False):
    def f(I, a, kw, node):
        x = arr(I, a[0])
        return uninterp(I, nm, a, kw, () if scalar_shape and axis_arg(I, a, kw) is None else (x.shape if isinstance(x, Arr) else None))
    return f


NP["argmax"] = np_named("argmax", True)
NP["argmin"] = np_named("argmin", True)
NP["sort"] = lambda I, a, kw, node: np_argsort(I, a, kw, node, "sort")


@npf("finfo", "iinfo")
def np_finfo(I, a, kw, node):
    return I.alloc_obj(None, {"eps": EPS, "max": P(atom("const", "floatmax", scalar=True)),
                              "min": -P(atom("const", "floatmax", scalar=True)),
                              "tiny": P(atom("const", "tiny", scalar=True))})


@npf("spacing")
def np_spacing(I, a, kw, node):
    s = I.scalar(a[0])
    if s is not None and s.const() == 1:
        return EPS
    return uninterp(I, "spacing", a, kw, ())


@npf("seterr", "set_printoptions", "errstate")
def np_seterr(I, a, kw, node):
    return None


@npf("factorial", "math.factorial", "special.factorial")
def np_fact(I, a, kw, node):
    s = I.scalar(a[0])
    if s is not None and s.const() is not None and s.const().denominator == 1 and 0 <= s.const() <= 60:
        return P(math.factorial(int(s.const())))
    if s is not None:
        return P(atom("fact", s, scalar=True))
    return I.unk("factorial", *a)


@npf("lpmv", "special.lpmv")
def np_lpmv(I, a, kw, node):
    m, v = I.scalar(a[0]), I.scalar(a[1])
    x = arr(I, a[2])
    if m is None or v is None or not numeric(x):
        return I.unk("lpmv", *a)
    return I.alloc_arr(Arr(x.shape, [legendre(m, v, c) for c in x.cells]))


def legendre(m, v, c):
    if m.is_zero() and v.is_zero():
        return ONE
    if m.is_zero() and v == ONE:
        return c
    return P(atom("ew", "lpmv", (m, v, c), scalar=c.scalar()))


NP["eval_legendre"] = NP["special.eval_legendre"] = lambda I, a, kw, node: np_lpmv(I, [ZERO, a[0], a[1]], kw, node)


@npf("lstsq", "linalg.lstsq")
def np_lstsq(I, a, kw, node):
    x, b = arr(I, a[0]), arr(I, a[1])
    cut = kw.get("rcond", a[2] if len(a) > 2 else None)
    r = solve_val(I, x, b)
    cut = py_const(cut) if cut is not None else None
    if isinstance(cut, (int, float)) and cut > 1e-8:
        # small singular values are left out: not the solution of every system
        d = arr(I, r)
        r = I.alloc_arr(Arr(d.shape, [c * P(atom("ew", "cut off", (c, P(Fraction(cut))), scalar=c.scalar())) for c in d.cells]))
    return (r, I.unk("residues"), I.unk("rank"), I.unk("sv"))


@npf("linalg.solve", "solve")
def np_solve(I, a, kw, node):
    x, b = arr(I, a[0]), arr(I, a[1])
    r = solve_val(I, x, b)
    I.linear_systems = getattr(I, "linear_systems", [])
    I.linear_systems.append((x, b, I.deref(r)))
    return r


def exact_solve(x, b):
    """rational Gauss elimination of a square constant system, None if not applicable"""
    if not (isinstance(x, Arr) and isinstance(b, Arr) and x.shape and b.shape and len(x.shape) == 2
            and x.shape[0] == x.shape[1] and isinstance(x.shape[0], int) and b.shape[0] == x.shape[0]
            and all(isinstance(d, int) for d in b.shape)):
        return None
    if not all(isinstance(c, Poly) and c.const() is not None for c in x.cells + b.cells):
        return None
    n = x.shape[0]
    m = len(b.cells) // n
    M = [[x.cells[i * n + j].const() for j in range(n)] + [b.cells[i * m + j].const() for j in range(m)] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] != 0), None)
        if p is None:
            return None
        M[k], M[p] = M[p], M[k]
        M[k] = [v / M[k][k] for v in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [v - f * w for v, w in zip(M[i], M[k])]
    return Arr(b.shape, [P(M[i][n + j]) for i in range(n) for j in range(m)])


def solve_val(I, x, b):
    """exact solution vector of the linear system (uninterpreted components, keyed by the system)"""
    sh = None
    ex = exact_solve(x, b)
    if ex is not None:
        return I.alloc_arr(ex)
    if isinstance(b, Arr) and b.shape is not None and isinstance(x, Arr) and x.shape is not None and len(x.shape) == 2:
        sh = (x.shape[1],) + b.shape[1:]
    key = (tuple(I.polys(x)) if not isinstance(x, Arr) else (x.shape, x.cells),
           (b.shape, b.cells) if isinstance(b, Arr) else tuple(I.polys(b)))
    if sh is not None and all(isinstance(d, int) for d in sh):
        n = A.ncells(sh)
        return I.alloc_arr(Arr(sh, [P(atom("solve", key, i, scalar=True)) for i in range(n)]))
    return I.alloc_arr(Arr(sh, [P(atom("solve", key, i)) for i in range(A.ncells(sh) if sh else 1)]))


@npf("linalg.inv")
def np_inv(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(x, LinV):
        return LinV(x.lin.inv(), x.sparse, x.dims)
    return uninterp(I, "inv", a, kw)


@npf("ravel_multi_index", "unravel_index", "polyfit", "polyval", "interp", "gradient", "diff", "vander", "cross",
     "histogram", "correlate", "convolve", "random", "savetxt", "loadtxt", "save", "load", "linalg.eig", "linalg.eigh",
     "eigh", "linalg.svd", "linalg.matrix_rank", "linalg.cond", "linalg.eigvalsh", "triu", "tril", "isin", "in1d",
     "count_nonzero", "digitize", "bincount", "put", "copyto", "fill_diagonal", "random.rand", "random.seed")
def np_generic(I, a, kw, node):
    nm = "np"
    if node is not None:
        import ast
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "np")
    if nm in ("copyto",):
        if isinstance(a[0], (ARef, View)):
            d, s = I.deref(a[0]), arr(I, a[1])
            if isinstance(d, Arr) and isinstance(s, Arr) and d.shape is not None and s.shape is not None:
                I.write(a[0], Arr(d.shape, A.expand_to(s, d.shape)))
                return None
    return uninterp(I, nm, a, kw)


# ---------------------------------------------------------------- diag / sparse
@npf("diag")
def np_diag(I, a, kw, node):
    x = arr(I, a[0])
    k = I.scalar(a[1]) if len(a) > 1 else (I.scalar(kw["k"]) if "k" in kw else ZERO)
    if k is None:
        return I.unk("diag", *a)
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1:
        n = x.shape[0]
        if isinstance(n, int) and k.const() is not None:
            kk = int(k.const())
            m = n + abs(kk)
            cells = [ZERO] * (m * m)
            for i in range(n):
                r, c = (i, i + kk) if kk >= 0 else (i - kk, i)
                cells[r * m + c] = x.cells[i]
            return I.alloc_arr(Arr((m, m), cells))
        if k.is_zero():
            return LinV(Lin.diag(x.cells[0]), False, (n, n))
        if x.cells[0] == ONE:
            # n + |k|: ones(N-|k|) on diagonal k
            return LinV(Lin.op(atom("eyek", P(n) + A.ew("abs", k), k)), False,
                        (dim(P(n) + A.ew("abs", k)),) * 2)
        return LinV(Lin.op(atom("diagk", x.cells[0], k)), False, (dim(P(n) + A.ew("abs", k)),) * 2)
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) == 2 and all(isinstance(d, int) for d in x.shape) and k.const() is not None:
        kk = int(k.const())
        r, c = x.shape
        cells = [x.cells[i * c + i + kk] for i in range(r) if 0 <= i + kk < c]
        return I.alloc_arr(Arr((len(cells),), cells))
    if isinstance(x, LinV) and k.is_zero():
        return I.alloc_arr(Arr((x.dims[0],) if x.dims else None, (diag_of(x.lin),)))
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) == 2 and len(x.cells) == 1:
        return I.alloc_arr(Arr((x.shape[0],), (diag_of(lin_of_poly(x.cells[0], x.shape)),)))
    return uninterp(I, "diag", a, kw)


NP["diagonal"] = np_diag


def diag_of(lin):
    r = ZERO
    for w, c in lin.t.items():
        l = Lin({w: ONE})
        d = l.as_diag()
        r = r + c * (d if d is not None else P(atom("diagof", l)))
    return r


@npf("diagflat")
def np_diagflat(I, a, kw, node):
    x = arr(I, a[0])
    if isinstance(x, Arr) and x.shape is not None and len(a) == 1 and not kw:
        n = A.size(x.shape)
        if len(x.cells) == 1 and sum(1 for d in x.shape if d != 1) <= 1:
            return np_diag(I, [Arr((dim(n),), x.cells)], {}, node)
        if n.const() is not None:
            return np_diag(I, [Arr((int(n.const()),), x.cells)], {}, node)
    return uninterp(I, "diagflat", a, kw)


def sp_diags(I, data, offs, m, n, node, spd):
    x = arr(I, data)
    k = I.scalar(offs) if offs is not None else ZERO
    ko = arr(I, offs) if offs is not None else None
    if k is None and isinstance(ko, Arr) and len(ko.cells) == 1:
        k = ko.cells[0]
    if isinstance(x, Arr) and x.shape is not None and k is not None and len(x.cells) == 1 and isinstance(x.cells[0], Poly):
        v = x.cells[0]
        N = [d for d in x.shape if d != 1]
        N = N[0] if N else 1
        dims = (dim(I.scalar(m)), dim(I.scalar(n))) if m is not None and n is not None and I.scalar(m) is not None else (N, N)
        if spd is False and x.shape == () and m is None:
            return I.unk("diags", data)
        if k.is_zero():
            return LinV(Lin.diag(v), True, dims)
        return LinV(Lin.op(atom("spdiag", v, k)), True, dims)
    if isinstance(x, Arr) and x.shape is not None and k is not None and k.is_zero() and len(N_(x)) == 1 and \
            isinstance(N_(x)[0], int):
        r = I.deref(np_diag(I, [Arr((N_(x)[0],), x.cells)], {}, node))
        return I.alloc_arr(SpArr(r.shape, r.cells))
    return LinV(Lin.op(atom("unkop", "diags", tuple(I.polys(data)))), True, None)


def N_(x):
    return [d for d in x.shape if d != 1]


@npf("sparse.spdiags", "spdiags")
def sp_spdiags(I, a, kw, node):
    g = lambda i, n, d=None: a[i] if len(a) > i else kw.get(n, d)
    m, n = g(2, "m"), g(3, "n")
    if isinstance(m, tuple):
        m, n = m
    return sp_diags(I, g(0, "data"), g(1, "diags"), m, n, node, True)


@npf("sparse.diags", "diags", "sparse.dia_matrix", "diags_array")
def sp_diags_(I, a, kw, node):
    g = lambda i, n, d=None: a[i] if len(a) > i else kw.get(n, d)
    data, offs = g(0, "diagonals"), g(1, "offsets")
    m = n = None
    sh = g(2, "shape")
    if isinstance(data, tuple) and len(data) == 2 and offs is None and not isinstance(data[0], (Poly,)):
        data, offs = data
    if sh is not None and isinstance(sh, tuple):
        m, n = sh
    if isinstance(data, ListRef) and len(I.st.heap[data.id][1]) == 1:
        data = I.st.heap[data.id][1][0]
    if isinstance(offs, ListRef) and len(I.st.heap[offs.id][1]) == 1:
        offs = I.st.heap[offs.id][1][0]
    return sp_diags(I, data, offs, m, n, node, False)


@npf("sparse.csc_matrix", "sparse.csr_matrix", "csc_matrix", "csr_matrix", "sparse.csc_array", "csc_array",
     "sparse.coo_matrix", "coo_matrix", "sparse.lil_matrix", "lil_matrix", "sparse.csr_array")
def sp_csc(I, a, kw, node):
    if isinstance(a[0], tuple) and len(a[0]) == 2 and isinstance(I.deref(a[0][1]), (tuple, ListRef)):
        r = sp_triplets(I, a, kw)
        return r if r is not None else uninterp(I, "csc_matrix", a, kw)
    x = arr(I, a[0])
    if isinstance(a[0], tuple) and len(a[0]) == 2 and all(I.scalar(q) is not None for q in a[0]):
        return LinV(Lin({}), True, tuple(dim(I.scalar(q)) for q in a[0]))
    if isinstance(x, LinV):
        return LinV(x.lin, True, x.dims)
    if isinstance(x, BlockV):
        return BlockV(x.rows, True)
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) == 2:
        if all(isinstance(d, int) for d in x.shape):
            return I.alloc_arr(SpArr(x.shape, x.cells))
        return as_lin(I, x)
    if isinstance(x, Arr) and x.shape is not None and len(x.shape) == 1:
        return I.alloc_arr(Arr((1,) + x.shape, x.cells))
    return I.unk("csc_matrix", *a)


def sp_triplets(I, a, kw):
    """matrix from values, row and column numbers; repeated places add up"""
    v = arr(I, a[0][0])
    ij = [arr(I, x) for x in iterate(I, a[0][1])[1]]
    sh = kw.get("shape", a[1] if len(a) > 1 else None)
    sh = shape_arg(I, sh) if sh is not None else None
    if not (isinstance(v, Arr) and v.shape is not None and len(v.shape) == 1 and isinstance(v.shape[0], int) and len(ij) == 2
            and sh is not None and len(sh) == 2 and all(isinstance(d, int) for d in sh)):
        return None
    if not all(isinstance(x, Arr) and x.shape == v.shape and all(isinstance(c, Poly) and c.const() is not None for c in x.cells) for x in ij):
        return None
    cells = [ZERO] * (sh[0] * sh[1])
    for c, i, j in zip(v.cells, ij[0].cells, ij[1].cells):
        i, j = int(i.const()), int(j.const())
        if not (0 <= i < sh[0] and 0 <= j < sh[1]):
            return None
        cells[i * sh[1] + j] = cells[i * sh[1] + j] + c
    return I.alloc_arr(SpArr(tuple(sh), cells))


def sp_block_diag(I, a, kw, node):
    k = iterate(I, a[0])
    ms = [arr(I, m) for m in k[1]] if k[0] == "conc" else [None]
    if not all(isinstance(m, Arr) and m.shape is not None and len(m.shape) == 2 and all(isinstance(d, int) for d in m.shape) for m in ms):
        return uninterp(I, "block_diag", a, kw)
    R, C = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    cells = [ZERO] * (R * C)
    r = c = 0
    for m in ms:
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                cells[(r + i) * C + c + j] = m.cells[i * m.shape[1] + j]
        r, c = r + m.shape[0], c + m.shape[1]
    return I.alloc_arr(SpArr((R, C), cells))


for _k in ("sparse.block_diag", "block_diag"):
    NP[_k] = sp_block_diag


def np_kron(I, a, kw, node):
    r = sp_kron(I, a, kw, node)
    d = I.deref(r)
    return I.alloc_arr(Arr(d.shape, d.cells)) if isinstance(d, SpArr) else r


NP["kron"] = np_kron


@npf("sparse.kron")
def sp_kron(I, a, kw, node):
    x, y = arr(I, a[0]), arr(I, a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and x.shape is not None and y.shape is not None and \
            len(x.shape) == len(y.shape) == 2 and all(isinstance(d, int) for d in x.shape + y.shape):
        (m, n), (p, q) = x.shape, y.shape
        return I.alloc_arr(SpArr((m * p, n * q), [x.cells[i * n + j] * y.cells[k * q + l]
                                               for i in range(m) for k in range(p) for j in range(n) for l in range(q)]))
    l1 = as_lin(I, x) if x is not None else None
    l2 = as_lin(I, y) if y is not None else None
    if l1 is None or l2 is None:
        return I.unk("kron", *a)
    t = Lin({})
    for w1, c1 in l1.lin.t.items():
        for w2, c2 in l2.lin.t.items():
            k1, k2 = Lin({w1: ONE}), Lin({w2: ONE})
            t = t + Lin.op(atom("kron", k1, k2, tuple(P(d) for d in (l1.dims or ()) if not w1),
                                tuple(P(d) for d in (l2.dims or ()) if not w2))).scale(c1 * c2)
    dims = None
    if l1.dims and l2.dims:
        dims = (dim(P(l1.dims[0]) * P(l2.dims[0])), dim(P(l1.dims[1]) * P(l2.dims[1])))
    return LinV(t, True, dims)


@npf("spsolve", "sparse.linalg.spsolve")
def sp_spsolve(I, a, kw, node):
    return lin_solve(I, arr(I, a[0]), arr(I, a[1]), node)


def lin_solve(I, M, b, node):
    if isinstance(M, SpArr):
        M = as_lin(I, M)
    if isinstance(M, LinV):
        inv = LinV(M.lin.inv(), M.sparse, M.dims)
        if isinstance(b, LinV):
            return LinV(inv.lin @ b.lin, True, b.dims)
        if isinstance(b, Arr):
            if b.shape is not None and len(b.shape) == 2 and b.shape[1] == 1:
                b = Arr((b.shape[0],), b.cells)
            return apply_lin(I, inv, b, node)
    if isinstance(M, BlockV):
        return SolveV(I, M, b)
    return uninterp(I, "spsolve", [M, b], {})


def SolveV(I, M, b):
    """solution of a bordered system [[M]] x = b as an opaque keyed value"""
    key = block_key(I, M)
    if isinstance(b, BlockV):
        kb = block_key(I, b)
        rows = [bdims(I, r[0])[0] for r in b.rows]
        return BlockV([[LinV(Lin.op(atom("blocksolve", key, kb, i)), False, (n, bdims(I, b.rows[0][0])[1]))]
                       for i, n in enumerate(rows)], False)
    if isinstance(b, Arr):
        return I.alloc_arr(Arr(b.shape, (P(atom("blocksolvev", key, (b.shape, b.cells))),)))
    return I.unk("solve", M, b)


def block_key(I, M):
    return tuple(tuple(x.lin if isinstance(x, LinV) else (tuple(I.deref(x).cells) if isinstance(I.deref(x), Arr) else str(x))
                       for x in r) for r in M.rows)


@npf("splu", "sparse.linalg.splu", "spilu", "sparse.linalg.spilu", "factorized", "sparse.linalg.factorized")
def sp_splu(I, a, kw, node):
    M = arr(I, a[0])
    o = I.alloc_obj(None, {})
    ml = as_lin(I, M) if not isinstance(M, BlockV) else None
    l = (ml.lin if ml is not None else block_key(I, M), str(kw.get("permc_spec", a[1] if len(a) > 1 else None)))
    n = ml.dims[0] if ml is not None and ml.dims else None

    def perm(which):
        name = (which,) + l
        if isinstance(n, int):
            return I.alloc_arr(Arr((n,), [P(atom("perm", name, False, i, scalar=True)) for i in range(n)]))
        return I.alloc_arr(Arr((n,) if n is not None else None, (P(atom("perm", name, False, "all")),)))
    dims = (n, n) if n is not None else None
    at = {"L": LinV(Lin.op(atom("luL", l)), True, dims), "U": LinV(Lin.op(atom("luU", l)), True, dims),
          "perm_r": perm("r"), "perm_c": perm("c"), "shape": shape_val(dims) if dims else None,
          "solve": BoundM(o, LUSolve(M))}
    I.st.heap[o.id] = ("obj", None, at)
    return o


class LUSolve:
    def __init__(self, M):
        self.M = M

    def __call__(self, I, args, kw):
        return lin_solve(I, self.M, arr(I, args[1]), None)


@npf("eigs", "sparse.linalg.eigs", "sparse.linalg.eigsh", "eigsh")
def sp_eigs(I, a, kw, node):
    M = arr(I, a[0])
    k = I.scalar(a[1] if len(a) > 1 else kw.get("k", P(6)))
    sg = kw.get("sigma")
    key = (tuple(I.polys(M)), k, tuple(I.polys(sg)) if sg is not None else ())
    n = M.dims[0] if isinstance(M, LinV) and M.dims else P(atom("in", "Nelem", scalar=True))
    ev = I.alloc_arr(Arr((dim(k),), [P(atom("eigval", key, i)) for i in range(A.ncells((dim(k),)))]))
    ph = I.alloc_arr(Arr((n, dim(k)), [P(atom("eigvec", key, i)) for i in range(A.ncells((n, dim(k))))]))
    return (ev, ph)


@npf("eig", "linalg.eig", "scipy.linalg.eig")
def np_eig(I, a, kw, node):
    M = a[0] if a else kw.get("a")
    B = a[1] if len(a) > 1 else kw.get("b")
    x = arr(I, M)
    key = (tuple(I.polys(M)), tuple(I.polys(B)) if B is not None else ())
    n = x.shape[0] if isinstance(x, Arr) and x.shape else (x.dims[0] if isinstance(x, LinV) and x.dims else None)
    if n is None:
        return (I.unk("eig", M), I.unk("eig", M))
    return (I.alloc_arr(Arr((n,), [P(atom("geigval", key, i)) for i in range(A.ncells((n,)))])),
            I.alloc_arr(Arr((n, n), [P(atom("geigvec", key, i)) for i in range(A.ncells((n, n)))])))


@npf("bicgstab", "sparse.linalg.bicgstab", "qmr", "gmres", "sparse.linalg.gmres", "sparse.linalg.qmr", "cg", "minres",
     "lgmres")
def sp_iter(I, a, kw, node):
    """iterative linear solvers: the exact solution up to tolerance"""
    r = lin_solve(I, arr(I, a[0]), arr(I, a[1]), node)
    return (r, ZERO)


@npf("LinearOperator", "sparse.linalg.LinearOperator")
def sp_linop(I, a, kw, node):
    return I.alloc_obj(None, {"matvec": a[1] if len(a) > 1 else kw.get("matvec")})


@npf("least_squares", "optimize.least_squares", "root", "optimize.root", "minimize", "fsolve")
def sp_lsq(I, a, kw, node):
    g = lambda i, n: a[i] if len(a) > i else kw.get(n)
    fun, x0 = g(0, "fun"), g(1, "x0")
    jac = g(2, "jac")
    ex = kw.get("args", ())
    d = arr(I, x0)
    I.solver_calls = getattr(I, "solver_calls", [])
    k = len(I.solver_calls)
    sh = d.shape if isinstance(d, Arr) else None
    x = Arr(sh, [P(atom("lsqx", k, i, scalar=False)) for i in range(len(d.cells) if isinstance(d, Arr) else 1)])
    I.solver_calls.append({"fun": fun, "x0": x0, "jac": jac, "args": ex, "kw": kw, "x": x, "loc": I.loc(node),
                           "pre": I.st.fork()})
    # the routine evaluates the residual and the Jacobian at trial points (last one: the solution)
    trial = I.alloc_arr(x)
    I.solver_calls[k]["trial"] = I.alloc_arr(x)
    I.solver_calls[k]["x0s"] = I.alloc_arr(d) if isinstance(d, Arr) else x0
    exa = list(iterate(I, ex)[1]) if ex not in ((), None) else []
    if getattr(I, "lsq_evaluate", True) and fun is not None:
        res = I.call(fun, [trial] + exa, {}, node)
        if jac is not None and not isinstance(jac, str):
            I.solver_calls[k]["jacval"] = I.call(jac, [trial] + exa, {}, node)
        I.solver_calls[k]["resval"] = res
    return I.alloc_obj(None, {"x": I.alloc_arr(x), "status": P(atom("lsqstatus", k, scalar=True)),
                              "cost": P(atom("lsqcost", k, scalar=True)),
                              "optimality": P(atom("lsqopt", k, scalar=True)),
                              "nfev": P(atom("lsqnfev", k, scalar=True)), "success": True, "message": StrV("msg"),
                              "fun": I.unk("lsq.fun", x)})


# ---------------------------------------------------------------- methods
def call_method(I, o, name, args, kw, node=None):
    if I.overrides and isinstance(o, (ARef, View, Poly)) and "numpy." + name in I.overrides:
        # the method form of a function the specification has replaced
        return call_ext(I, ExtV("numpy." + name), [o] + list(args), kw, node)
    if isinstance(o, ClassV):
        if name in ("construct", "parse_obj", "model_validate"):
            k = {}
            if args and isinstance(args[0], DictRef):
                k = dict(I.st.heap[args[0].id][1])
            k.update(kw)
            return I.instantiate(o, [], k, node)
        if name in ("schema", "model_json_schema"):
            return I.alloc_dict(())
        return uninterp(I, name, args, kw)
    if isinstance(o, ObjRef):
        c = I.st.heap[o.id]
        if isinstance(c[1], ClassV) and any(b.split(".")[-1] == "BaseModel" for b in c[1].ext_bases()):
            if name in ("dict", "model_dump"):
                return I.alloc_dict([(k, c[2][k]) for k in model_fields(I, c[1]) if k in c[2]])
            if name in ("copy", "model_copy"):
                at = dict(c[2])
                up = kw.get("update")
                if isinstance(up, DictRef):
                    at.update(dict(I.st.heap[up.id][1]))
                return I.alloc_obj(c[1], at)
            if name in ("__fields__", "model_fields"):
                return I.alloc_dict(())
        return uninterp(I, name, args, kw)
    if isinstance(o, (str, StrV)):
        if isinstance(o, str):
            if name in ("lower", "upper", "strip", "capitalize", "title", "swapcase", "lstrip", "rstrip", "casefold"):
                return getattr(o, name)(*[a for a in args if isinstance(a, str)])
            if name in ("startswith", "endswith") and args and isinstance(args[0], (str, tuple)):
                return getattr(o, name)(args[0])
            if name == "format" and not kw:
                t = str_format(lambda cs: o.format(*cs), tuple(args))
                return t if t is not None else StrV("format()")
            if name in ("isdigit", "isalpha", "isupper", "islower", "isidentifier", "isspace", "find", "count", "index", "zfill") and all(
                    py_const(x) is not UNDEF for x in args):
                r = getattr(o, name)(*[py_const(x) for x in args])
                return P(r) if isinstance(r, int) and not isinstance(r, bool) else r
            if name == "split":
                return I.alloc_list(o.split(*[a for a in args if isinstance(a, str)]))
            if name == "replace" and all(isinstance(a, str) for a in args[:2]):
                return o.replace(args[0], args[1])
            if name == "join":
                k = iterate(I, args[0])
                if k[0] == "conc" and all(isinstance(x, str) for x in k[1]):
                    return o.join(k[1])
        elif name in ("lower", "casefold"):
            return StrV("%s.lower()" % o.name) if not o.name.endswith(".lower()") else o
        elif name in ("strip",):
            return o
        return StrV("%s()" % name)
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if compare(I, "Eq", x, args[0]) is True:
                    return P(i)
        if name == "count":
            return P(sum(1 for x in o if compare(I, "Eq", x, args[0]) is True))
        return uninterp(I, name, [o] + list(args), kw)
    if isinstance(o, ListRef):
        items = I.st.heap[o.id][1]
        if name == "append":
            I.st.heap[o.id] = ("list", items + (args[0],))
            return None
        if name == "extend":
            k = iterate(I, args[0])
            if k[0] == "conc":
                I.st.heap[o.id] = ("list", items + tuple(k[1]))
            else:
                I.event("list-extend-unknown", "", node)
            return None
        if name == "insert":
            l = list(items)
            l.insert(int(I.scalar(args[0]).const()), args[1])
            I.st.heap[o.id] = ("list", tuple(l))
            return None
        if name == "pop":
            l = list(items)
            if not l:
                raise dead(I, "IndexError: pop", node)
            v = l.pop(int(I.scalar(args[0]).const()) if args else -1)
            I.st.heap[o.id] = ("list", tuple(l))
            return v
        if name == "copy":
            return I.alloc_list(items)
        if name == "reverse":
            I.st.heap[o.id] = ("list", items[::-1])
            return None
        if name == "index":
            for i, x in enumerate(items):
                if compare(I, "Eq", x, args[0]) is True:
                    return P(i)
        if name == "count":
            return P(sum(1 for x in items if compare(I, "Eq", x, args[0]) is True))
        if name == "clear":
            I.st.heap[o.id] = ("list", ())
            return None
        if name in ("add",):
            if contains(I, args[0], o, node) is not True:
                I.st.heap[o.id] = ("list", items + (args[0],))
            return None
        if name in ("union", "difference", "intersection", "issubset", "update"):
            k = iterate(I, args[0])
            if k[0] == "conc":
                oth = k[1]
                inn = lambda x, l: any(compare(I, "Eq", x, y) is True for y in l)
                if name == "union":
                    return I.alloc_list(list(items) + [x for x in oth if not inn(x, items)])
                if name == "difference":
                    return I.alloc_list([x for x in items if not inn(x, oth)])
                if name == "intersection":
                    return I.alloc_list([x for x in items if inn(x, oth)])
                if name == "issubset":
                    return all(inn(x, oth) for x in items)
        return uninterp(I, name, [o] + list(args), kw)
    if isinstance(o, DictRef):
        items = I.st.heap[o.id][1]
        if name == "keys":
            return IterV([key_value(k) for k, _ in items])
        if name == "values":
            return IterV([v for _, v in items])
        if name == "items":
            return IterV([(key_value(k), v) for k, v in items])
        if name == "get":
            key = I.dict_key(args[0])
            for k, v in items:
                if k == key:
                    return v
            return args[1] if len(args) > 1 else kw.get("default")
        if name == "update":
            d = dict(items)
            if args and isinstance(args[0], DictRef):
                d.update(dict(I.st.heap[args[0].id][1]))
            d.update(kw)
            I.store_dict(o.id, tuple(d.items()))
            return None
        if name == "setdefault":
            key = I.dict_key(args[0])
            for k, v in items:
                if k == key:
                    return v
            I.store_dict(o.id, items + ((key, args[1] if len(args) > 1 else None),))
            return args[1] if len(args) > 1 else None
        if name == "pop":
            key = I.dict_key(args[0])
            for k, v in items:
                if k == key:
                    I.store_dict(o.id, tuple(x for x in items if x[0] != key))
                    return v
            if len(args) > 1:
                return args[1]
            raise dead(I, "KeyError", node)
        if name == "copy":
            return I.alloc_dict(items)
        if name == "clear":
            I.store_dict(o.id, ())
            return None
        return uninterp(I, name, [o] + list(args), kw)
    if isinstance(o, (IterV, SymSeq, RangeV)):
        return uninterp(I, name, list(args), kw)
    if isinstance(o, ExtM) or isinstance(o, (FuncV, BoundM)):
        return uninterp(I, name, list(args), kw)
    if isinstance(o, SuperV):
        return None
    d = I.deref(o)
    if isinstance(d, (LinV, BlockV)):
        return matrix_method(I, d, name, args, kw, node)
    if isinstance(d, (bool, int, float, Fraction)):
        d = P(d)
        o = d
    if isinstance(d, Poly):
        d = Arr((), (d,))
    if isinstance(d, Arr):
        if name in ("sum", "max", "min", "any", "all", "mean", "prod", "squeeze", "ravel", "transpose", "repeat",
                    "clip", "argsort", "argmax", "argmin", "std", "var", "cumsum", "dot", "conj", "conjugate",
                    "diagonal", "swapaxes", "nonzero", "round"):
            if name == "round":
                return uninterp(I, "round", [o] + list(args), kw, d.shape)
            if name == "transpose" and args and len(args) > 1:
                args = [tuple(args)]
            return NP[name](I, [o] + list(args), kw, node)
        if isinstance(d, SpArr):
            if name in ("copy", "tocsc", "tocsr", "tocoo", "tolil", "tobsr", "todia", "asformat"):
                return I.alloc_arr(SpArr(d.shape, d.cells))
            if name in ("transpose",):
                r = I.deref(NP[name](I, [o], {}, node))
                return I.alloc_arr(SpArr(r.shape, r.cells))
            if name == "multiply":
                return binop(I, "Mult", Arr(d.shape, d.cells), Arr(arr(I, args[0]).shape, arr(I, args[0]).cells), node)
            if name == "dot":
                return binop(I, "MatMult", o, args[0], node)
        if name == "copy":
            r = I.alloc_arr(Arr(d.shape, d.cells))
            if I.kind_of(o) and isinstance(r, ARef):
                I.kinds[r.id] = I.kind_of(o)
            return r
        if name == "flatten":
            r = np_ravel(I, [o] + list(args), kw, node)
            x = I.deref(r)
            return I.alloc_arr(Arr(x.shape, x.cells)) if isinstance(x, Arr) else r
        if name == "reshape":
            order = kw.get("order", "C")
            sh = shape_arg(I, args[0]) if len(args) == 1 else tuple(dim(I.scalar(a)) for a in args)
            if not args and "shape" in kw:
                sh = shape_arg(I, kw["shape"])
            return do_reshape(I, o, d, sh, order)
        if name in ("astype", "view", "todense", "toarray", "tocsc", "tocsr", "__array__"):
            k = kind_named(args[0] if args else kw.get("dtype"))
            if k in ("int", "f32"):
                r = I.alloc_arr(to_kind(I, d, k))
                if isinstance(r, ARef):
                    I.kinds[r.id] = k
                return r
            if args and isinstance(args[0], ExtV) and args[0].name.split(".")[-1] in ("bool", "bool_"):
                return I.alloc_arr(Arr(d.shape, [b_not(cmp_eq(c, ZERO)) if isinstance(c, Poly) and not I.is_bool(c) else c for c in d.cells]))
            return I.alloc_arr(Arr(d.shape, d.cells))
        if name == "fill":
            v = I.scalar(args[0])
            I.write(o, Arr(d.shape, [v if v is not None else args[0]] * len(d.cells)))
            return None
        if name == "item":
            if len(d.cells) == 1:
                return d.cells[0]
            return I.getitem(o, args[0] if len(args) == 1 else tuple(args), node)
        if name == "tolist":
            k = iterate(I, o)
            if k[0] == "conc":
                return I.alloc_list([call_method(I, x, "tolist", [], {}, node) if isinstance(x, (ARef, View)) else x for x in k[1]])
            return o
        if name in ("sort",):
            r = uninterp(I, "sort", [o], kw, d.shape)
            I.write(o, I.deref(r))
            return None
        if name in ("is_integer",):
            return cmp_eq(d.cells[0] - A.ew("floor", d.cells[0]), ZERO)
    if name in ("__len__",):
        return length(I, o)
    return uninterp(I, name, [o] + list(args), kw)


def matrix_method(I, d, name, args, kw, node):
    if name == "astype" and isinstance(d, LinV) and kind_named(args[0] if args else kw.get("dtype")) == "f32":
        return LinV(d.lin.scale(P(atom("f32", "matrix", scalar=True))), d.sparse, d.dims)
    if name in ("tocsc", "tocsr", "tocoo", "copy", "asformat", "tolil", "todia", "astype", "eliminate_zeros", "conj"):
        if isinstance(d, LinV):
            return LinV(d.lin, d.sparse, d.dims)
        return BlockV(d.rows, d.sparse)
    if name in ("toarray", "todense"):
        return LinV(d.lin, False, d.dims) if isinstance(d, LinV) else BlockV(d.rows, False)
    if name in ("transpose",):
        return value_attr(I, d, "T")
    if name in ("dot", "__matmul__", "matvec", "__mul__", "matmul"):
        return binop(I, "MatMult", d, args[0], node)
    if name == "diagonal" and isinstance(d, LinV):
        return I.alloc_arr(Arr((d.dims[0],) if d.dims else None, (diag_of(d.lin),)))
    if name == "multiply" and isinstance(d, LinV):
        x = arr(I, args[0])
        if isinstance(x, Arr) and x.shape == ():
            return LinV(d.lin.scale(x.cells[0]), d.sparse, d.dims)
        return elementwise_lin(I, d, x, node)
    return uninterp(I, "matrix." + name, [d] + list(args), kw)


# ---------------------------------------------------------------- other libraries
@ot("copy.copy")
def o_copy(I, a, kw, node):
    return shallow_copy(I, a[0])


@ot("copy.deepcopy")
def o_deepcopy(I, a, kw, node):
    return deep_copy(I, a[0])


@ot("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def o_warn(I, a, kw, node):
    w = getattr(I, "warn_obj", None)
    if w is not None:
        c = I.st.heap[w.id]
        at = dict(c[2])
        at["count"] = P(at["count"]) + ONE
        I.st.heap[w.id] = ("obj", c[1], at)
    return None


@ot("dataclasses.field", "pydantic.Field")
def o_field(I, a, kw, node):
    items = [("__field__", True)] + list(kw.items())
    if a:
        items.append(("default", a[0]))
    return I.alloc_dict(items)


@ot("dataclasses.dataclass", "pydantic.dataclasses.dataclass")
def o_dataclass(I, a, kw, node):
    if a and isinstance(a[0], ClassV):
        a[0].dataclass = True
        return a[0]
    return lambda I2, args, k: args[0]


@ot("dataclasses.replace")
def o_replace(I, a, kw, node):
    o = shallow_copy(I, a[0])
    for k, v in kw.items():
        I.setattr(o, k, v)
    return o


@ot("dataclasses.asdict")
def o_asdict(I, a, kw, node):
    return I.alloc_dict(list(I.st.heap[a[0].id][2].items()))


@ot("functools.partial")
def o_partial(I, a, kw, node):
    return PartialV(a[0], tuple(a[1:]), kw)


@ot("functools.reduce")
def o_reduce(I, a, kw, node):
    k = iterate(I, a[1])
    if k[0] != "conc":
        return I.unk("reduce", a[1])
    items = list(k[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {}, node)
    return acc


@ot("itertools.product")
def o_product(I, a, kw, node):
    ks = [iterate(I, x) for x in a]
    if "repeat" in kw:
        ks = ks * int(I.scalar(kw["repeat"]).const())
    if all(k[0] == "conc" for k in ks):
        return IterV([tuple(t) for t in product(*[k[1] for k in ks])])
    return I.unk("product", *a)


@ot("itertools.chain")
def o_chain(I, a, kw, node):
    ks = [iterate(I, x) for x in a]
    if all(k[0] == "conc" for k in ks):
        return IterV([x for k in ks for x in k[1]])
    return I.unk("chain", *a)


@ot("itertools.accumulate")
def o_accumulate(I, a, kw, node):
    k = iterate(I, a[0])
    if k[0] != "conc":
        return I.unk("accumulate", *a)
    f = a[1] if len(a) > 1 else kw.get("func")
    out, items = [], list(k[1])
    if "initial" in kw:
        items.insert(0, kw["initial"])
    for x in items:
        if out:
            x = binop(I, "Add", out[-1], x, node) if f is None else I.call(f, [out[-1], x], {}, node)
        out.append(x)
    return IterV(out)


@ot("chain.from_iterable", "from_iterable")
def o_chain_from(I, a, kw, node):
    k = iterate(I, a[0])
    if k[0] == "conc":
        return o_chain(I, k[1], {}, node)
    return I.unk("chain", *a)


OTHER["itertools.chain.from_iterable"] = o_chain_from


@ot("itertools.combinations")
def o_comb(I, a, kw, node):
    from itertools import combinations
    k = iterate(I, a[0])
    n = I.scalar(a[1]).const()
    if k[0] == "conc":
        return IterV([tuple(t) for t in combinations(k[1], int(n))])
    return I.unk("combinations", *a)


for _n, _o in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult", "pow": "Pow"}.items():
    OTHER["operator." + _n] = (lambda o: lambda I, a, kw, node: binop(I, o, a[0], a[1], node))(_o)


class AttrGetter:
    def __init__(self, names, item=False):
        self.names, self.item = names, item

    def __call__(self, I, args, kw):
        r = [I.getattr(args[0], n) if not self.item else I.getitem(args[0], n) for n in self.names]
        return r[0] if len(r) == 1 else tuple(r)


OTHER["operator.attrgetter"] = lambda I, a, kw, node: AttrGetter(a)
OTHER["operator.itemgetter"] = lambda I, a, kw, node: AttrGetter(a, True)
OTHER["collections.defaultdict"] = lambda I, a, kw, node: default_dict(I, a)
OTHER["collections.OrderedDict"] = lambda I, a, kw, node: b_dict(I, a, kw, node)


def default_dict(I, a):
    d = I.alloc_dict(())
    I.dict_defaults = getattr(I, "dict_defaults", {})
    I.dict_defaults[d.id] = a[0] if a else None
    return d


# multiprocessing: a child works on a copy of the parent's memory; only manager objects are shared back
@ot("multiprocessing.Manager")
def o_manager(I, a, kw, node):
    def mkdict(I2, args, k):
        d = I2.alloc_dict(())
        I2.shared = getattr(I2, "shared", set())
        I2.shared.add(d.id)
        return d

    def mklist(I2, args, k):
        d = I2.alloc_list(list(iterate(I2, args[0])[1]) if args else ())
        I2.shared = getattr(I2, "shared", set())
        I2.shared.add(d.id)
        return d
    return I.alloc_obj(None, {"dict": mkdict, "list": mklist, "shutdown": lambda I2, args, k: None})


@ot("multiprocessing.Process", "threading.Thread")
def o_process(I, a, kw, node):
    tgt = kw.get("target", a[1] if len(a) > 1 else None)
    args = kw.get("args", ())
    kws = kw.get("kwargs")
    o = I.alloc_obj(None, {})

    def start(I2, args_, k_):
        todo = run_child(I2, tgt, list(iterate(I2, args)[1]), dict(I2.st.heap[kws.id][1]) if isinstance(kws, DictRef) else {}, node)
        put(I2, todo)
        kids = getattr(I2, "children", None)
        if kids is None:
            kids = I2.children = []
        kids.append(o)
        return None

    def put(I2, todo):
        c = I2.st.heap[o.id]
        I2.st.heap[o.id] = ("obj", None, dict(c[2], pending_=todo))

    def join(I2, args_, k_):
        """what the child wrote is guaranteed to be visible only once it has ended"""
        t = I2.deref(args_[0]) if args_ else (I2.deref(k_["timeout"]) if "timeout" in k_ else None)
        if t is not None:
            I2.event("join-timeout", "join with a timeout does not wait for the child", node)
            return None
        publish(I2, I2.st.heap[o.id][2].get("pending_", ()))
        put(I2, ())
        return None

    def alive(I2, args_, k_):
        join(I2, [], {})
        return False
    none = lambda I2, args_, k_: None
    run = lambda I2, args_, k_: (I2.call(tgt, list(iterate(I2, args)[1]), {}), None)[1]
    I.st.heap[o.id] = ("obj", None, {"start": start, "join": join, "terminate": none, "close": none, "run": run, "pending_": (),
                                     "is_alive": alive, "name": "proc", "exitcode": ZERO, "daemon": False})
    return o


OTHER["multiprocessing.active_children"] = lambda I, a, kw, node: I.alloc_list(list(getattr(I, "children", ())))


def publish(I, todo):
    for sid, key, v in todo:
        c = I.st.heap.get(sid)
        if c is None:
            continue
        if c[0] == "dict":
            d = dict(c[1])
            d[key] = v
            I.st.heap[sid] = ("dict", tuple(d.items()))
        else:
            xs = list(c[1])
            if isinstance(key, int) and key < len(xs):
                xs[key] = v
            else:
                xs.append(v)
            I.st.heap[sid] = ("list", tuple(xs))


OTHER["threading.Thread"] = lambda I, a, kw, node: o_thread(I, a, kw, node)


def o_thread(I, a, kw, node):
    tgt, args = kw.get("target"), kw.get("args", ())
    none = lambda I2, x, y: None
    o = I.alloc_obj(None, {"start": lambda I2, x, y: (I2.call(tgt, list(iterate(I2, args)[1]), {}), None)[1], "join": none})
    return o


def run_child(I, tgt, args, kw, node):
    parent = I.st
    I.st = parent.fork()
    from .interp import Dead
    try:
        I.call(tgt, args, kw, node)
    except Dead as d:
        I.event("child-raises", d.exc, node)
        I.st = parent
        return ()
    child = I.st
    I.st = parent
    shared = getattr(I, "shared", set())
    memo = {}
    todo = []
    for sid in shared:
        c, p = child.heap.get(sid), parent.heap.get(sid)
        if c is None or p is None:
            continue
        if c[0] == "dict":
            pd = dict(p[1])
            for k, v in c[1]:
                if k not in pd or pd[k] is not v:
                    todo.append((sid, k, deep_copy(I, v, child.heap, memo)))
        elif c[0] == "list":
            for i, v in enumerate(c[1]):
                if not (i < len(p[1]) and p[1][i] is v):
                    todo.append((sid, i if i < len(p[1]) else None, deep_copy(I, v, child.heap, memo)))
    return tuple(todo)


def o_pool(I, a, kw, node):
    """pool of workers: f(x) evaluated on copies, results returned in submission order"""
    def run(I2, f, args):
        parent = I2.st
        I2.st = parent.fork()
        v = I2.call(f, args, {})
        child = I2.st
        I2.st = parent
        return deep_copy(I2, v, child.heap, {})

    def pmap(I2, args, k):
        items = iterate(I2, args[1])[1]
        return I2.alloc_list([run(I2, args[0], [x]) for x in items])

    def pstar(I2, args, k):
        items = iterate(I2, args[1])[1]
        return I2.alloc_list([run(I2, args[0], list(iterate(I2, x)[1])) for x in items])

    def papply(I2, args, k):
        v = run(I2, args[0], list(iterate(I2, args[1])[1]) if len(args) > 1 else [])
        return I2.alloc_obj(None, {"get": lambda I3, x, y: v, "result": lambda I3, x, y: v, "wait": lambda I3, x, y: None})

    def psubmit(I2, args, k):
        v = run(I2, args[0], list(args[1:]))
        return I2.alloc_obj(None, {"get": lambda I3, x, y: v, "result": lambda I3, x, y: v})
    none = lambda I2, args, k: None
    return I.alloc_obj(None, {"map": pmap, "starmap": pstar, "apply_async": papply, "submit": psubmit, "close": none,
                              "join": none, "terminate": none, "imap": pmap, "shutdown": none})


for _n in ("multiprocessing.Pool", "concurrent.futures.ProcessPoolExecutor", "multiprocessing.pool.Pool"):
    OTHER[_n] = o_pool
OTHER["multiprocessing.current_process"] = lambda I, a, kw, node: I.alloc_obj(None, {"name": StrV("process"), "pid": ZERO})
OTHER["multiprocessing.cpu_count"] = lambda I, a, kw, node: P(atom("in", "cpus", scalar=True))


for _n, _d, _s in (("zeros", 1, None), ("ones", 1, None), ("empty", 1, None), ("full", 2, 1), ("zeros_like", 1, 0), ("ones_like", 1, 0),
                   ("empty_like", 1, 0), ("full_like", 2, 0), ("array", 1, 0), ("asarray", 1, 0), ("asanyarray", 1, 0),
                   ("ascontiguousarray", 1, 0), ("copy", None, 0)):
    NP[_n] = kinded(NP[_n], _d, _s)


def booleans(f, both):
    """array functions whose result selects when it is used as an index"""
    def g(I, a, kw, node):
        r = f(I, a, kw, node)
        return I.boolean(r) if not both or all(I.is_boolean(x) for x in a[:2]) else r
    return g


for _n, _b in (("isnan", False), ("isinf", False), ("isfinite", False), ("isclose", False), ("logical_and", False), ("logical_or", False),
               ("logical_not", False), ("logical_xor", False), ("bitwise_and", True), ("bitwise_or", True), ("invert", True),
               ("less", False), ("less_equal", False), ("greater", False), ("greater_equal", False), ("equal", False),
               ("not_equal", False), ("isin", False), ("signbit", False)):
    if _n in NP:
        NP[_n] = booleans(NP[_n], _b)
