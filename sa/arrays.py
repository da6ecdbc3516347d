"""Tensor algebra on abstract arrays."""
import sys
from fractions import Fraction
from itertools import product
from .alg import (sign_hint, all_atoms, Poly, P, ZERO, ONE, Atom, atom, Lin, ppow, split, linmap, REBUILD, rebuild,
                  cmp_eq, as_atom, deps, bvs, subst, ind, cmp_lt, ite, special, ieee, NAN, INF)
from .values import Arr, LinV, BlockV, SliceV, UNDEF


class ShapeError(Exception):
    pass


class BroadcastErr(ShapeError):
    """two known lengths that differ"""


class IndexErr(ShapeError):
    """a known index outside a known length"""



def unk_poly(reason, *vals):
    ps = []
    for v in vals:
        ps.extend(polys_of(v))
    return P(atom("unk", reason, tuple(dict.fromkeys(ps)), scalar=False))


def unk(reason, *vals):
    return Arr(None, (unk_poly(reason, *vals),))


def polys_of(v):
    if isinstance(v, (Poly, Lin)):
        return [v]
    if isinstance(v, Arr):
        return [p for c in v.cells for p in polys_of(c)]
    if isinstance(v, LinV):
        return [v.lin]
    if isinstance(v, BlockV):
        return [p for r in v.rows for c in r for p in polys_of(c)]
    if isinstance(v, (tuple, list)):
        return [p for c in v for p in polys_of(c)]
    if isinstance(v, (int, Fraction, float)) and not isinstance(v, bool):
        return [P(v)]
    return []


# ---------------------------------------------------------------- shapes
def dim(x):
    """normalise a dimension: int if constant"""
    if isinstance(x, (int, bool)):
        return int(x)
    c = x.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return x


def dpoly(d):
    return P(d)


def cdims(shape):
    return [d for d in shape if isinstance(d, int)]


def ncells(shape):
    n = 1
    for d in shape:
        if isinstance(d, int):
            n *= d
    return n


def sym_axes(shape):
    """symbolic axes counted from the right"""
    n = len(shape)
    return tuple(n - 1 - i for i, d in enumerate(shape) if not isinstance(d, int))


def mk(shape, cells):
    if shape == ():
        return cells[0]
    return Arr(tuple(shape), cells)


def as_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return Arr((), (P(v),))
    if isinstance(v, (Poly, int, float, Fraction)):
        return Arr((), (P(v),))
    return None


def cell_index(shape, multi):
    """multi: index per concrete dim"""
    k = 0
    for d, i in zip(cdims(shape), multi):
        k = k * d + i
    return k


def cell_points(shape):
    return list(product(*[range(d) for d in cdims(shape)]))


def map_atoms(p, f):
    """ring homomorphism given on non-scalar atoms: f(atom)->Poly"""
    if not isinstance(p, Poly):
        return p
    if p.scalar():
        return p
    r = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            q = q * (ppow(f(a), e) if not a.scalar else Poly({((a, e),): Fraction(1)}))
        r = r + q
    return r


def hom(op, *params, result_scalar=False):
    """homomorphism wrapping every non scalar atom in (op, atom, params); distributes through S/ew"""
    def f(a):
        if a.op == "S":
            return map_atoms(a.args[0], f)
        if a.op == "ew" :
            return P(ew(a.args[0], *[map_atoms(x, f) for x in a.args[1]]))
        if a.op == "ind" and a.args[0] in ("lt0", "eq0"):
            d = map_atoms(a.args[1], f)
            return cmp_lt(d, ZERO) if a.args[0] == "lt0" else cmp_eq(d, ZERO)
        if a.op == "clean":
            return P(atom("clean", map_atoms(a.args[0], f), a.args[1], scalar=result_scalar))
        if a.op == op == "mir":
            return P(a.args[0])
        return P(REBUILD2[op](a, params, result_scalar) if op in REBUILD2
                 else atom(op, a, *params, scalar=result_scalar))
    return f


REBUILD2 = {}


def wrap(p, op, *params, result_scalar=False):
    if not isinstance(p, Poly):
        return p
    return map_atoms(p, hom(op, *params, result_scalar=result_scalar))


def rebuild_hom(op):
    def rb(a, new):
        inner = new[0]
        params = new[1:]
        return wrap(P(inner), op, *params, result_scalar=a.scalar)
    REBUILD[op] = rb


def unselect(mask):
    """drop the selection by a mask from the atoms of a pointwise value"""
    def f(a):
        if a.op == "msel" and a.args[1] == mask:
            return P(a.args[0])
        if a.op == "S":
            return map_atoms(a.args[0], f)
        if a.op == "ew":
            return P(ew(a.args[0], *[map_atoms(x, f) for x in a.args[1]]))
        if a.op == "ind" and a.args[0] in ("lt0", "eq0"):
            d = map_atoms(a.args[1], f)
            return cmp_lt(d, ZERO) if a.args[0] == "lt0" else cmp_eq(d, ZERO)
        if a.op == "clean":
            return P(atom("clean", map_atoms(a.args[0], f), a.args[1], scalar=a.scalar))
        return P(a)
    return f


for _o in ("bc", "idx", "sl", "rshp", "tr", "mir", "rev", "msel"):
    rebuild_hom(_o)


def broadcast_shapes(sa, sb):
    n = max(len(sa), len(sb))
    a = (1,) * (n - len(sa)) + tuple(sa)
    b = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            if not isinstance(x, int) and not isinstance(y, int):
                if (P(x) - P(y)).const() is None:
                    # undecidable: assume they are meant to agree
                    out.append(x)
                    continue
            raise (BroadcastErr if isinstance(x, int) and isinstance(y, int) else ShapeError)("shapes %r and %r" % (sa, sb))
    return tuple(out)


def expand_to(a, shape):
    """cells of a broadcast to shape"""
    if a.shape == shape:
        return a.cells
    if a.shape == ():
        return a.cells * ncells(shape)
    n = len(shape)
    sh = (1,) * (n - len(a.shape)) + tuple(a.shape)
    axes = tuple(n - 1 - i for i, d in enumerate(sh) if not isinstance(d, int))
    raxes = sym_axes(shape)
    cells = a.cells
    if axes and axes != raxes:
        cells = tuple(wrap(c, "bc", axes) for c in cells)
    out = []
    src_axes = [i for i, d in enumerate(sh) if isinstance(d, int)]
    dst_axes = [i for i, d in enumerate(shape) if isinstance(d, int)]
    for pt in cell_points(shape):
        full = dict(zip(dst_axes, pt))
        multi = [(full.get(i, 0) if sh[i] != 1 else 0) for i in src_axes]
        out.append(cells[cell_index(sh, multi)])
    return tuple(out)


def binop(f, a, b):
    """elementwise f on Poly cells with broadcasting; a, b Arr"""
    if a.shape is None or b.shape is None:
        if a.shape == ():
            return Arr(None, tuple(f(a.cells[0], y) for y in b.cells))
        if b.shape == ():
            return Arr(None, tuple(f(x, b.cells[0]) for x in a.cells))
        if len(a.cells) == len(b.cells) == 1:
            return Arr(None, (f(a.cells[0], b.cells[0]),))
        return unk("unknown shape", a, b)
    sh = broadcast_shapes(a.shape, b.shape)
    x, y = expand_to(a, sh), expand_to(b, sh)
    return Arr(sh, [f(p, q) for p, q in zip(x, y)])


def ew(name, *args):
    """elementwise function atom"""
    sc = all(x.scalar() for x in args)
    if any(special(x) == "nan" for x in args):
        return NAN
    if name == "abs" and special(args[0]):
        return INF
    if name in ("max", "min") and any(special(x) for x in args) and all(special(x) or x.const() is not None for x in args):
        return (max if name == "max" else min)(args, key=lambda x: float(special(x) or x.const()))
    if len(args) == 1:
        x = args[0]
        c = x.const()
        if name in ("cos", "sin", "tan"):
            sgn, x2 = _trig_shift(name, x)
            if sgn != 1 or x2 != x:
                if isinstance(x2, Fraction):
                    return P(x2)
                return ew(name, x2) * sgn
        if name == "abs":
            if c is not None:
                return P(abs(c))
            lead = x.t[min(x.t, key=lambda m: tuple((a.id, e) for a, e in m))]
            if lead < 0:
                x = -x
            if len(x.t) == 1:
                (m, k), = x.t.items()
                if k > 0 and all(e.denominator == 1 and e % 2 == 0 for _, e in m):
                    return x
        elif name == "sqrt":
            return ppow(x, Fraction(1, 2))
        elif name == "floor":
            if c is not None:
                return P(c.numerator // c.denominator)
            if len(x.t) == 1:
                (m, k), = x.t.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ew" and m[0][0].args[0] == "floor":
                    return x
        elif name in ("cos", "cosh"):
            if c == 0:
                return ONE
            x = _even(x)
        elif name in ("sin", "sinh", "tanh", "erf", "arcsin"):
            if c == 0:
                return ZERO
            y = _even(x)
            if y != x:
                return -P(atom("ew", name, (y,), scalar=sc))
        elif name == "exp" and c == 0:
            return ONE
        elif name == "log" and c == 1:
            return ZERO
        elif name == "log2":
            return P(atom("ew", "log", (x,), scalar=sc)) / P(atom("ew", "log", (P(2),), scalar=True))
        elif name == "log10":
            return P(atom("ew", "log", (x,), scalar=sc)) / P(atom("ew", "log", (P(10),), scalar=True))
        args = (x,)
    if name in ("max", "min"):
        flat = []
        for x in args:
            a = as_single(x)
            if a is not None and a.op == "ew" and a.args[0] == name:
                flat.extend(a.args[1])
            else:
                flat.append(x)
        consts = [x.const() for x in flat if x.const() is not None]
        rest = [x for x in dict.fromkeys(flat) if x.const() is None]
        if consts:
            k = max(consts) if name == "max" else min(consts)
            if not rest or abs(k) < FAR or (k > 0) == (name == "max"):
                rest.append(P(k))
        if len(rest) == 1:
            return rest[0]
        rest = sorted(rest, key=lambda p: repr_key(p))
        return P(atom("ew", name, tuple(rest), scalar=sc))
    return P(atom("ew", name, tuple(args), scalar=sc))


PI = P(atom("pi", scalar=True))


FAR = 10 ** 12         # start values of a running maximum or minimum: no quantity of the program lies beyond


def _trig_shift(name, x):
    """sin/cos with the rational multiple of pi in the argument reduced: (sign, argument)"""
    pm = next(iter(PI.t))
    k = x.t.get(pm)
    if k is None:
        return 1, x
    rest = Poly({m: c for m, c in x.t.items() if m != pm})
    sgn = 1
    if not rest.t:
        k = k % 2
        if name == "tan":
            return 1, PI * (k % 1)
        if k > 1:                      # f(2pi - y) : cos even, sin odd
            k = 2 - k
            sgn = sgn if name == "cos" else -sgn
        if 2 * k > 1:                  # f(pi - y)
            k = 1 - k
            sgn = -sgn if name == "cos" else sgn
        if k == 0:
            return 1, Fraction(sgn if name == "cos" else 0)
        if 2 * k == 1:
            return 1, Fraction(0 if name == "cos" else sgn)
        return sgn, PI * k
    w = k.numerator // k.denominator
    if w == 0:
        return 1, x
    if w % 2 and name != "tan":
        sgn = -1
    return sgn, rest + PI * (k - w)


def _even(x):
    if not x.t:
        return x
    lead = x.t[min(x.t, key=lambda m: tuple((a.id, e) for a, e in m))]
    return -x if lead < 0 else x


def repr_key(p):
    return tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in p.t.items()))


def as_single(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


@rebuild("ew")
def _rb_ew(a, new):
    return ew(new[0], *[P(x) for x in new[1]])


# ---------------------------------------------------------------- reductions
def nsum(p, axes=None):
    """sum over all symbolic axes (scalar result)"""
    def f(m):
        # m: array part of the monomial
        body = Poly({m: Fraction(1)})
        o = one_sum(m)
        if o is not None:
            t, rest = o
            return bsum(t.args[0], t.args[1], nsum(rest * t.args[2], axes))
        return P(atom("nsum", body, axes, scalar=True))
    return linmap(p, f)


@rebuild("nsum")
def _rb_nsum(a, new):
    return nsum(P(new[0]), new[1])


def one_sum(m):
    """(sum atom, rest) when the monomial holds a single bound sum that can be pulled out"""
    from .alg import all_atoms
    ss = [x for x in m if x[0].op == "sum"]
    if len(ss) != 1 or ss[0][1] != 1:
        return None
    rest = Poly({tuple(x for x in m if x is not ss[0]): Fraction(1)})
    if any(a.op in ("sum", "map", "maxred", "bv") for a in all_atoms(rest)):
        return None
    return ss[0][0], rest


def integral(p):
    def f(m):
        o = one_sum(m)
        if o is not None:
            t, rest = o
            return bsum(t.args[0], t.args[1], integral(rest * t.args[2]))
        return P(atom("int", Poly({m: Fraction(1)}), scalar=True))
    return linmap(p, f)


@rebuild("int")
def _rb_int(a, new):
    return integral(P(new[0]))


@rebuild("@")
def _rb_app(a, new):
    l = new[0]
    l = l if isinstance(l, Lin) else Lin.op(as_atom(l))
    return l.apply(P(new[1]))


def bsum(bv, n, body):
    """sum_{bv=0}^{n-1} body, canonically bound"""
    c = n.const()
    if c is not None and 0 <= c <= 64:
        r = ZERO
        for i in range(int(c)):
            r = r + subst(body, {bv: P(i)})
        return r
    parts = _flagged_length(n)
    if parts is not None:
        base, steps = parts
        r = bsum(bv, base, body)
        for j, flag in enumerate(steps):
            r = r + flag * subst(body, {bv: base + P(j)})
        return r
    body = _within(bv, n, body)
    r = ZERO
    for m, c in body.t.items():
        dep = tuple(x for x in m if bv in bvs(x[0]))
        ind_ = tuple(x for x in m if bv not in bvs(x[0]))
        coef = Poly({ind_: c})
        if not dep:
            r = r + coef * n
        else:
            d = Poly({dep: Fraction(1)})
            r = r + coef * _joined_sum(bv, n, d)
    return r


def _flagged_length(n):
    """n = base + (how many of up to three further elements, depending on conditions): base and the condition of each"""
    flags = [m for m in n.t if m and all(a.op == "ind" for a, _ in m)]
    conds = list(dict.fromkeys(a for m in flags for a, _ in m))
    if not flags or len(conds) > 3:
        return None
    extra = Poly({m: c for m, c in n.t.items() if not m or m in flags})
    cases = []
    for bits in product((0, 1), repeat=len(conds)):
        v = subst(extra, {a: P(b) for a, b in zip(conds, bits)}).const()
        if v is None or v.denominator != 1 or not 0 <= v <= 3:
            return None
        w = ONE
        for a, b in zip(conds, bits):
            w = w * (P(a) if b else ONE - P(a))
        cases.append((int(v), w))
    steps = []
    for j in range(max(v for v, _ in cases)):
        w = ZERO
        for v, x in cases:
            w = w + x if v > j else w
        steps.append(w)
    return n - extra, steps


def _within(bv, n, body):
    """conditions on the counter that its bounds 0 <= bv < n settle"""
    from .alg import all_atoms
    known = {}
    for a in all_atoms(body):
        if a.op != "ind" or a.args[0] not in ("lt0", "eq0") or bv not in bvs(a):
            continue
        p = P(a.args[1])
        c = p.t.get(((bv, 1),))
        rest = p - P(bv) * c if c is not None else None
        if c is None or bv in bvs(rest):
            continue
        ends = (rest.const(), (rest + (n - ONE) * c).const())
        low, high = ends if c > 0 else ends[::-1]
        if a.args[0] == "lt0":
            if high is not None and high < 0:
                known[a] = ONE
            elif low is not None and low >= 0:
                known[a] = ZERO
        elif high is not None and high < 0 or low is not None and low > 0:
            known[a] = ZERO
    return subst(body, known) if known else body


def _joined_sum(bv, n, d):
    """a sum over the elements of arrays put one behind the other is the sum of the sums over the arrays"""
    from .alg import all_atoms
    for a in all_atoms(d):
        if a.op != "idx" or not isinstance(a.args[0], Atom) or a.args[0].op != "cat" or a.args[1] != a.args[0].args[0] or P(a.args[2]) != P(bv):
            continue
        parts = a.args[0].args[1]
        if not all(isinstance(x, Poly) for x, _ in parts):
            continue
        total = ZERO
        for _, e in parts:
            total = total + P(e)
        if total != n:
            continue
        off, r = ZERO, ZERO
        for x, e in parts:
            one = subst(d, {a: wrap(x, "idx", a.args[1], P(bv) - off, result_scalar=True)})
            r = r + bsum(bv, P(e), subst(one, {bv: P(bv) + off}))
            off = off + P(e)
        return r
    return P(_bsum_atom(bv, n, d))


def _depth(x):
    d = 0
    for b in bvs(x):
        if b.args[0].startswith("i") and b.args[0][1:].isdigit():
            d = max(d, int(b.args[0][1:]) + 1)
    return d


def _inner_depth(p, memo=None):
    from .alg import all_atoms
    d = 0
    for a in all_atoms(p):
        if a.op in ("sum", "map", "maxred") and isinstance(a.args[0], Atom) and a.args[0].op == "bv":
            nm = a.args[0].args[0]
            if nm.startswith("i") and nm[1:].isdigit():
                d = max(d, int(nm[1:]) + 1)
    return d


def canon_bv(bv, body):
    d = max(_inner_depth(body), 0)
    return atom("bv", "i%d" % d, scalar=True)


def _bsum_atom(bv, n, d):
    nb = canon_bv(bv, d)
    if nb is not bv:
        d = subst(d, {bv: P(nb)})
    return atom("sum", nb, n, d, scalar=d.scalar())


@rebuild("sum")
def _rb_sum(a, new):
    bv = a.args[0]
    return bsum(bv, P(new[1]), P(new[2]))


# ---------------------------------------------------------------- indexing
def norm_idx(idx, shape):
    """-> list of (kind, value) per output item consuming axes: ('new',), ('all',), ('int',k),
    ('slice',lo,hi,step), ('arr', Arr)"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    n_consume = sum(1 for x in idx if x is not None and x is not Ellipsis)
    out = []
    ax = 0
    for x in idx:
        if x is None:
            out.append(("new",))
        elif x is Ellipsis:
            for _ in range(len(shape) - n_consume):
                out.append(("all",))
                ax += 1
        elif isinstance(x, SliceV):
            if ax >= len(shape):
                raise IndexErr("too many indices")
            out.append(norm_slice(x, shape[ax]))
            ax += 1
        elif isinstance(x, (int, Poly)) and not isinstance(x, bool):
            if ax >= len(shape):
                raise IndexErr("too many indices")
            d = shape[ax]
            k = dim(P(x))
            if isinstance(k, int) and k < 0:
                k = dim(P(d) + k)
            if isinstance(k, int) and isinstance(d, int) and not 0 <= k < d:
                raise IndexErr("index %d out of range for length %d" % (k, d))
            out.append(("int", k))
            ax += 1
        elif isinstance(x, Arr):
            out.append(("arr", x))
            ax += max(1, len(x.shape) if (x.shape and (is_mask(x) or flat_mask(x, shape))) else 1)
        else:
            out.append(("unk", x))
            ax += 1
    while ax < len(shape):
        out.append(("all",))
        ax += 1
    return out


def is_mask(x):
    """boolean arrays: cells built of indicators only"""
    ok = False
    for c in x.cells:
        if not isinstance(c, Poly):
            return False
        for m in c.t:
            for a, e in m:
                if a.op != "ind":
                    return False
                ok = True
    return ok


def flat_mask(x, shape):
    """condition known to be the same everywhere along a symbolic length"""
    return x.shape == shape and any(not isinstance(d, int) for d in shape) \
        and all(isinstance(c, Poly) and c.const() in (0, 1) for c in x.cells)


def norm_bound(v, d, default):
    if v is None:
        return default
    v = P(v)
    c = v.const()
    if c is not None and c < 0:
        return P(d) + v
    if c is None:
        # symbolic: -b with b a positive size -> d - b
        if all(k < 0 for m, k in v.t.items()) or (v.t and v.t.get((), 0) <= 0 and all(
                k < 0 for m, k in v.t.items() if m)):
            return P(d) + v
    return v


def norm_slice(s, d):
    st = 1 if s.step is None else dim(P(s.step))
    if st == 1:
        lo, hi = norm_bound(s.lo, d, ZERO), norm_bound(s.hi, d, P(d))
        if isinstance(d, int):
            l, h = lo.const(), hi.const()
            if l is not None and h is not None:
                l, h = max(0, min(d, int(l))), max(0, min(d, int(h)))
                if l == 0 and h == d:
                    return ("all",)
                return ("slice", l, max(l, h), 1)
        if lo == ZERO and (hi == P(d)):
            return ("all",)
        return ("slice", dim(lo), dim(hi), 1)
    if st == -1 and s.lo is None and s.hi is None:
        return ("rev",)
    if isinstance(d, int) and isinstance(st, int):
        l = None if s.lo is None else P(s.lo).const()
        h = None if s.hi is None else P(s.hi).const()
        if (s.lo is None or l is not None) and (s.hi is None or h is not None):
            r = range(d)[slice(None if l is None else int(l), None if h is None else int(h), st)]
            return ("take", tuple(r))
    return ("unk", s)


# ------------------------------------------------------------------ matrices applied to vectors with known cells
def perm_of(x):
    """key of a pivoting permutation array (or its inverse), else None"""
    if not isinstance(x, Arr) or x.shape is None or len(x.shape) != 1 or not isinstance(x.shape[0], int):
        return None
    key = None
    for i, c in enumerate(x.cells):
        t = as_single(c) if isinstance(c, Poly) else None
        if t is None or t.op != "perm" or t.args[2] != i or (key is not None and key != t.args[:2]):
            return None
        key = t.args[:2]
    return key


def perm_lin(key, take):
    name, inverse = key
    return Lin.op(atom("ptake" if take != inverse else "pscat", name))


def lu_words(l):
    """compose permutations and triangular factors: pscat/ptake cancel, and the four factors make the inverse"""
    out = Lin({})
    for w, c in l.t.items():
        w = list(w)
        again = True
        while again:
            again = False
            for i in range(len(w) - 1):
                x, y = w[i][1], w[i + 1][1]
                if w[i][0] == w[i + 1][0] == "O" and {x.op, y.op} == {"ptake", "pscat"} and x.args == y.args:
                    del w[i:i + 2]
                    again = True
                    break
            for i in range(len(w) - 3):
                q = [w[i + k][1] for k in range(4)]
                if all(w[i + k][0] == "O" for k in range(4)) and q[0].op == "ptake" and q[0].args[0][0] == "c" and \
                        q[3].op == "pscat" and q[3].args[0][0] == "r" and q[1].op == q[2].op == "inv":
                    key = q[0].args[0][1:]
                    if q[3].args[0][1:] == key and q[1].args[0] == Lin.op(atom("luU", key)) and \
                            q[2].args[0] == Lin.op(atom("luL", key)):
                        (w2, c2), = key[0].inv().t.items()
                        w[i:i + 4] = list(w2)
                        c = c * c2
                        again = True
                        break
        out = out + Lin({tuple(w): c})
    return out


def mv(lin, cells):
    """cells of lin applied to the vector with the given cells"""
    d = lin.as_diag()
    if d is not None and d.scalar():
        return [d * c for c in cells]
    first = as_single(cells[0]) if isinstance(cells[0], Poly) else None
    if first is not None and first.op == "mv" and all(
            as_single(c) is not None and as_single(c).op == "mv" and as_single(c).args == first.args[:2] + (i,)
            for i, c in enumerate(cells)):
        return mv(lu_words(lin @ first.args[0]), list(first.args[1]))
    lin = lu_words(lin)
    if lin == Lin.ident():
        return list(cells)
    return [P(atom("mv", lin, tuple(cells), i, scalar=True)) for i in range(len(cells))]


def getitem(a, idx):
    """a: Arr with known shape"""
    items = norm_idx(idx, a.shape)
    if items and items[0][0] == "arr" and all(x[0] == "all" for x in items[1:]):
        k = perm_of(items[0][1])
        if k is not None and a.shape[0] == items[0][1].shape[0] and all(isinstance(d, int) for d in a.shape):
            return perm_apply(perm_lin(k, True), a)
    if any(x[0] == "arr" for x in items):
        items = const_masks(items)
        cf = const_fancy(a, items)
        if cf is not None:
            return Arr(cf[0], [a.cells[cell_index(a.shape, pt)] for pt in cf[1]])
        arrs = [x[1] for x in items if x[0] == "arr"]
        if len(items) == 1 and is_mask(arrs[0]):
            m = arrs[0]
            if len(a.cells) == len(m.cells) == 1 and a.shape == m.shape and len(a.shape) == 1:
                # values at the selected points; pointwise operations on equally selected values stay pointwise
                k = P(m.cells[0])
                return Arr((P(atom("count", k, scalar=True)),), [wrap(a.cells[0], "msel", k)])
            r = [unk_poly("masked selection", a, arrs[0])]
            return Arr(None, r)
        # constant integer index arrays
        new = []
        const = True
        for x in items:
            if x[0] == "arr":
                ks = [c.const() if isinstance(c, Poly) else None for c in x[1].cells]
                if x[1].shape is not None and len(x[1].shape) == 1 and all(k is not None for k in ks) \
                        and isinstance(x[1].shape[0], int):
                    new.append(("take", tuple(int(k) for k in ks)))
                else:
                    const = False
            else:
                new.append(x)
        if const and len(arrs) == 1:
            items = new
        elif len(items) == 1 and len(a.shape) == 1 and arrs[0].shape is not None and len(arrs[0].shape) == 1:
            return Arr(arrs[0].shape, [P(atom("take", c, 0, k)) for c in a.cells[:1] for k in arrs[0].cells[:1]])
        elif len(arrs) == 1:
            pos = [i for i, x in enumerate(items) if x[0] == "arr"][0]
            if all(x[0] == "all" for i, x in enumerate(items) if i != pos) and not isinstance(a.shape[pos], int):
                sh = a.shape[:pos] + tuple(arrs[0].shape or (a.shape[pos],)) + a.shape[pos + 1:]
                return Arr(sh, [P(atom("take", c, pos, arrs[0].cells[0])) for c in a.cells])
            return unk("fancy index", a, arrs[0])
        else:
            return unk("fancy index", a, *arrs)
    if any(x[0] == "unk" for x in items):
        return unk("index", a)
    shape = []
    # per source axis spec
    ax = 0
    spec = []
    for x in items:
        if x[0] == "new":
            shape.append(1)
            continue
        d = a.shape[ax]
        spec.append((x, d))
        if x[0] == "all":
            shape.append(d)
        elif x[0] == "slice":
            shape.append(dim(P(x[2]) - P(x[1])))
        elif x[0] == "rev":
            shape.append(d)
        elif x[0] == "take":
            shape.append(len(x[1]))
        ax += 1
    shape = tuple(shape)
    # wraps for symbolic axes
    ops = []
    remaining_sym = 0
    for k, (x, d) in enumerate(spec):
        if isinstance(d, int):
            if x[0] == "int" and not isinstance(x[1], int):
                ops.append(("cidx", k, x[1]))
            elif x[0] == "slice" and not (isinstance(x[1], int) and isinstance(x[2], int)):
                return unk("slice of concrete dim", a)
            continue
        if x[0] == "all":
            remaining_sym += 1
        elif x[0] == "int":
            ops.append(("idx", symax(a.shape, k), x[1]))
        elif x[0] == "slice":
            remaining_sym += 1
            ops.append(("sl", symax(a.shape, k), x[1], x[2]))
        elif x[0] == "rev":
            remaining_sym += 1
            ops.append(("rev", symax(a.shape, k)))
        elif x[0] == "take":
            return unk("fancy index", a)
    scalar_after = remaining_sym == 0
    # enumerate concrete result points
    conc = [(k, x, d) for k, (x, d) in enumerate(spec) if isinstance(d, int)]
    if any(o[0] == "cidx" for o in ops):
        return unk("symbolic index into concrete dim", a, *[o[2] for o in ops if o[0] == "cidx"])
    choices = []
    for k, x, d in conc:
        if x[0] == "all":
            choices.append(range(d))
        elif x[0] == "int":
            choices.append((x[1],))
        elif x[0] == "slice":
            choices.append(range(x[1], x[2]))
        elif x[0] == "rev":
            choices.append(range(d - 1, -1, -1))
        elif x[0] == "take":
            choices.append(x[1])
    cells = []
    for pt in product(*choices):
        c = a.cells[cell_index(a.shape, pt)]
        for i, o in enumerate(ops):
            if not isinstance(c, Poly):
                return unk("object index", a)
            c = apply_idx(c, o, scalar_after and i == len(ops) - 1)
        cells.append(c)
    return mk(shape, cells)


def symax(shape, k):
    """an axis is named by the number of symbolic axes behind it: concrete ones do not change what a cell means"""
    return sum(1 for d in shape[k + 1:] if not isinstance(d, int))


def apply_idx(c, o, scalar):
    if o[0] == "idx":
        return wrap(c, "idx", o[1], P(o[2]), result_scalar=scalar)
    if o[0] == "sl":
        return wrap(c, "sl", o[1], P(o[2]), P(o[3]))
    if o[0] == "rev":
        return wrap(c, "rev", o[1])
    raise AssertionError


def _rev(a, params, scalar):
    if a.op == "rev" and a.args[1:] == params:
        return a.args[0]
    return atom("rev", a, *params, scalar=scalar)


REBUILD2["rev"] = _rev


def counting(k):
    """a position that is never negative: a constant or a loop counter"""
    k = P(k)
    return k.const() is not None and k.const() >= 0 or all(c > 0 and all(x.op == "bv" and e > 0 for x, e in m) for m, c in k.t.items())


def _idx(a, params, scalar):
    axis, k = params
    if a.op == "st" and a.args[1][0] == axis:
        kk = P(a.args[1][1])
        if kk == k:
            return a.args[2]
        d = (kk - k).const()
        if d is not None and d != 0:
            return wrap(P(a.args[0]), "idx", axis, k, result_scalar=scalar)
    if a.op == "map" and a.args[4] == axis:
        # map(bv, n, val, init, axis): element k (assumed 0<=k<n)
        return subst(a.args[2], {a.args[0]: k})
    if a.op == "rev" and a.args[1] == axis:
        pass
    if a.op == "sl" and a.args[1] == axis and counting(k):
        return wrap(P(a.args[0]), "idx", axis, P(a.args[2]) + k, result_scalar=scalar)
    if a.op == "full":
        return a.args[0]
    if a.op == "cat" and a.args[0] == axis and all(isinstance(x, Poly) for x, d in a.args[1]):
        off = ZERO
        for x, d in a.args[1]:
            lo = (k - off).const()
            hi = (k - off - d).const()
            if (lo is not None and lo >= 0 and (d.const() is None or lo < d.const())) or (hi is not None and hi < 0 and d.const() is None):
                return x if d.const() is not None else wrap(x, "idx", axis, k - off, result_scalar=scalar)
            off = off + d
    return atom("idx", a, axis, k, scalar=scalar)


REBUILD2["idx"] = _idx


def _sl(a, params, scalar):
    axis, lo, hi = params
    if a.op == "cat" and a.args[0] == axis and all(isinstance(x, Poly) for x, d in a.args[1]):
        off, got, pos = ZERO, [], None
        for x, d in a.args[1]:
            if pos is None and off == lo:
                pos = off
            if pos is not None and pos != hi:
                got.append((x, d))
                pos = pos + d
            off = off + d
        if pos == hi and len(got) == 1 and got[0][1].const() is None:
            return got[0][0]
        if pos == hi and len(got) > 1:
            return atom("cat", axis, tuple(got), scalar=scalar)
    return atom("sl", a, *params, scalar=scalar)


REBUILD2["sl"] = _sl


def _bc(a, params, scalar):
    return atom("bc", a, *params, scalar=scalar)


def _const_ints(x):
    if x.shape is None or not all(isinstance(d, int) for d in x.shape):
        return None
    ks = []
    for c in x.cells:
        k = c.const() if isinstance(c, Poly) else None
        if k is None or k.denominator != 1:
            return None
        ks.append(int(k))
    return ks


def const_fancy(a, items):
    """positions selected by constant integer index arrays: (result shape, [full multi index per result cell])
    or None.  Symbolic axes must be taken whole."""
    if any(x[0] == "new" for x in items):
        return None
    arrs = []
    for ax, x in enumerate(items):
        d = a.shape[ax]
        if x[0] == "arr":
            if not isinstance(d, int):
                return None
            ks = _const_ints(x[1])
            if ks is None:
                return None
            if any(k < -d or k >= d for k in ks):
                raise IndexErr("index out of bounds")
            arrs.append((ax, x[1].shape, [k % d for k in ks]))
        elif isinstance(d, int):
            if x[0] == "int" and not isinstance(x[1], int):
                return None
            if x[0] == "slice" and not (isinstance(x[1], int) and isinstance(x[2], int)):
                return None
            if x[0] == "unk":
                return None
        elif x[0] != "all":
            return None
    if not arrs:
        return None
    sh = ()
    for _, s, _ in arrs:
        sh = broadcast_shapes(sh, s)
    exp = {ax: expand_to(Arr(s, ks), sh) for ax, s, ks in arrs}
    axes = [ax for ax, _, _ in arrs]
    ints = [ax for ax, x in enumerate(items) if x[0] == "int"]
    adv = sorted(axes + ints)
    adj = adv == list(range(adv[0], adv[-1] + 1))
    first = adv[0] if adj else 0
    out_shape, order = [], []
    placed = False
    for ax, x in enumerate(items):
        if (adj and ax == first or not adj and ax == 0) and not placed:
            out_shape.extend(sh)
            order.append(("adv",))
            placed = True
        if x[0] in ("arr", "int"):
            continue
        d = a.shape[ax]
        if not isinstance(d, int):
            out_shape.append(d)
            order.append(("sym", ax))
            continue
        r = {"all": lambda: range(d), "rev": lambda: range(d - 1, -1, -1), "slice": lambda: range(x[1], x[2]),
             "take": lambda: x[1]}[x[0]]()
        out_shape.append(len(r))
        order.append(("ax", ax, list(r)))
    pts = []
    for pt in product(*[range(d) for d in out_shape if isinstance(d, int)]):
        it = iter(pt)
        multi = {}
        for o in order:
            if o[0] == "adv":
                k = 0
                for d in sh:
                    k = k * d + next(it)
                for ax in axes:
                    multi[ax] = exp[ax][k]
            elif o[0] == "ax":
                multi[o[1]] = o[2][next(it)]
        for ax, x in enumerate(items):
            if x[0] == "int":
                multi[ax] = x[1]
        pts.append(tuple(multi[ax] for ax, d in enumerate(a.shape) if isinstance(d, int)))
    return tuple(out_shape), pts


def chosen(mask):
    """index arrays of the elements a constant mask selects, None if it is not constant"""
    if not mask.shape or not all(isinstance(d, int) for d in mask.shape):
        return None
    ks = _const_ints(mask)
    if ks is None:
        return None
    pts = [p for p, b in zip(product(*[range(d) for d in mask.shape]), ks) if b]
    return tuple(Arr((len(pts),), [P(p[i]) for p in pts]) for i in range(len(mask.shape)))


def const_masks(items):
    """constant boolean masks -> integer index arrays"""
    out = []
    for x in items:
        if x[0] == "arr" and is_mask(x[1]) and x[1].shape is not None and len(x[1].shape) == 1:
            ks = _const_ints(x[1])
            if ks is not None:
                sel = [k for k, b in enumerate(ks) if b]
                x = ("arr", Arr((len(sel),), [P(k) for k in sel]))
        out.append(x)
    return out


def perm_apply(lin, a):
    n = a.shape[0]
    m = len(a.cells) // n if n else 0
    cols = [mv(lin, [a.cells[i * m + j] for i in range(n)]) for j in range(m)]
    return Arr(a.shape, [cols[j][i] for i in range(n) for j in range(m)])


def setitem(a, idx, v):
    """returns new Arr"""
    va = as_arr(v)
    if a.shape is None:
        return unk("store into unknown", a, v)
    items = norm_idx(idx, a.shape)
    if items and items[0][0] == "arr" and all(x[0] == "all" for x in items[1:]) and va is not None and va.shape is not None:
        k = perm_of(items[0][1])
        if k is not None and a.shape[0] == items[0][1].shape[0] and all(isinstance(d, int) for d in a.shape):
            if broadcast_shapes(va.shape, a.shape) != a.shape:
                raise ShapeError("cannot store %r into %r" % (va.shape, a.shape))
            return perm_apply(perm_lin(k, False), Arr(a.shape, expand_to(va, a.shape)))
    if items and items[0][0] == "arr" and len(items) == len(a.shape) > 1 and va is not None and va.shape is not None \
            and all(x[0] == "all" or (x[0] == "int" and isinstance(x[1], int)) for x in items[1:]):
        k = perm_of(items[0][1])
        if k is not None and a.shape[0] == items[0][1].shape[0] and all(isinstance(d, int) for d in a.shape):
            # every row is stored once: store the rows in their order
            sh = (a.shape[0],) + tuple(d for x, d in zip(items[1:], a.shape[1:]) if x[0] == "all")
            if broadcast_shapes(va.shape, sh) != sh:
                raise ShapeError("cannot store %r into %r" % (va.shape, sh))
            rows = perm_apply(perm_lin(k, False), Arr(sh, expand_to(va, sh)))
            pts = product(range(a.shape[0]), *[range(d) if x[0] == "all" else (x[1] % d,) for x, d in zip(items[1:], a.shape[1:])])
            cells = list(a.cells)
            for pt, c in zip(pts, rows.cells):
                cells[cell_index(a.shape, pt)] = c
            return Arr(a.shape, cells)
    if any(x[0] == "arr" for x in items):
        items = const_masks(items)
        cf = const_fancy(a, items)
        if cf is not None and va is not None and va.shape is not None:
            sh, pts = cf
            if not [d for d in sh if not isinstance(d, int)] or va.shape == ():
                if broadcast_shapes(va.shape, sh) != sh:
                    raise ShapeError("cannot store %r into %r" % (va.shape, sh))
                cells = list(a.cells)
                for pt, c in zip(pts, expand_to(va, sh)):
                    cells[cell_index(a.shape, pt)] = c
                return Arr(a.shape, cells)
    arrs = [x[1] for x in items if x[0] == "arr"]
    if arrs:
        if len(items) == 1 and (is_mask(arrs[0]) or flat_mask(arrs[0], a.shape)) and va is not None:
            m = arrs[0]
            if m.shape is not None and broadcast_shapes(m.shape, a.shape) == a.shape and (va.shape == ()):
                mc = expand_to(m, a.shape)
                return Arr(a.shape, [masked(c, k, va.cells[0]) for c, k in zip(a.cells, mc)])
            if len(a.cells) == len(m.cells) == 1 and a.shape == m.shape and va.shape is not None and len(va.shape) == 1 \
                    and len(va.cells) == 1 and not isinstance(va.shape[0], int) and P(va.shape[0]) == P(atom("count", P(m.cells[0]), scalar=True)):
                k = P(m.cells[0])
                v1 = map_atoms(va.cells[0], unselect(k))
                if not any(x.op == "msel" for x in all_atoms(v1)):
                    return Arr(a.shape, [masked(a.cells[0], k, v1)])
        return Arr(a.shape, [unk_poly("fancy store", a, v, *arrs)] * len(a.cells))
    if any(x[0] in ("unk", "take") for x in items):
        return Arr(a.shape, [unk_poly("store", a, v)] * len(a.cells))
    spec = []
    ax = 0
    rshape = []
    for x in items:
        if x[0] == "new":
            rshape.append(1)
            continue
        d = a.shape[ax]
        spec.append((x, d))
        if x[0] in ("all", "rev"):
            rshape.append(d)
        elif x[0] == "slice":
            rshape.append(dim(P(x[2]) - P(x[1])))
        ax += 1
    rshape = tuple(rshape)
    objv = va is None
    if objv:
        vals = None
    else:
        if va.shape is None:
            vals = None
            if len(va.cells) == 1:
                vals = va.cells * ncells(rshape)
            else:
                return Arr(a.shape, [unk_poly("store", a, v)] * len(a.cells))
        else:
            vs = va.shape
            while len(vs) > len(rshape) and vs and vs[0] == 1:
                vs = vs[1:]
            va2 = Arr(vs, va.cells)
            sh = broadcast_shapes(vs, rshape)
            if sh != rshape:
                raise ShapeError("cannot store %r into %r" % (va.shape, rshape))
            vals = expand_to(va2, rshape)
    conc = [(k, x, d) for k, (x, d) in enumerate(spec) if isinstance(d, int)]
    symops = []
    for k, (x, d) in enumerate(spec):
        if not isinstance(d, int) and x[0] != "all":
            symops.append((symax(a.shape, k), x))
    choices = []
    for k, x, d in conc:
        if x[0] == "all":
            choices.append(range(d))
        elif x[0] == "int":
            if not isinstance(x[1], int):
                return Arr(a.shape, [unk_poly("symbolic store", a, v)] * len(a.cells))
            choices.append((x[1],))
        elif x[0] == "slice":
            if not (isinstance(x[1], int) and isinstance(x[2], int)):
                return Arr(a.shape, [unk_poly("symbolic store", a, v)] * len(a.cells))
            choices.append(range(x[1], x[2]))
        elif x[0] == "rev":
            choices.append(range(d - 1, -1, -1))
    cells = list(a.cells)
    pts = list(product(*choices))
    for i, pt in enumerate(pts):
        k = cell_index(a.shape, pt)
        new = v if objv else vals[i]
        if symops:
            if objv:
                new = unk_poly("object store", a)
            elif len(symops) == 1 and symops[0][1][0] == "int":
                axis, x = symops[0]
                new = store(cells[k], axis, P(x[1]), new)
            else:
                desc = tuple((axis,) + tuple(P(y) if isinstance(y, (int, Poly)) and not isinstance(y, bool) else y
                                             for y in x[1:]) for axis, x in symops)
                new = P(atom("stb", P(cells[k]), desc, P(new)))
        cells[k] = new
    return Arr(a.shape, cells)


def store(c, axis, k, val):
    s = as_single(c) if isinstance(c, Poly) else None
    if s is not None and s.op == "st" and s.args[1] == (axis, k):
        c = s.args[0]
    return P(atom("st", P(c), (axis, k), P(val)))


@rebuild("st")
def _rb_st(a, new):
    return store(P(new[0]), new[1][0], P(new[1][1]), P(new[2]))


def masked(c, mask, v):
    """c with v where mask"""
    if mask.const() is not None:
        return v if mask.const() else c
    kinds = set()
    for m, k in mask.t.items():
        for x, e in m:
            if x.op == "ind" and x.args[0] in ("isnan", "isinf", "posinf", "neginf") and x.args[1] == c0(c):
                kinds.add({"isnan": "nan"}.get(x.args[0], "inf"))
            else:
                return ite(mask, v, c)
    if v.is_zero() and kinds:
        return clean(c, kinds)
    return ite(mask, v, c)


def c0(c):
    s = as_single(c)
    if s is not None and s.op == "clean":
        return s.args[0]
    return c


def clean(c, kinds):
    if c.const() is not None:
        return c
    sp = special(c)
    if sp:
        return ZERO if sp.lstrip("-") in kinds else P(Fraction(sys.float_info.max)) * (1 if sp == "inf" else -1) if "nan" in kinds and sp != "nan" else c
    s = as_single(c)
    if s is not None and s.op == "clean":
        kinds = set(kinds) | set(s.args[1])
        c = s.args[0]
    return P(atom("clean", c, tuple(sorted(kinds)), scalar=c.scalar()))


@rebuild("clean")
def _rb_clean(a, new):
    return clean(P(new[0]), new[1])


def _rb_map(a, new):
    return P(atom("map", a.args[0], P(new[1]), P(new[2]), new[3], new[4], scalar=a.scalar))


REBUILD["map"] = _rb_map


# ---------------------------------------------------------------- reshaping
def size(shape):
    r = ONE
    for d in shape:
        r = r * P(d)
    return r


def reshape(a, shape, order="C"):
    if a.shape is None:
        return Arr(tuple(shape), [unk_poly("reshape", a)] * ncells(shape)) if -1 not in shape else unk("reshape", a)
    shape = [dim(P(d)) for d in shape]
    tot = size(a.shape)
    if any(d == -1 for d in shape):
        k = [i for i, d in enumerate(shape) if d == -1][0]
        rest = size([d for i, d in enumerate(shape) if i != k])
        shape[k] = dim(tot / rest)
    shape = tuple(shape)
    if shape == a.shape:
        return a
    nz = [d for d in a.shape if d != 1]
    nz2 = [d for d in shape if d != 1]
    if nz == nz2:
        return mk(shape, a.cells) if shape != () else a.cells[0]
    if all(isinstance(d, int) for d in a.shape) and all(isinstance(d, int) for d in shape):
        if order == "C":
            return Arr(shape, a.cells)
        src = {}
        pts = sorted(cell_points(a.shape), key=lambda p: p[::-1])
        vals = [a.cells[cell_index(a.shape, p)] for p in pts]
        dst = sorted(cell_points(shape), key=lambda p: p[::-1])
        cells = [None] * len(vals)
        for p, v in zip(dst, vals):
            cells[cell_index(shape, p)] = v
        return Arr(shape, cells)
    if not cdims(a.shape) or set(cdims(a.shape)) == {1}:
        if not cdims(shape) or set(cdims(shape)) == {1}:
            sa = tuple(d for d in a.shape if d != 1)
            sb = tuple(d for d in shape if d != 1)
            return Arr(shape, [wrap(c, "rshp", sa, sb, order) for c in a.cells])
        # (N,) -> (Na, Nr, 2)
    # general concrete + symbolic mixture: F-order with trailing concrete dim is columnwise
    def tail(s):
        t = 1
        s = list(s)
        while s and isinstance(s[-1], int):
            t *= s.pop()
        return tuple(s), t
    (ha, ta), (hb, tb) = tail(a.shape), tail(shape)
    if order == "F" and ta == tb and not any(isinstance(d, int) and d != 1 for d in ha + hb):
        sa = tuple(d for d in ha if d != 1)
        sb = tuple(d for d in hb if d != 1)
        if sa == sb:
            return Arr(shape, a.cells)
        return Arr(shape, [wrap(c, "rshp", sa, sb, order) for c in a.cells])
    if order == "F" and len(a.shape) == 2 and len(shape) == 1 and isinstance(a.shape[1], int) and not isinstance(a.shape[0], int):
        return concat([Arr((a.shape[0],), [c]) for c in a.cells], 0)
    return Arr(shape, [P(atom("rshpx", tuple(a.cells), a.shape, shape, order, i)) for i in range(ncells(shape))])


def _rshp(a, params, scalar):
    sa, sb, order = params
    if a.op == "rshp" and a.args[1] == sb and a.args[2] == sa and a.args[3] == order:
        return a.args[0]
    return atom("rshp", a, *params, scalar=scalar)


REBUILD2["rshp"] = _rshp


def transpose(a, axes=None):
    if a.shape is None:
        return unk("transpose", a)
    n = len(a.shape)
    axes = axes or tuple(range(n - 1, -1, -1))
    shape = tuple(a.shape[i] for i in axes)
    symold = [i for i, d in enumerate(a.shape) if not isinstance(d, int)]
    symnew = [i for i in axes if not isinstance(a.shape[i], int)]
    cells = []
    cs_old = [i for i, d in enumerate(a.shape) if isinstance(d, int)]
    cs_new = [i for i in axes if isinstance(a.shape[i], int)]
    for pt in cell_points(shape):
        m = dict(zip(cs_new, pt))
        c = a.cells[cell_index(a.shape, [m[i] for i in cs_old])]
        if symold != symnew:
            c = wrap(c, "tr", tuple(symnew.index(i) for i in symold))
        cells.append(c)
    return Arr(shape, cells)


def _tr(a, params, scalar):
    if a.op == "tr" and a.args[1] == params[0] == (1, 0):
        return a.args[0]
    if a.op == "bc" and params[0] == (1, 0) and len(a.args[1]) == 1 and a.args[1][0] in (0, 1):
        return atom("bc", a.args[0], (1 - a.args[1][0],), scalar=scalar)
    return atom("tr", a, *params, scalar=scalar)


REBUILD2["tr"] = _tr


def _mir(a, params, scalar):
    return atom("mir", a, scalar=scalar)


def mirror(v):
    if isinstance(v, Arr):
        return Arr(v.shape, [wrap(c, "mir") for c in v.cells])
    return v


MIRROR_EVEN = set()    # atoms invariant under the reflection


def _mir_rb(a, params, scalar):
    if a in MIRROR_EVEN:
        return a
    return atom("mir", a, scalar=scalar)


REBUILD2["mir"] = _mir_rb


def reduce_axis(a, axis, op):
    """op: 'sum' | 'max' | 'min' ..."""
    if a.shape is None:
        return unk("np." + op, a)
    n = len(a.shape)
    if axis is None:
        out = None
        for c in a.cells:
            v = red_all(c, op, sym_axes(a.shape), a.shape)
            out = v if out is None else red2(op, out, v)
        if out is None:
            out = ZERO
        return out
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % n for x in axis], reverse=True):
            r = reduce_axis(r if isinstance(r, Arr) else Arr((), (r,)), ax, op)
        return r
    axis = axis % n if n else axis
    d = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    if isinstance(d, int):
        parts = [getitem(a, (SliceV(),) * axis + (k,)) for k in range(d)]
        out = None
        for p in parts:
            p = as_arr(p)
            out = p if out is None else binop(lambda x, y: red2(op, x, y), out, p)
        if out is None:
            return mk(shape, (ZERO,) * ncells(shape))
        return mk(shape, out.cells) if out.shape == shape else out
    symleft = sum(1 for x in shape if not isinstance(x, int))
    if symleft == 0:
        return mk(shape, [red_all(c, op, sym_axes(a.shape), a.shape) for c in a.cells])
    pos = len(a.shape) - 1 - axis
    return mk(shape, [P(atom("red", op, c, pos)) for c in a.cells])


def red_all(c, op, axes, shape):
    if op == "sum":
        n = ONE
        for d in shape:
            if not isinstance(d, int):
                n = n * P(d)
        r = ZERO
        for m, k in c.t.items():
            s, v = split(m)
            if v:
                r = r + Poly({s: k}) * P(atom("nsum", Poly({v: Fraction(1)}), None, scalar=True))
            else:
                r = r + Poly({s: k}) * n
        return r
    if c.scalar():
        return c
    return P(atom("nred", op, c, scalar=True))


def red2(op, x, y):
    if op == "sum":
        r = ieee("add", x, y)
        return x + y if r is None else r
    if op in ("max", "min"):
        return ew(op, x, y)
    if op == "prod":
        r = ieee("mul", x, y)
        return x * y if r is None else r
    if op == "any":
        return x + y - x * y
    if op == "all":
        return x * y
    return unk_poly(op, x, y)


# ---------------------------------------------------------------- concatenation
def concat(arrs, axis):
    if any(a.shape is None for a in arrs):
        return unk("concatenate", *arrs)
    n = len(arrs[0].shape)
    if any(len(a.shape) != n for a in arrs):
        raise ShapeError("concatenate: different ranks")
    if n == 0:
        raise ShapeError("concatenate: zero-dimensional arrays")
    axis = axis % n
    arrs = [a for a in arrs if a.shape[axis] != 0] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0]
    for i in range(n):
        if i != axis:
            for a in arrs[1:]:
                x, y = a.shape[i], arrs[0].shape[i]
                if x != y and (isinstance(x, int) or isinstance(y, int) or (P(x) - P(y)).const() is not None):
                    raise ShapeError("concatenate %r %r" % (arrs[0].shape, a.shape))
    ds = [a.shape[axis] for a in arrs]
    if all(isinstance(d, int) for d in ds):
        shape = arrs[0].shape[:axis] + (sum(ds),) + arrs[0].shape[axis + 1:]
        offs = []
        for k, d in enumerate(ds):
            offs.extend((k, j) for j in range(d))
        cax = sum(1 for d in arrs[0].shape[:axis] if isinstance(d, int))
        cells = []
        for pt in cell_points(shape):
            k, j = offs[pt[cax]]
            q = list(pt)
            q[cax] = j
            cells.append(arrs[k].cells[cell_index(arrs[k].shape, q)])
        return Arr(shape, cells)
    tot = ZERO
    for d in ds:
        tot = tot + P(d)
    shape = arrs[0].shape[:axis] + (dim(tot),) + arrs[0].shape[axis + 1:]
    if ncells(shape) == 1 and all(len(a.cells) == 1 for a in arrs):
        back = sum(1 for d in shape[axis + 1:] if not isinstance(d, int))      # symbolic axes that follow: concrete ones come and go
        return Arr(shape, [P(atom("cat", back, tuple((P(a.cells[0]), P(a.shape[axis])) for a in arrs)))])
    others = [d for i, d in enumerate(shape) if i != axis]
    nc = ncells(others)
    cells = []
    for i in range(nc):
        parts = []
        for a in arrs:
            k = len(a.cells) // nc
            cc = a.cells[i * k:(i + 1) * k] if axis == n - 1 else a.cells[i::nc]
            parts.append((tuple(P(x) for x in cc), P(a.shape[axis])))
        cells.append(P(atom("cat", axis, tuple(parts))))
    return Arr(shape, cells)
