"""Algebraic normal forms: the value domain of the value-numbering analysis.

Every abstract numeric value is a polynomial with rational coefficients over
interned atoms with rational exponents.  Array values are polynomials read
element by element.  Two definitions get the same value number exactly when
their normal forms coincide (after clearing denominators).
"""
from fractions import Fraction

_INTERN = {}
_NEXT = [0]


class Atom:
    __slots__ = ("op", "args", "scalar", "id", "_deps", "_unk", "_bvs")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, other):
        return self.id < other.id


def atom(op, *args, scalar=False):
    key = (op, args, scalar)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.scalar = op, args, scalar
        a.id = _NEXT[0]
        _NEXT[0] += 1
        a._deps = a._unk = a._bvs = None
        _INTERN[key] = a
    return a


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.t == other.t

    def __repr__(self):
        return show(self)

    # -- queries
    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def scalar(self):
        return all(a.scalar for m in self.t for a, _ in m)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            c2 = r.get(m, 0) + c
            if c2:
                r[m] = c2
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None:
            if c == 0:
                return ZERO
            if c == 1:
                return self
            return Poly({m: k * c for m, k in self.t.items()})
        c = self.const()
        if c is not None:
            return o * self
        r = {}
        expand = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, again = mono_mul(m1, m2)
                if again:
                    expand.append((m, c1 * c2))
                    continue
                k = r.get(m, 0) + c1 * c2
                if k:
                    r[m] = k
                else:
                    r.pop(m, None)
        p = Poly(r)
        for m, c in expand:
            p = p + expand_mono(m) * c
        return p

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * ppow(P(o), Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) * ppow(self, Fraction(-1))

    def __pow__(self, e):
        return ppow(self, Fraction(e))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, Fraction(1)),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        f = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None
        if f is None:
            return P(atom("const", repr(x), scalar=True))
        return P(f)
    raise TypeError(repr(x))


def mono_mul(m1, m2):
    """-> (mono, needs_expansion)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    again = False
    out = []
    for a in sorted(d, key=lambda x: x.id):
        e = d[a]
        if e == 0:
            continue
        if a.op == "ind":
            e = Fraction(1)
        elif a.op == "S" and e > 0 and e.denominator == 1:
            again = True
        out.append((a, e))
    return tuple(out), again


def expand_mono(m):
    p = ONE
    for a, e in m:
        if a.op == "S" and e > 0 and e.denominator == 1:
            for _ in range(int(e)):
                p = p * a.args[0]
        else:
            p = p * Poly({((a, e),): Fraction(1)})
    return p


def _lead(p):
    """deterministic leading monomial (by smallest ids)"""
    return min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))


def primitive(p):
    """p = coef * mono * prim ; prim has leading coefficient +1 and no monomial content."""
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if a in d else None for a, e in common.items() if a in d}
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if a.op != "ind"}
    cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
    if cm:
        inv = tuple((a, -e) for a, e in cm)
        p = Poly({mono_mul(m, inv)[0]: c for m, c in p.t.items()})
    lead = p.t[_lead(p)]
    p = Poly({m: c / lead for m, c in p.t.items()})
    return lead, cm, p


def ppow(p, e):
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        if c == 0:
            return ZERO if e > 0 else P(atom("pow0", e, scalar=True))
        return num_pow(c, e)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        inds = [a for a, _ in m if a.op == "ind"]
        if inds and e < 0:
            return Poly({((atom("S", p, scalar=p.scalar()), e),): Fraction(1)})
        r = num_pow(c, e)
        out = ONE
        for a, x in m:
            xe = x * e
            if a.op == "ind":
                xe = Fraction(1)
            if (a.op == "S" and xe > 0 and xe.denominator == 1) or even_abs(a, xe):
                out = out * expand_mono(((a, xe),))
            elif a.op == "bool" and e > 0:
                out = out * Poly({((a, Fraction(1)),): Fraction(1)})
            else:
                out = out * Poly({((a, xe),): Fraction(1)})
        return out * r
    if e > 0 and e.denominator == 1 and e <= 6:
        r = ONE
        for _ in range(int(e)):
            r = r * p
        return r
    lead, cm, prim = primitive(p)
    if e.denominator % 2 == 0 and lead < 0:
        prim = -prim
        lead = -lead
    s = atom("S", prim, scalar=prim.scalar())
    r = Poly({((s, e),): Fraction(1)}) * num_pow(lead, e)
    if cm:
        r = r * ppow(Poly({cm: Fraction(1)}), e)
    return r


def num_pow(c, e):
    if e.denominator == 1:
        return P(c ** int(e))
    if c == 1:
        return ONE
    # exact roots
    if c > 0:
        num = _iroot(c.numerator, e.denominator)
        den = _iroot(c.denominator, e.denominator)
        if num is not None and den is not None:
            return P(Fraction(num, den) ** int(e.numerator))
        # primes as atoms so that 2**.5 * 2**.5 = 2
        r = ONE
        for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in _factor(base):
                x = Fraction(k * sgn) * e
                whole = x.numerator // x.denominator
                frac = x - whole
                r = r * P(Fraction(q) ** whole)
                if frac:
                    r = r * Poly({((atom("prime", q, scalar=True), frac),): Fraction(1)})
        return r
    return P(atom("npow", c, e, scalar=True))


def _factor(n):
    out, q = [], 2
    while q * q <= n and q < 10000:
        k = 0
        while n % q == 0:
            n //= q
            k += 1
        if k:
            out.append((q, k))
        q += 1
    if n > 1:
        out.append((n, 1))
    return out


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 300 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


_orig_mono_mul = mono_mul


def mono_mul(m1, m2):  # noqa: F811  (prime atoms: integer exponents become numbers)
    m, again = _orig_mono_mul(m1, m2)
    if not again:
        for a, e in m:
            if (a.op == "prime" and (e >= 1 or e < 0)) or even_abs(a, e):
                again = True
    return m, again


def even_abs(a, e):
    """even powers of absolute values of real numbers are plain powers"""
    return a.op == "ew" and a.args[0] == "abs" and e.denominator == 1 and e.numerator % 2 == 0


_orig_expand = expand_mono


def expand_mono(m):  # noqa: F811
    rest, p = [], ONE
    for a, e in m:
        if a.op == "prime" and (e >= 1 or e < 0):
            whole = e.numerator // e.denominator
            frac = e - whole
            p = p * P(Fraction(a.args[0]) ** whole)
            if frac:
                rest.append((a, frac))
        elif even_abs(a, e):
            p = p * ppow(a.args[1][0], e)
        else:
            rest.append((a, e))
    rest = tuple(rest)
    if any(a.op == "S" and e > 0 and e.denominator == 1 for a, e in rest):
        return p * _orig_expand(rest)
    return p * Poly({rest: Fraction(1)})


# ---------------------------------------------------------------- traversal
def sub_values(x):
    """polys / atoms / lins reachable one level below x"""
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                yield a
    elif isinstance(x, Atom):
        for y in x.args:
            yield from _sub_arg(y)
    elif isinstance(x, Lin):
        for w, c in x.t.items():
            yield c
            for f in w:
                yield f[1]
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from _sub_arg(y)


def _sub_arg(y):
    if isinstance(y, (Poly, Atom, Lin)):
        yield y
    elif isinstance(y, (tuple, frozenset)):
        for z in y:
            yield from _sub_arg(z)


def deps(x):
    """base input names a value depends on"""
    if isinstance(x, Atom):
        if x._deps is None:
            if x.op == "in":
                x._deps = frozenset([x.args[0]])
            else:
                s = set()
                for y in sub_values(x):
                    s |= deps(y)
                x._deps = frozenset(s)
        return x._deps
    s = set()
    for y in sub_values(x):
        s |= deps(y)
    return frozenset(s)


def unknowns(x):
    if isinstance(x, Atom):
        if x._unk is None:
            s = set()
            if x.op == "unk":
                s.add(x.args[0])
            for y in sub_values(x):
                s |= unknowns(y)
            x._unk = frozenset(s)
        return x._unk
    s = set()
    for y in sub_values(x):
        s |= unknowns(y)
    return frozenset(s)


def bvs(x):
    if isinstance(x, Atom):
        if x._bvs is None:
            if x.op == "bv":
                x._bvs = frozenset([x])
            else:
                s = set()
                for y in sub_values(x):
                    s |= bvs(y)
                x._bvs = frozenset(s)
        return x._bvs
    s = set()
    for y in sub_values(x):
        s |= bvs(y)
    return frozenset(s)


def all_atoms(x, acc=None):
    acc = set() if acc is None else acc
    for y in sub_values(x):
        if isinstance(y, Atom):
            if y in acc:
                continue
            acc.add(y)
        all_atoms(y, acc)
    return acc


# ---------------------------------------------------------------- rebuilding
REBUILD = {}


def rebuild(op):
    def deco(f):
        REBUILD[op] = f
        return f
    return deco


def subst(x, mp, memo=None):
    """replace atoms by polys, re-normalising on the way up"""
    memo = {} if memo is None else memo
    if isinstance(x, Atom):
        return subst_atom(x, mp, memo)
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t.items():
            p = P(c)
            for a, e in m:
                p = p * ppow(P(subst_atom(a, mp, memo)), e)
            r = r + p
        return r
    if isinstance(x, Lin):
        r = Lin({})
        for w, c in x.t.items():
            l = Lin({(): subst(c, mp, memo)})
            for kind, f in w:
                if kind == "D":
                    l = l @ Lin.diag(subst(P_mono(f), mp, memo))
                else:
                    g = subst_atom(f, mp, memo)
                    l = l @ (g if isinstance(g, Lin) else Lin.op(as_atom(g)))
            r = r + l
        return r
    if isinstance(x, tuple):
        return tuple(subst(y, mp, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst(y, mp, memo) for y in x)
    return x


def as_atom(p):
    if isinstance(p, Atom):
        return p
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return atom("val", p, scalar=p.scalar())


def P_mono(f):
    return Poly({f: Fraction(1)}) if isinstance(f, tuple) else P(f)


def subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    if a in memo:
        return memo[a]
    if not a.args or a.op in ("in", "bv", "const", "prime", "pi"):
        memo[a] = a
        return a
    new = subst(a.args, mp, memo)
    if new == a.args:
        r = a
    elif a.op in REBUILD:
        r = REBUILD[a.op](a, new)
    else:
        r = atom(a.op, *new, scalar=a.scalar)
    memo[a] = r
    return r


@rebuild("S")
def _rb_S(a, args):
    return args[0]


# ---------------------------------------------------------------- booleans
def ind(kind, *args):
    sc = all(x.scalar() if isinstance(x, Poly) else True for x in args)
    return P(atom("ind", kind, *args, scalar=sc))


def b_not(p):
    return ONE - p


def b_and(a, b):
    return a * b


def b_or(a, b):
    return a + b - a * b


def special(p):
    """"nan", "inf" or "-inf" if p is that floating point constant, else None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][0].op == "const" and m[0][1] == 1:
            k = m[0][0].args[0]
            if k == "nan":
                return "nan"
            if k == "inf":
                return "inf" if c > 0 else "-inf"
    return None


NAN = P(atom("const", "nan", scalar=True))
INF = P(atom("const", "inf", scalar=True))
_SPECIAL = {"nan": NAN, "inf": INF, "-inf": -INF}


def ieee(op, a, b):
    """result of a op b if a floating point constant that is no number decides it, else None"""
    x, y = special(a), special(b)
    if x is None and y is None:
        if op != "div" or b.t or a.const() is None:
            return None
        c = a.const()
        return NAN if c == 0 else INF if c > 0 else -INF
    if x == "nan" or y == "nan":
        return NAN
    u = float(x) if x else a.const()
    v = float(y) if y else b.const()
    if u is None or v is None:
        return None
    u, v = float(u), float(v)
    if op == "div":
        r = u / v if v else (u if x else 0)
    elif op in ("add", "sub", "mul"):
        r = u + v if op == "add" else u - v if op == "sub" else u * v
    else:
        return None
    if r != r:
        return NAN
    return _SPECIAL.get(str(r)) if abs(r) == float("inf") else P(r)


def _ordered(a, b):
    """-> (is there a special constant, None if unordered or (a, b) as floats, "?" if the other one is unknown)"""
    x, y = special(a), special(b)
    if x is None and y is None:
        return False, None
    if "nan" in (x, y):
        return True, None
    u = float(x) if x else a.const()
    v = float(y) if y else b.const()
    if u is None or v is None:
        return False, None
    return True, (u, v)


def cmp_lt(a, b):
    """a < b"""
    sp, o = _ordered(a, b)
    if sp:
        return ONE if o and o[0] < o[1] else ZERO
    d = a - b
    c = d.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    s = sign_hint(d)
    if s is not None:
        return ONE if s < 0 else ZERO
    lead = abs(d.t[_lead(d)])
    d = Poly({m: c / lead for m, c in d.t.items()})
    return ind("lt0", d)


def cmp_le(a, b):
    sp, o = _ordered(a, b)
    if sp:
        return ONE if o and o[0] <= o[1] else ZERO
    return b_not(cmp_lt(b, a))


def cmp_eq(a, b):
    sp, o = _ordered(a, b)
    if sp:
        return ONE if o and o[0] == o[1] else ZERO
    d = a - b
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if equal(a, b):
        return ONE
    s = sign_hint(d)
    if s is not None and s != 0:
        return ZERO
    lead = d.t[_lead(d)]
    d = Poly({m: c / lead for m, c in d.t.items()})
    return ind("eq0", d)


NONNEG = set()   # atoms known to be >= 0
POS = set()      # atoms known to be > 0


def sign_hint(p):
    """+1 / -1 if the sign is evident from known-sign atoms, else None"""
    signs = set()
    strict = False
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        st = True
        for a, e in m:
            if a in POS or a.op in ("prime", "pi"):
                continue
            if a in NONNEG or (e.denominator == 1 and int(e) % 2 == 0):
                st = False
                continue
            return None
        signs.add(s)
        strict = strict or st
    if len(signs) == 1 and strict:
        return signs.pop()
    return None


@rebuild("ind")
def _rb_ind(a, args):
    if args[0] == "lt0":
        return cmp_lt(P(args[1]), ZERO)
    if args[0] == "eq0":
        return cmp_eq(P(args[1]), ZERO)
    return ind(*args)


def ite(c, a, b):
    if a == b:
        return a
    return b + c * (a - b)


# ---------------------------------------------------------------- equality
def equal(a, b):
    if a == b:
        return True
    return is_zero(a - b)


def is_zero(d, depth=0):
    if not d.t:
        return True
    if depth > 12:
        return False
    # clear denominators
    worst = {}
    for m in d.t:
        for a, e in m:
            if a.op == "S" and e < 0:
                worst[a] = min(worst.get(a, 0), e)
    if worst:
        a = min(worst, key=lambda x: x.id)
        e = worst[a]
        k = Fraction(-(e.numerator // e.denominator))  # ceil of -e
        # multiply by S^k (k integer >= -e)
        f = Poly({((a, k),): Fraction(1)})
        r = ZERO
        for m, c in d.t.items():
            mm, again = mono_mul(m, ((a, k),))
            r = r + (expand_mono(mm) if again else Poly({mm: Fraction(1)})) * c
        return is_zero(r, depth + 1)
    if depth < 100:
        n = trig_norm(d)
        if n != d:
            return is_zero(n, depth + 1)
    return False


TRIG = {"sin": ("cos", 1, -1), "sinh": ("cosh", -1, 1)}     # f^2 = k0 + k1 g^2


def trig_norm(p, memo=None):
    """rewrite sin^2 -> 1-cos^2 and sinh^2 -> cosh^2-1 everywhere"""
    memo = {} if memo is None else memo
    mp = {}
    r = ZERO
    changed = False
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            if a.op == "ew" and a.args[0] in TRIG and abs(e) >= 2:
                g, k0, k1 = TRIG[a.args[0]]
                h = e.numerator // e.denominator // 2 if e > 0 else -((-e).numerator // (-e).denominator // 2)
                base = P(k0) + P(atom("ew", g, a.args[1], scalar=a.scalar)) ** 2 * k1
                q = q * ppow(base, Fraction(h)) * Poly({((a, e - 2 * h),) if e != 2 * h else (): Fraction(1)})
                changed = True
                continue
            b = memo.get(a)
            if b is None:
                b = a
                if any(x.op == "ew" and x.args[0] in TRIG for x in all_atoms(a)):
                    new = tuple(_tn_arg(y, memo) for y in a.args)
                    if new != a.args:
                        b = REBUILD[a.op](a, new) if a.op in REBUILD else P(atom(a.op, *new, scalar=a.scalar))
                memo[a] = b
            if b is not a:
                changed = True
                q = q * ppow(P(b) if not isinstance(b, Lin) else P(a), e)
            else:
                q = q * Poly({((a, e),): Fraction(1)})
        r = r + q
    return r if changed else p


def _tn_arg(y, memo):
    if isinstance(y, Poly):
        return trig_norm(y, memo)
    if isinstance(y, Atom):
        q = trig_norm(Poly({((y, Fraction(1)),): Fraction(1)}), memo)
        return y if q == Poly({((y, Fraction(1)),): Fraction(1)}) else (as_atom(q) if isinstance(q, Poly) and len(q.t) == 1 else y)
    if isinstance(y, tuple):
        return tuple(_tn_arg(z, memo) for z in y)
    return y


# ---------------------------------------------------------------- linear maps
def split(m):
    """monomial -> (scalar part mono, array part mono)"""
    return (tuple(x for x in m if x[0].scalar), tuple(x for x in m if not x[0].scalar))


def linmap(p, f):
    """apply a linear map: f(array mono) -> Poly, scalars pulled out"""
    r = ZERO
    for m, c in p.t.items():
        s, v = split(m)
        r = r + Poly({s: c}) * f(v)
    return r


class Lin:
    """Linear operators: sums of words over diagonal factors ('D', mono) and
    primitive operators ('O', atom), with scalar polynomial coefficients."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t

    def __repr__(self):
        return show_lin(self)

    @staticmethod
    def op(a):
        return Lin({(("O", a),): ONE})

    @staticmethod
    def diag(p):
        t = {}
        for m, c in p.t.items():
            s, v = split(m)
            w = (("D", v),) if v else ()
            t[w] = t.get(w, ZERO) + Poly({s: c})
        return Lin({w: c for w, c in t.items() if not c.is_zero()})

    @staticmethod
    def ident():
        return Lin({(): ONE})

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            x = t.get(w, ZERO) + c
            if x.is_zero():
                t.pop(w, None)
            else:
                t[w] = x
        return Lin(t)

    def __neg__(self):
        return Lin({w: -c for w, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, p):
        t = {w: c * p for w, c in self.t.items()}
        return Lin({w: c for w, c in t.items() if not c.is_zero()})

    def __matmul__(self, o):
        t = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                w, extra = word_cat(w1, w2)
                x = t.get(w, ZERO) + c1 * c2 * extra
                if x.is_zero():
                    t.pop(w, None)
                else:
                    t[w] = x
        return Lin(t)

    def apply(self, p):
        r = ZERO
        for w, c in self.t.items():
            v = p
            for kind, f in reversed(w):
                if kind == "D":
                    v = v * Poly({f: Fraction(1)})
                else:
                    v = linmap(v, lambda mono, f=f: P(atom("@", f, Poly({mono: Fraction(1)}))))
            r = r + c * v
        return r

    def T(self):
        t = {}
        for w, c in self.t.items():
            ww = tuple((k, f) if k == "D" else (k, transpose(f)) for k, f in reversed(w))
            t[ww] = t.get(ww, ZERO) + c
        return Lin(t)

    def as_diag(self):
        """Poly if purely diagonal else None"""
        r = ZERO
        for w, c in self.t.items():
            if len(w) > 1 or (w and w[0][0] != "D"):
                return None
            r = r + c * (Poly({w[0][1]: Fraction(1)}) if w else ONE)
        return r

    def inv(self):
        d = self.as_diag()
        if d is not None:
            return Lin.diag(ppow(d, Fraction(-1)))
        if len(self.t) == 1:
            (w, c), = self.t.items()
            out = Lin({(): ppow(c, Fraction(-1))})
            for kind, f in reversed(w):
                if kind == "D":
                    out = out @ Lin.diag(ppow(Poly({f: Fraction(1)}), Fraction(-1)))
                else:
                    out = out @ Lin.op(atom("inv", Lin.op(f)))
            return out
        return Lin.op(atom("inv", self))


def transpose(f):
    if f.op == "T":
        return f.args[0]
    if f.op in ("eye", "eyesym"):
        return f
    if f.op == "eyek":
        return atom("eyek", f.args[0], -f.args[1])
    return atom("T", f)


def word_cat(a, b):
    """-> (word, scalar factor)"""
    if a and b and a[-1][0] == "D" and b[0][0] == "D":
        m, again = mono_mul(a[-1][1], b[0][1])
        if again:
            # keep unexpanded: wrap as single val
            p = expand_mono(m)
            if len(p.t) == 1:
                (m, c), = p.t.items()
            else:
                v = as_atom(p)
                m, c = ((v, Fraction(1)),), Fraction(1)
            mid = (("D", m),) if m else ()
            return a[:-1] + mid + b[1:], P(c)
        mid = (("D", m),) if m else ()
        r = a[:-1] + mid + b[1:]
        return r, ONE
    if a and b and a[-1][0] == "O" and b[0][0] == "O":
        if a[-1][1].op == "eye" :
            return word_cat(a[:-1], b)
        if b[0][1].op == "eye":
            return word_cat(a, b[1:])
    return a + b, ONE


# ---------------------------------------------------------------- printing
def show_lin(l):
    if not l.t:
        return "0"
    out = []
    for w, c in l.t.items():
        ws = "·".join(("diag(%s)" % show(Poly({f: Fraction(1)}))) if k == "D" else show_atom(f) for k, f in w) or "I"
        cs = show(c)
        out.append(ws if cs == "1" else "(%s)%s" % (cs, ws))
    return " + ".join(out)


def show(p, limit=400):
    if isinstance(p, Lin):
        return show_lin(p)
    if not isinstance(p, Poly):
        return str(p)
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])):
        fs = []
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        body = "*".join(fs)
        if not body:
            parts.append(str(c))
        elif c == 1:
            parts.append(body)
        elif c == -1:
            parts.append("-" + body)
        else:
            parts.append("%s*%s" % (c, body))
    s = " + ".join(parts).replace("+ -", "- ")
    return s


def show_atom(a):
    op, args = a.op, a.args
    if op == "in":
        return args[0] + ("" if len(args) == 1 or args[1] is None else "#%s" % (args[1],))
    if op == "S":
        return "(%s)" % show(args[0])
    if op == "bv":
        return args[0]
    if op == "prime":
        return str(args[0])
    if op == "pi":
        return "pi"
    if op == "@":
        return "%s@(%s)" % (show_atom(args[0]), show(args[1]))
    if op == "int":
        return "∫(%s)" % show(args[0])
    if op == "mir":
        return "mirror(%s)" % show_atom(args[0])
    if op == "ind":
        return "[%s]" % " ".join(_sh(x) for x in args)
    if op == "sum":
        return "Σ_{%s<%s}(%s)" % (_sh(args[0]), _sh(args[1]), _sh(args[2]))
    return "%s(%s)" % (op, ", ".join(_sh(x) for x in args))


def _sh(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, Lin):
        return show_lin(x)
    if isinstance(x, (tuple, frozenset)):
        return "(" + ", ".join(_sh(y) for y in x) + ")"
    return str(x)
