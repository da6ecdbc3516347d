"""Contract harness: interprets the clauses of a contract file next to the analysed tree and compares values."""
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
from fractions import Fraction

from .alg import (Poly, P, ZERO, ONE, Atom, atom, Lin, equal, show, show_lin, unknowns, deps, all_atoms, NONNEG, POS, subst,
                  cmp_lt, cmp_eq, ite, is_zero, _lead as lead_of)
from .values import *
from . import arrays as A
from .interp import Interp, Dead, AnalysisBroken, State
from .project import Project

sys.setrecursionlimit(20000)

BLUR = {"unk", "unkop", "headunk", "head", "rshpx", "msel"}


def flat_polys(I, v):
    return I.polys(v)


def blurred(I, vals):
    """names of the constructs the engine could not interpret inside the values"""
    out = set()
    for p in vals:
        if isinstance(p, (Poly, Lin, Atom)):
            for a in all_atoms(p):
                if a.op in BLUR:
                    out.add(str(a.args[0]))
    return out


def called(vals):
    out = set()
    for p in vals:
        for a in all_atoms(p):
            if a.op == "call":
                out.add(str(a.args[0]))
    return out


def shape_errors(vals):
    for p in vals:
        for a in all_atoms(p):
            if a.op == "shape_error":
                return True
    return False


class Ctx:
    """results of one check run"""

    def __init__(self, prop, root):
        self.prop = prop
        self.root = root
        self.results = []           # dicts
        self.funcs = set()
        self.stmts = set()
        self.calls = 0
        self.values = 0
        self.notes = []
        self.clauses = 0


def show_val(I, v, limit=700):
    d = I.deref(v)
    if isinstance(d, Arr):
        s = ", ".join(show(c) if isinstance(c, Poly) else str(c) for c in d.cells[:6])
        s = "array%s[%s%s]" % ("" if d.shape is None else "(" + ",".join(
            str(x) if isinstance(x, int) else show(x) for x in d.shape) + ")", s, ", ..." if len(d.cells) > 6 else "")
    elif isinstance(d, Poly):
        s = show(d)
    elif isinstance(d, LinV):
        s = show_lin(d.lin)
    elif isinstance(d, BlockV):
        s = "blocks " + "; ".join(" | ".join(show_val(I, c, 120) for c in r) for r in d.rows)
    elif isinstance(d, tuple):
        s = "(" + ", ".join(show_val(I, x, 200) for x in d) + ")"
    elif isinstance(d, ListRef):
        s = "[" + ", ".join(show_val(I, x, 200) for x in I.st.heap[d.id][1]) + "]"
    elif isinstance(d, DictRef):
        s = "{" + ", ".join("%s: %s" % (k, show_val(I, x, 100)) for k, x in I.st.heap[d.id][1]) + "}"
    elif isinstance(d, Choice):
        s = "(%s ? %s : %s)" % (show(d.cond), show_val(I, d.a, 200), show_val(I, d.b, 200))
    elif isinstance(d, ObjRef):
        c = I.st.heap[d.id]
        s = "<%s object>" % (c[1].name if isinstance(c[1], ClassV) else "plain")
    else:
        s = str(d) if isinstance(d, (str, bool, type(None))) else type(d).__name__ + ":" + str(getattr(d, "name", ""))
    return s if len(s) <= limit else s[:limit] + "..."


def strip_clean(p):
    """drop NaN-clean wrappers (compared separately where they matter)"""
    if not isinstance(p, (Poly, Lin)):
        return p
    for _ in range(6):
        mp = {}
        for a in all_atoms(p):
            if a.op == "clean":
                mp[a] = a.args[0]
        if not mp:
            return p
        p = subst(p, mp)
    return p


def choice_norm(p):
    """maxima and minima as guarded choices; every order guard in one direction (d>0 is neither d<0 nor d=0)"""
    for _ in range(8):
        mp = {}
        for a in all_atoms(p):
            if a.op == "ew" and a.args[0] in ("max", "min") and len(a.args[1]) > 1:
                x, r = a.args[1][0], a.args[1][1:]
                y = r[0] if len(r) == 1 else A.ew(a.args[0], *r)
                mp[a] = ite(cmp_lt(x, y) if a.args[0] == "min" else cmp_lt(y, x), x, y)
                break
        if not mp:
            break
        p = subst(p, mp)
    mp = {}
    for a in all_atoms(p):
        if a.op == "ind" and a.args[0] == "lt0":
            d = a.args[1]
            if d.t[lead_of(d)] < 0:
                mp[a] = ONE - cmp_lt(ZERO - d, ZERO) - cmp_eq(d, ZERO)
    return subst(p, mp) if mp else p


def choice_zero(p):
    p = choice_norm(p)
    if is_zero(p):
        return True
    for _ in range(6):
        eqs = {a for m in p.t for a, e in m if a.op == "ind" and a.args[0] == "eq0"}
        if not eqs:
            break
        e = min(eqs, key=lambda x: x.id)
        d = e.args[1]
        with_e = Poly({tuple((b, k) for b, k in m if b is not e): c for m, c in p.t.items() if any(b is e for b, _ in m)})
        without = Poly({m: c for m, c in p.t.items() if not any(b is e for b, _ in m)})
        # where d = 0, one linear variable of d can be eliminated
        for m, c in d.t.items():
            if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] in all_atoms(P(b)) for n in d.t for b, _ in n if n != m):
                x = m[0][0]
                with_e = subst(with_e, {x: P(x) - d / P(c)})
                break
        else:
            return False
        if not is_zero(with_e):
            return False
        p = without
    return is_zero(p)


def same_poly(a, b, loose):
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a == b or equal(a, b):
            return True
        if loose:
            a, b = strip_clean(a), strip_clean(b)
            if a == b or equal(a, b):
                return True
        d = a - b
        if any(x.op == "ind" or x.op == "ew" and x.args[0] in ("max", "min") for x in all_atoms(d)):
            return choice_zero(d)
        return False
    return a == b


def compare_values(I, a, b, loose=True, why=None):
    """True / False; 'why' collects a reason"""
    why = why if why is not None else []
    da, db = I.deref(a), I.deref(b)
    if isinstance(da, Choice) or isinstance(db, Choice):
        na, nb = I.num(da), I.num(db)
        if isinstance(na, Arr) and isinstance(nb, Arr) and not (blurred(I, I.polys(na)) and not isinstance(da, Arr)):
            da, db = na, nb
        elif isinstance(da, Choice) and isinstance(db, Choice) and equal(P(da.cond), P(db.cond)):
            return compare_values(I, da.a, db.a, loose, why) and compare_values(I, da.b, db.b, loose, why)
        else:
            why.append("conditional value")
            return da == db
    if da is None or db is None or isinstance(da, str) or isinstance(db, str):
        return (da is None and db is None) or (isinstance(da, str) and isinstance(db, str) and da == db)
    if isinstance(da, (tuple, ListRef, IterV)) and isinstance(db, (tuple, ListRef, IterV)):
        items = lambda x: I.st.heap[x.id][1] if isinstance(x, ListRef) else (x.items if isinstance(x, IterV) else x)
        xa, xb = items(da), items(db)
        if len(xa) != len(xb):
            why.append("lengths %d and %d" % (len(xa), len(xb)))
            return False
        return all(compare_values(I, x, y, loose, why) for x, y in zip(xa, xb))
    if isinstance(da, DictRef) and isinstance(db, DictRef):
        xa, xb = dict(I.st.heap[da.id][1]), dict(I.st.heap[db.id][1])
        return set(xa) == set(xb) and all(compare_values(I, xa[k], xb[k], loose, why) for k in xa)
    if isinstance(da, ObjRef) or isinstance(db, ObjRef):
        return da == db
    if isinstance(da, (FuncV, BoundM, ClassV, ExtV, ModV, StrV)):
        return da == db or (isinstance(da, BoundM) and isinstance(db, BoundM) and da.obj == db.obj and da.func is db.func)
    na, nb = I.num(a), I.num(b)
    if isinstance(na, BlockV) and isinstance(nb, BlockV):
        if len(na.rows) != len(nb.rows) or any(len(x) != len(y) for x, y in zip(na.rows, nb.rows)):
            why.append("block layout")
            return False
        return all(compare_values(I, p, q, loose, why) for x, y in zip(na.rows, nb.rows) for p, q in zip(x, y))
    if isinstance(na, LinV) or isinstance(nb, LinV):
        if not isinstance(na, LinV):
            na = I.models.as_lin(I, na) or na
        if not isinstance(nb, LinV):
            nb = I.models.as_lin(I, nb) or nb
        if isinstance(na, LinV) and isinstance(nb, LinV):
            if lin_same(na.lin, nb.lin):
                return True
            return bool(loose) and lin_same(strip_clean(na.lin), strip_clean(nb.lin))
        return False
    if isinstance(na, Arr) and isinstance(nb, Arr):
        if na.shape is None or nb.shape is None:
            if len(na.cells) == len(nb.cells):
                return all(same_poly(x, y, loose) for x, y in zip(na.cells, nb.cells))
            return False
        if na.shape != nb.shape:
            sq = lambda s: tuple(d for d in s if d != 1)
            if loose and len(sq(na.shape)) == len(sq(nb.shape)) and all(dims_same(x, y) for x, y in zip(sq(na.shape), sq(nb.shape))) \
                    and len(na.cells) == len(nb.cells):
                pass
            elif len(na.shape) == len(nb.shape) and all(dims_same(x, y) for x, y in zip(na.shape, nb.shape)) and len(na.cells) == len(nb.cells):
                pass
            else:
                why.append("shape %s instead of %s" % (shp(na.shape), shp(nb.shape)))
                return False
        for x, y in zip(na.cells, nb.cells):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if not same_poly(x, y, loose):
                    return False
            elif not compare_values(I, x, y, loose, why):
                return False
        return True
    return da == db


def first_diff(I, a, b):
    try:
        da, db = I.deref(a), I.deref(b)
        if isinstance(da, (ListRef, tuple)) and isinstance(db, (ListRef, tuple)):
            xa = I.st.heap[da.id][1] if isinstance(da, ListRef) else da
            xb = I.st.heap[db.id][1] if isinstance(db, ListRef) else db
            if len(xa) == len(xb):
                for k, (x, y) in enumerate(zip(xa, xb)):
                    if not compare_values(I, x, y):
                        p, q = first_diff(I, x, y)
                        return "item %d: %s" % (k, p), "item %d: %s" % (k, q)
        if isinstance(da, Arr) and isinstance(db, Arr) and da.shape is not None and da.shape == db.shape and len(da.cells) > 1:
            for pt, x, y in zip(A.cell_points(da.shape), da.cells, db.cells):
                if not compare_values(I, x, y):
                    tag = "element [%s]: " % ",".join(map(str, pt))
                    return tag + show_val(I, x), tag + show_val(I, y)
    except Exception:
        pass
    return show_val(I, a), show_val(I, b)


def dims_same(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return equal(P(x), P(y))


def shp(s):
    return "(" + ", ".join(str(x) if isinstance(x, int) else show(x) for x in s) + ")"


def lin_same(x, y):
    if x == y:
        return True
    d = x - y
    return all(equal(c, ZERO) for c in d.t.values()) or d.is_zero()


# ------------------------------------------------------------------------------------------------ spec builtins
def builtins_for(I, ctx, clause):
    B = {}

    def reg(f):
        B[f.__name__.rstrip("_")] = f
        return f

    def const_int(v):
        s = I.scalar(v)
        return int(s.const())

    def dims_of(args):
        out = []
        for x in args:
            d = I.deref(x)
            if isinstance(d, tuple):
                out.extend(dims_of(d))
            else:
                out.append(A.dim(P(I.scalar(d))))
        return tuple(out)

    @reg
    def num(I, args, kw):
        a = atom("in", args[0], scalar=True)
        if kw.get("nonneg") or kw.get("pos"):
            NONNEG.add(a)
        if kw.get("pos"):
            POS.add(a)
        return P(a)

    @reg
    def bool_(I, args, kw):
        from .alg import ind
        return ind("flag", P(atom("in", args[0], scalar=True)))

    @reg
    def inp(I, args, kw):
        name = args[0]
        shape = dims_of(args[1:])
        sc = all(isinstance(d, int) for d in shape)
        cells = []
        for pt in A.cell_points(shape):
            nm = name + ("[" + ",".join(map(str, pt)) + "]" if pt else "")
            a = atom("in", nm, scalar=sc)
            if kw.get("nonneg") or kw.get("pos"):
                NONNEG.add(a)
            if kw.get("pos"):
                POS.add(a)
            cells.append(P(a))
        if shape == ():
            return cells[0]
        return I.alloc_arr(Arr(shape, cells))

    @reg
    def objarr(I, args, kw):
        """object array from nested lists"""
        rows = [I.st.heap[r.id][1] for r in I.st.heap[args[0].id][1]]
        return I.alloc_arr(Arr((len(rows), len(rows[0])), [c for r in rows for c in r]))

    @reg
    def op(I, args, kw):
        """opaque linear operator of given dims"""
        d = dims_of(args[1:]) if len(args) > 1 else None
        sym = bool(kw.get("symmetric"))
        a = atom("opm", P(atom("in", args[0], scalar=True)), *(("sym",) if sym else ()))
        return LinV(Lin.op(a), True, d)

    @reg
    def fun(I, args, kw):
        """opaque function value: fun('F', shape_like, *args)"""
        name = args[0]
        like = I.num(args[1]) if args[1] is not None else None
        ps = tuple(p for v in args[2:] for p in I.polys(v))
        lits = tuple(v for v in args[2:] if isinstance(v, str))
        if like is None or not isinstance(like, Arr) or like.shape == ():
            return P(atom("fun", name, ps, lits, scalar=True))
        sc = like.shape is not None and all(isinstance(x, int) for x in like.shape)
        n = len(like.cells)
        return I.alloc_arr(Arr(like.shape, [P(atom("fun", name + ("#%d" % k if n > 1 else ""), ps, lits, scalar=sc))
                                            for k in range(n)]))

    @reg
    def pointwise(I, args, kw):
        """opaque function applied point by point: every argument broadcast together"""
        name = args[0]
        arrs = [I.num(v) for v in args[1:]]
        acc = arrs[0]
        res = None
        sh = ()
        for x in arrs:
            sh = A.broadcast_shapes(sh, x.shape)
        cols = [A.expand_to(x, sh) for x in arrs]
        sc = all(isinstance(d, int) for d in sh)
        cells = [A.ew("fn:" + name, *[c[k] for c in cols]) for k in range(len(cols[0]))]
        if sh == ():
            return cells[0]
        return I.alloc_arr(Arr(sh, cells))

    @reg
    def linear(I, args, kw):
        """opaque linear functional, scalar valued, additive over its array argument: linear('L', x)"""
        from .alg import linmap
        x = I.num(args[1])
        nm = args[0]

        def f(p):
            return linmap(p, lambda m: P(atom("lfun", nm, Poly({m: Fraction(1)}), scalar=True)))
        if x.shape == ():
            return f(x.cells[0])
        out = [f(c) for c in x.cells]
        return out[0] if len(out) == 1 else I.alloc_arr(Arr(tuple(d for d in x.shape if isinstance(d, int)), out))

    @reg
    def integral(I, args, kw):
        """quadrature functional over the symbolic axis, per column"""
        x = I.num(args[0])
        if isinstance(x, Arr) and x.shape is None:
            return I.unk("integrand", x)
        if isinstance(x, Arr):
            if x.shape == ():
                return A.integral(x.cells[0])
            out = [A.integral(c) if isinstance(c, Poly) else c for c in x.cells]
            if len(out) == 1:
                return out[0]
            return I.alloc_arr(Arr(tuple(d for d in x.shape if isinstance(d, int)), out))
        return I.unk("integrand", x)

    @reg
    def mirrored(I, args, kw):
        x = I.num(args[0])
        if isinstance(x, Arr):
            return I.alloc_arr(Arr(x.shape, [A.wrap(c, "mir") for c in x.cells]))
        return I.unk("mirror", x)

    @reg
    def snap(I, args, kw):
        """frozen copy of a value (arrays copied)"""
        return I.models.deep_copy(I, args[0])

    @reg
    def obj(I, args, kw):
        o = I.alloc_obj(None, dict(kw))
        I.partial.add(o.id)
        if args and isinstance(args[0], str):
            I.objnames[o.id] = args[0]
        return o

    @reg
    def cls(I, args, kw):
        hits = I.project.find_class(args[0])
        if not hits:
            raise AnalysisBroken("class %s not found" % args[0])
        best = hits[0]
        if len(hits) > 1 and len(args) > 1:
            best = [h for h in hits if args[1] in h][0]
        return I.mod_get(best, args[0])

    @reg
    def func(I, args, kw):
        hits = I.project.find_func(args[0])
        if not hits:
            raise AnalysisBroken("function %s not found" % args[0])
        if len(hits) > 1 and len(args) > 1:
            hits = [h for h in hits if args[1] in h] or hits
        return I.mod_get(hits[0], args[0])

    @reg
    def has_func(I, args, kw):
        return bool(I.project.find_func(args[0]))

    @reg
    def blank(I, args, kw):
        """instance of a project class, constructor not run"""
        c = cls(I, args, {}) if isinstance(args[0], str) else args[0]
        o = I.alloc_obj(c, dict(kw))
        I.partial.add(o.id)
        I.objnames[o.id] = c.name
        return o

    @reg
    def stub(I, args, kw):
        f = args[1]
        I.overrides[args[0]] = f
        return None

    @reg
    def unstub(I, args, kw):
        I.overrides.pop(args[0], None)

    @reg
    def setattrs(I, args, kw):
        for k, v in kw.items():
            I.setattr(args[0], k, v)

    @reg
    def raises(I, args, kw):
        """does calling f raise? (unknown when it depends on a condition)"""
        st = I.st.fork()
        n = len(I.events)
        try:
            I.call(args[0], list(args[1:]), dict(kw))
            may = [e for e in I.events[n:] if e[0] == "may-raise"]
            if may:
                return P(atom("unk", "may raise " + str(may[0][1]), (), scalar=True))
            return False
        except Dead as d:
            restore(I, st)
            I.last_dead = d
            return True

    @reg
    def completes(I, args, kw):
        """f(*args) does not end in an exception: completes(label, f, *args)"""
        label = args[0] if isinstance(args[0], str) else show(args[0])
        st = I.st.fork()
        n = len(I.events)
        try:
            I.call(args[1], list(args[2:]), dict(kw))
        except Dead as d:
            restore(I, st)
            ctx.results.append({"clause": clause, "label": label, "verdict": "violation", "reason": "the analysed code always raises here: %s at %s" % (d.exc, d.loc),
                                "actual": "raise " + str(d.exc), "expected": "normal completion", "at": str(d.loc)})
            return False
        may = sorted({"%s at %s" % (e[1], e[2]) for e in I.events[n:] if e[0] == "may-raise"
                      and str(e[1]).split(":")[0] in ("AttributeError", "NameError", "UnboundLocalError", "KeyError", "TypeError")})
        ctx.results.append({"clause": clause, "label": label, "verdict": "undecided" if may else "ok",
                            "reason": ", ".join(may), "actual": "may raise" if may else "completes", "expected": "normal completion"})
        return not may

    @reg
    def fits(I, args, kw):
        """the least squares problems posed so far: [start, trial point, residual, derivative, options]"""
        out = []
        for c in getattr(I, "solver_calls", []):
            opts = {k: v for k, v in c["kw"].items() if k not in ("fun", "x0", "jac", "args")}
            out.append(I.alloc_list([c["x0s"], c["trial"], c.get("resval"), c.get("jacval"), I.alloc_dict(list(opts.items()))]))
        return I.alloc_list(out)

    @reg
    def solves(I, args, kw):
        """the dense linear systems solved so far: [matrix, right hand side, solution]"""
        return I.alloc_list([I.alloc_list([I.alloc_arr(x) if isinstance(x, Arr) else I.unk("system", x) for x in t])
                             for t in getattr(I, "linear_systems", [])])

    def restore(I, st):
        """back to the state before a call; values made while loading modules stay"""
        for k, v in I.st.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        for k, v in I.st.envs.items():
            if k not in st.envs:
                st.envs[k] = v
        I.st = st

    @reg
    def outcome(I, args, kw):
        """('ok', value) or ('raise', exc) or ('maybe', value)"""
        st = I.st.fork()
        n = len(I.events)
        try:
            v = I.call(args[0], list(args[1:]), dict(kw))
            may = [e for e in I.events[n:] if e[0] == "may-raise"]
            return ("maybe" if may else "ok", v)
        except Dead as d:
            restore(I, st)
            return ("raise", d.exc.split(":")[0])

    def record(label, ok, actual, expected, why=(), node=None, loose_unknown=True):
        va, vb = I.polys(actual), I.polys(expected)
        ctx.values += len(va) + len(vb)
        # an expression compared with itself may hold what the engine does not interpret; elsewhere it leaves the check open
        own = ctx.prop == "C41"
        blur = blurred(I, va) - (blurred(I, vb) if own else set())
        calls = called(va) - (called(vb) if own else set())
        verdict = "ok"
        reason = ""
        if not ok:
            if shape_errors(va):
                verdict, reason = "violation", "operands whose shapes cannot be combined"
            elif blur or calls:
                da = set().union(*[deps(p) for p in va]) if va else set()
                db = set().union(*[deps(p) for p in vb]) if vb else set()
                lost = sorted(map(str, db - da))
                if lost and not any(a.op in ("head", "headunk", "opaque") for p in va for a in all_atoms(p)) and not (isinstance(I.deref(actual), (ObjRef, Choice))):
                    verdict, reason = "violation", "the value does not depend on " + ", ".join(lost[:6])
                else:
                    verdict, reason = "undecided", "not interpreted: " + ", ".join(sorted(blur | calls)[:4])
            else:
                verdict = "violation"
                reason = "; ".join(why)
        label = label if isinstance(label, str) else str(getattr(label, "name", label))
        r = {"clause": clause, "label": label, "verdict": verdict, "reason": reason}
        if verdict != "ok":
            r["actual"], r["expected"] = first_diff(I, actual, expected)
        ctx.results.append(r)
        return verdict == "ok"

    @reg
    def check(I, args, kw):
        label, actual, expected = args[:3]
        why = []
        strict = kw.get("strict", False)
        try:
            ok = compare_values(I, actual, expected, loose=not strict, why=why)
        except (TypeError, AttributeError) as e:
            ok = False
            why.append("incomparable values")
        where_ = kw.get("at")
        r = record(label, ok, actual, expected, why)
        if not r:
            ctx.results[-1]["at"] = where_ if isinstance(where_, str) else None
        return r

    @reg
    def check_guarded(I, args, kw):
        """check_guarded(label, actual, raw): the value must not be the raw, unguarded expression"""
        label, actual, raw = args[:3]
        bad = compare_values(I, actual, raw, loose=False)
        r = {"clause": clause, "label": label, "verdict": "violation" if bad else "ok",
             "reason": "the unguarded expression is used as it is" if bad else ""}
        if bad:
            r["actual"], r["expected"] = show_val(I, actual), "a guard"
        ctx.results.append(r)
        return not bad

    @reg
    def check_attr(I, args, kw):
        """check_attr(label, obj, name, expected)"""
        label, o, name, expected = args[:4]
        try:
            v = I.getattr(o, name)
        except Dead as d:
            ctx.results.append({"clause": clause, "label": label, "verdict": "violation",
                                "reason": "%s (%s)" % (d.exc, d.loc), "actual": "-", "expected": show_val(I, expected)})
            return False
        r = check(I, [label, v, expected], kw)
        if not r and isinstance(o, ObjRef):
            ctx.results[-1]["at"] = I.attrloc.get((o.id, name))
        return r

    @reg
    def check_true(I, args, kw):
        label, v = args[:2]
        t = I.truth(v)
        if isinstance(t, Poly) and t.const() is not None:
            t = bool(t.const())
        if t is True:
            ctx.results.append({"clause": clause, "label": label, "verdict": "ok", "reason": ""})
            return True
        if t is False:
            ctx.results.append({"clause": clause, "label": label, "verdict": "violation",
                                "reason": kw.get("why", "") or "", "actual": "false", "expected": "true"})
            return False
        blur = blurred(I, [t])
        ctx.results.append({"clause": clause, "label": label, "verdict": "undecided" if blur else "violation",
                            "reason": ", ".join(sorted(blur)), "actual": show(t), "expected": "true"})
        return False

    @reg
    def depends(I, args, kw):
        """does the value depend on input named ..."""
        d = set()
        for p in I.polys(args[0]):
            d |= {str(x) for x in deps(p)}
        return any(x == args[1] or x.startswith(args[1] + "[") for x in d)

    @reg
    def check_depends(I, args, kw):
        """check_depends(label, value, 'inputname', yes/no)"""
        label, v, name = args[:3]
        want = args[3] if len(args) > 3 else True
        got = depends(I, [v, name], {})
        ok = bool(got) == bool(want)
        ctx.results.append({"clause": clause, "label": label, "verdict": "ok" if ok else "violation",
                            "reason": "" if ok else ("value %s on %s" % ("does not depend" if want else "depends", name)),
                            "actual": show_val(I, v), "expected": ""})
        return ok

    @reg
    def events_of(I, args, kw):
        return I.alloc_list([e[0] + ": " + str(e[1]) + " @ " + str(e[2]) for e in I.events if e[0] == args[0]])

    @reg
    def note(I, args, kw):
        ctx.notes.append("%s: %s" % (clause, args[0]))

    @reg
    def debug(I, args, kw):
        if os.environ.get("SA_DEBUG"):
            print("DEBUG", *[x if isinstance(x, str) else show_val(I, x, 3000) for x in args])

    @reg
    def same(I, args, kw):
        return compare_values(I, args[0], args[1])

    @reg
    def is_same_object(I, args, kw):
        a, b = args
        return isinstance(a, (ARef, ObjRef, ListRef, DictRef)) and a == b

    @reg
    def shape_tuple(I, args, kw):
        d = I.num(args[0])
        return tuple(P(x) for x in d.shape) if isinstance(d, Arr) and d.shape is not None else None

    # loops -------------------------------------------------------------------------------------------------
    def loop_list(kind, fname):
        out = []
        for l in I.loops:
            q = l["func"].qual() if l["func"] else ""
            if (kind is None or l["kind"] == kind) and (fname is None or q == fname or q.split(".")[-1] == fname):
                out.append(l)
        return out

    @reg
    def n_loops(I, args, kw):
        return P(len(loop_list(kw.get("kind"), args[0] if args else None)))

    def loop_state(l, which):
        return l["head"] if which == "head" else (l["end"] if which == "end" else l["pre"])

    @reg
    def loop_attr(I, args, kw):
        """loop_attr(k, 'head'|'end'|'pre', obj, attr): value of obj.attr at that point of loop k (index in I.loops)"""
        k, which, o, name = args
        l = loop_list(kw.get("kind"), kw.get("func"))[const_int(k)]
        st = loop_state(l, which)
        if st is None:
            return I.unk("loop end unreachable")
        return value_in(st, st.heap[o.id][2].get(name))

    def value_in(st, v):
        """import a value of another state into the current one"""
        cur = I.st
        I.st = State(st.heap, st.envs, ONE)
        try:
            return import_val(v, st, cur)
        finally:
            I.st = cur

    def import_val(v, st, cur):
        d = I.deref(v)
        if isinstance(d, Arr) and isinstance(v, (ARef, View)):
            i = I.newid()
            cells = [import_val(c, st, cur) if not isinstance(c, Poly) else c for c in d.cells]
            cur.heap[i] = ("arr", Arr(d.shape, cells))
            return ARef(i)
        if isinstance(v, ListRef):
            i = I.newid()
            cur.heap[i] = ("list", tuple(import_val(x, st, cur) for x in st.heap[v.id][1]))
            return ListRef(i)
        if isinstance(v, tuple):
            return tuple(import_val(x, st, cur) for x in v)
        if isinstance(v, ObjRef):
            c = st.heap[v.id]
            i = I.newid()
            cur.heap[i] = ("obj", c[1], {k: (import_val(x, st, cur) if not isinstance(x, ObjRef) else x) for k, x in c[2].items()})
            return ObjRef(i)
        return v

    @reg
    def loop_cond(I, args, kw):
        l = loop_list(kw.get("kind"), kw.get("func"))[const_int(args[0])]
        c = l["cond"]
        return c if c is not None else True

    @reg
    def loop_var(I, args, kw):
        k, which, name = args
        l = loop_list(kw.get("kind"), kw.get("func"))[const_int(k)]
        st = loop_state(l, which)
        if st is None:
            return I.unk("loop end unreachable")
        return value_in(st, st.envs.get(l["fid"], {}).get(name))

    @reg
    def fail(I, args, kw):
        ctx.results.append({"clause": clause, "label": args[0], "verdict": "violation",
                            "reason": args[1] if len(args) > 1 else "", "actual": "", "expected": ""})

    return B


def where(I, v):
    return []


# ------------------------------------------------------------------------------------------------ running
class Budget(BaseException):
    pass


CLAUSE_SECONDS = 120         # a clause of the unchanged tree takes at most a few seconds
CHECK_SECONDS = 600


def out_of_budget(*a):
    raise Budget()


def run_contract(prop, root, specdir, only=None, verbose=False):
    """interpret every clause_* function of specs/<prop>.py"""
    path = os.path.join(specdir, prop + ".py")
    ctx = Ctx(prop, root)
    import ast
    tree = ast.parse(open(path).read(), path)
    clauses = [n.name for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("clause_")]
    extra = {"spec": path}
    for f in os.listdir(specdir):
        if f.startswith("lib") and f.endswith(".py"):
            extra["spec" + f[:-3]] = os.path.join(specdir, f)
    project = Project(root, extra=extra)
    start = time.time()
    chosen = [c for c in clauses if not only or any(o in c for o in only)]

    def one(c):
        """one clause on its own: its results, and what it went through"""
        ctx = Ctx(prop, root)
        run_clause(ctx, project, c, start, verbose)
        for r in ctx.results:
            for k, v in r.items():
                if v is not None and not isinstance(v, (str, int, float, bool)):
                    r[k] = str(v)
        return ctx.results, ctx.funcs, ctx.stmts, ctx.calls, ctx.values

    for res, funcs, stmts, calls, values in (map(one, chosen) if verbose or len(chosen) < 2 else spread(one, chosen)):
        ctx.clauses += 1
        ctx.results += res
        ctx.funcs |= funcs
        ctx.stmts |= stmts
        ctx.calls += calls
        ctx.values += values
    return ctx


def spread(one, chosen):
    """the clauses side by side, each in a process of its own; in order"""
    waiting = list(range(len(chosen)))
    running = {}
    done = {}
    while waiting or running:
        while waiting and len(running) < max(1, min(8, os.cpu_count() or 1)):
            i = waiting.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    data = pickle.dumps(one(chosen[i]))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (i, pid, [])
        for r in select.select(list(running), [], [])[0]:
            i, pid, got = running[r]
            piece = os.read(r, 1 << 20)
            if piece:
                got.append(piece)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                done[i] = pickle.loads(b"".join(got))
            except Exception:
                name = chosen[i][len("clause_"):]
                done[i] = ([{"clause": name, "label": "engine", "verdict": "undecided", "reason": "the process of this clause ended early"}], set(), set(), 0, 0)
    return [done[i] for i in range(len(chosen))]


def run_clause(ctx, project, c, start, verbose):
    """interpret one clause; its results go to ctx"""
    root = ctx.root
    t0 = time.time()
    I = Interp(project)
    name = c[len("clause_"):]
    I.spec_builtins = builtins_for(I, ctx, name)
    n0 = len(ctx.results)
    left = min(CLAUSE_SECONDS, CHECK_SECONDS - (time.time() - start))
    try:
        if left <= 0:
            raise Budget()
        signal.signal(signal.SIGALRM, out_of_budget)
        signal.setitimer(signal.ITIMER_REAL, left)
        try:
            m = I.load("spec")
            f = m.ns[c]
            I.call(f, [], {})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Budget:
        ctx.results.append({"clause": name, "label": "budget", "verdict": "undecided",
                            "reason": "the normal forms of this clause grow beyond the time budget"})
    except Dead as d:
        inspec = "(" in str(d.loc) and str(d.loc).split(":")[0].startswith(("C", "lib"))
        ctx.results.append({"clause": name, "label": "execution", "verdict": "violation",
                            "reason": "the analysed code always raises here: %s at %s" % (d.exc, d.loc),
                            "actual": "raise " + str(d.exc), "expected": "normal completion", "at": str(d.loc)})
    except AnalysisBroken as e:
        ctx.results.append({"clause": name, "label": "anchor", "verdict": "undecided", "reason": str(e)})
    except RecursionError:
        ctx.results.append({"clause": name, "label": "engine", "verdict": "undecided", "reason": "recursion"})
    except Exception as e:
        if verbose or os.environ.get("SA_DEBUG"):
            traceback.print_exc()
            print("at", I.loc())
        ctx.results.append({"clause": name, "label": "engine", "verdict": "undecided",
                            "reason": "%s: %s at %s" % (type(e).__name__, e, I.loc())})
    here = ["%s:%s (line %s)" % (project.rel(p), q, l) for p, q, l in sorted(I.funcs_seen, key=str) if p.startswith(root + os.sep + project.pkg)
            and not q.endswith(("__init__", "<lambda>", "_values"))]
    for r in ctx.results[n0:]:
        if r["verdict"] != "ok" and not r.get("at"):
            r["at"] = "value computed by " + ", ".join(here[:8])
        r["events"] = [e for e in I.events if e[0] in ("undefined-name", "undefined-attribute", "shape-error", "uninterpreted",
                                                        "unsupported", "unknown-iterable")][:6] if r["verdict"] != "ok" else None
    ctx.funcs |= {(project.rel(p), q, l) for p, q, l in I.funcs_seen if p.startswith(root)}
    ctx.stmts |= {(p, l) for p, l in I.stmts_seen if p.startswith(root)}
    ctx.calls += I.calls
    if verbose:
        print("  %-40s %3d checks  %.2fs" % (name, len(ctx.results) - n0, time.time() - t0))
        for r in ctx.results[n0:]:
            if r["verdict"] != "ok":
                print("     %s [%s] %s\n        actual   %s\n        expected %s\n        at %s %s" % (
                    r["verdict"].upper(), r["label"], r["reason"], r.get("actual"), r.get("expected"), r.get("at"), r.get("events")))
