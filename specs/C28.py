import numpy as np
from speclibpart import *


def components(p, vp):
    """the potential, together with its components at the fragments"""
    for k in (p.KSa, p.KSb):
        if k is not None:
            setattrs(k.V, vp=vp)
    return vp


def run(pol=2, ens=False, passes=2, start=False, kind="vonweiz", popt={}, **opt):
    """loop with free densities and potentials that never meets its tolerance"""
    p, g, N = partition(pol, ens, 1, kinetic_part_type=kind, **popt)
    log = []
    count = {}
    names = {}
    order = both(p)
    stub("Psgrid.integrate", lambda self, f: np.ones(f.shape[1]) if len(f.shape) == 2 else 1)

    def name(k):
        for t, q in order:
            if q is k:
                return t
        return "?"

    def hxc(self):
        self.vhxc = fun("VHXC", self.n, self.n)
        self.V.vx = self.vhxc

    def dens(self, ITERATIVE=False, dif=0.0):
        t = name(self)
        c = count.get(t, 0)
        count[t] = c + 1
        log.append(["density", t, ITERATIVE, dif, [[snap(self.solver[i, j].veff) for j in range(pol)] for i in range(self.Nmo.shape[0])]])
        return inp("out_%s%d" % (t, c), N, pol)

    def energy(self):
        log.append(["energy", name(self), snap(self.n)])

    def chempot(self):
        t = name(self)
        setattrs(self, u=num("u_%s%d" % (t, count.get(t, 0))))

    def vp(self):
        c = count.get("vp", 0)
        count["vp"] = c + 1
        log.append(["vp", [snap(k.n) for t, k in order], [snap(k.vhxc) for t, k in order], snap(self.nf),
                    [snap(k.V.vx) if hasattr(k.V, "vx") else None for t, k in order]])
        for t, k in order:
            k.V.vp = inp("own_%s%d" % (t, c), N, pol)
        return inp("vp%d" % c, N, pol)

    def tot(self):
        c = count.get("total", 0)
        count["total"] = c + 1
        log.append(["total", snap(self.nf), [snap(k.n) for t, k in order], [snap(k.Q) for t, k in order]])
        setattrs(self.E, E=2 + c, Ea=1, Eb=1)

    stub("Kohnsham.calc_hxc_potential", hxc)
    stub("Kohnsham.calc_density", dens)
    stub("Kohnsham.energy", energy)
    stub("Kohnsham.calc_chempot", chempot)
    stub("Partition.partition_potential", vp)
    stub("Partition.energy", tot)
    for t, k in order:
        if start:
            setattrs(k, n=inp("start_" + t, N, pol, pos=True), vext=inp("ext_" + t, N, pol), vhxc=inp("hxc_" + t, N, pol),
                     veff=inp("eff_" + t, N, pol), Q=inp("q_" + t, N, pol))
    if opt.get("from_target_density", False):
        p.nf = inp("target", N, pol, pos=True)
    p.scf(dict(opt, disp=False, max_iter=passes))
    return p, g, N, log, count


def pick(log, what):
    return [e for e in log if e[0] == what]


def solved(tag, e, v, pol):
    for i in range(len(e[4])):
        for j in range(pol):
            check(tag + " level %d spin %d" % (i, j), e[4][i][j], v[:, j])


def proto(ns, scales):
    return sum([scales[i] * ns[i] for i in range(len(ns))])


def follow(pol, ens, passes, alpha, start=False, popt={}, **opt):
    p, g, N, log, count = run(pol, ens, passes, start, "vonweiz", popt, alpha=alpha, **opt)
    tag = " spins=%d ensemble=%s" % (pol, ens)
    order = both(p)
    scales = [k.scale for t, k in order]
    kind = opt.get("calc_type", "pdft")
    freeze = {"a": opt.get("freeze_a", False), "b": opt.get("freeze_b", False)}
    isolated = popt.get("isolated", False)
    al = {}
    for t, k in order:
        al[t] = alpha[0] if (t in ("a", "A") or len(alpha) == 1) else alpha[1]
    vs = pick(log, "density")
    es = pick(log, "energy")
    ts = pick(log, "total")
    ps = pick(log, "vp")
    n = {}
    first = 0 if start else 1
    own = {}
    ens_ = {}
    for t, k in order:
        own[t] = [e for e in vs if e[1] == t]
        ens_[t] = [e for e in es if e[1] == t]
        check("solutions of %s" % t + tag, len(own[t]), first + passes)
        #the energies of the initial guess may have been calculated as well
        ens_[t] = ens_[t][max(len(ens_[t]) - passes, 0):]
        check("energies of %s" % t + tag, len(ens_[t]), passes)
    for t, k in order:
        if start:
            n[t] = inp("start_" + t, N, pol, pos=True)
        else:
            n[t] = inp("out_%s0" % t, N, pol)
            solved("initial potential of %s" % t + tag, own[t][0], k.vnuc, pol)
    check("passes" + tag, len(ts), passes)
    check("potentials" + tag, len(ps), 0 if isolated else passes)
    ext = {}
    for t, k in order:
        ext[t] = inp("ext_" + t, N, pol) if start else np.zeros((N, pol))
    for c in range(passes):
        nf = proto([n[t] for t, k in order], scales)
        if not isolated:
            for i in range(len(order)):
                check("potential %d uses density of %s" % (c, order[i][0]) + tag, ps[c][1][i], n[order[i][0]])
                check("potential %d uses interaction of %s" % (c, order[i][0]) + tag, ps[c][2][i], fun("VHXC", n[order[i][0]], n[order[i][0]]))
            check("potential %d uses the sum of fragments" % c + tag, ps[c][3], nf)
        for i in range(len(order)):
            t = order[i][0]
            e = own[t][first + c]
            f = "a" if t in ("a", "A") else "b"
            if not freeze[f]:
                if isolated:
                    ext[t] = np.zeros((N, pol))
                elif kind == "pdft":
                    ext[t] = inp("vp%d" % c, N, pol)
                else:
                    ext[t] = inp("own_%s%d" % (t, c), N, pol)
            solved("pass %d potential of %s" % (c, t) + tag, e, order[i][1].vnuc + ext[t] + fun("VHXC", n[t], n[t]), pol)
            out = inp("out_%s%d" % (t, c + (0 if start else 1)), N, pol)
            n[t] = (1 - al[t]) * n[t] + al[t] * out
            check("energy %d of %s" % (c, t) + tag, ens_[t][c][2], n[t])
        nf = proto([n[t] for t, k in order], scales)
        check("total energy %d uses the new sum of fragments" % c + tag, ts[c][1], nf)
        for i in range(len(order)):
            check("total energy %d uses new density of %s" % (c, order[i][0]) + tag, ts[c][2][i], n[order[i][0]])
    for t, k in order:
        check("final density of %s" % t + tag, k.n, n[t])
        check("chemical potential of %s" % t + tag, k.u, num("u_%s%d" % (t, first + passes)))


def clause_passes():
    a, b = num("alpha", pos=True), num("beta", pos=True)
    for pol in (1, 2):
        for ens in (False, True):
            follow(pol, ens, 2, [a])
    follow(2, True, 3, [a, b])
    follow(1, False, 1, [a, b])


def clause_own_potential():
    a = num("alpha", pos=True)
    follow(2, True, 2, [a], calc_type="sdft")
    follow(1, False, 2, [a], calc_type="sdft")


def clause_isolated():
    a, b = num("alpha", pos=True), num("beta", pos=True)
    follow(2, True, 2, [a, b], popt={"isolated": True})
    follow(1, False, 2, [a], popt={"isolated": True}, calc_type="sdft")


def clause_frozen():
    a, b = num("alpha", pos=True), num("beta", pos=True)
    follow(2, True, 2, [a, b], freeze_a=True)
    follow(2, True, 2, [a, b], freeze_b=True)
    follow(1, False, 2, [a], freeze_b=True, calc_type="sdft")


def clause_frozen_isolated():
    a, b = num("alpha", pos=True), num("beta", pos=True)
    follow(2, True, 2, [a, b], True, popt={"isolated": True}, freeze_a=True, continuing=True)
    follow(1, False, 1, [a], True, popt={"isolated": True}, freeze_b=True, continuing=True)


def clause_continued():
    a, b = num("alpha", pos=True), num("beta", pos=True)
    follow(2, False, 2, [a, b], True, continuing=True)
    follow(2, True, 1, [a], True, continuing=True)
    check_true("needs a density", raises(follow, 1, False, 1, [a], False, continuing=True))


def clause_shares():
    """shares and total density always belong to the current fragments"""
    p, g, N, log, count = run(2, True, 2, alpha=[num("alpha", pos=True)])
    for e in pick(log, "total"):
        for i in range(len(both(p))):
            k = both(p)[i][1]
            for j in range(2):
                check_quotient("share of %s spin %d" % (both(p)[i][0], j), e[3][i][:, j], k.scale * e[2][i][:, j], e[1][:, j])


def check_quotient(label, q, a, b):
    check(label, q * b, a)


def clause_mirror_symmetric():
    """only the first fragment is solved, the second is its image throughout"""
    for ens in (False, True):
        a = num("alpha", pos=True)
        p, g, N, log, count = run(2, ens, 2, popt={"ab_sym": True}, alpha=[a])
        x, y = parts(p)
        order = both(p)
        who = [e[1] for e in pick(log, "density")]
        for t, k in x:
            check("solutions of %s ensemble=%s" % (t, ens), len([w for w in who if w == t]), 3)
        for t, k in y:
            check("solutions of %s ensemble=%s" % (t, ens), len([w for w in who if w == t]), 0)
        n = {}
        for t, k in x:
            n[t] = inp("out_%s0" % t, N, 2)
        for c in range(2):
            e = pick(log, "vp")[c]
            for i in range(len(x)):
                t = x[i][0]
                check("pass %d density of image of %s" % (c, t), e[1][len(x) + i], mirrored(n[t]))
                check("pass %d exchange" % c, e[2][i], fun("VHXC", n[t], n[t]))
                check("pass %d exchange of image of %s" % (c, t), e[4][len(x) + i], mirrored(fun("VHXC", n[t], n[t])))
            nf = sum([x[i][1].scale * n[x[i][0]] + y[i][1].scale * mirrored(n[x[i][0]]) for i in range(len(x))])
            check("pass %d sum of fragments" % c, e[3], nf)
            for t, k in x:
                n[t] = (1 - a) * n[t] + a * inp("out_%s%d" % (t, c + 1), N, 2)
            e = pick(log, "total")[c]
            check("pass %d new sum of fragments" % c, e[1],
                  sum([x[i][1].scale * n[x[i][0]] + y[i][1].scale * mirrored(n[x[i][0]]) for i in range(len(x))]))
        for i in range(len(x)):
            check("final density of image", y[i][1].n, mirrored(n[x[i][0]]))
            check("final chemical potential of image", y[i][1].u, num("u_%s3" % x[i][0]))


def clause_target_density():
    """a given total density is kept instead of the sum of fragments"""
    p, g, N, log, count = run(2, False, 2, alpha=[num("alpha", pos=True)], from_target_density=True)
    for e in pick(log, "vp"):
        check("potential", e[3], inp("target", N, 2, pos=True))
    for e in pick(log, "total"):
        check("energy", e[1], inp("target", N, 2, pos=True))
        for i in range(len(both(p))):
            k = both(p)[i][1]
            for j in range(2):
                check_quotient("share of %s spin %d" % (both(p)[i][0], j), e[3][i][:, j], k.scale * e[2][i][:, j], e[1][:, j])
    check("target kept", p.nf, inp("target", N, 2, pos=True))


# ---- when the loop ends: densities and energies are given numbers --------------------------------------------
def scripted(outs_a, outs_b, ens, **opt):
    leaf_stubs()
    g, N = basic_grid()
    setattrs(g, Nelem=1, Xa=inp("Xa", 1), Xr=inp("Xr", 1), w=inp("w", 1), f=inp("angular", 1))
    stub("Psgrid.integrate", lambda self, f: np.array([f[0, 0], f[0, 1]]) if len(f.shape) == 2 else f[0])
    stub("i_solver.hamiltonian", lambda self: None)
    p = cls("Partition")(g, 1, 1, 2, [[1, 1]], [[1, 1]], 1.0, [[1, 1]], [[1, 1]], 1.0, {})
    log = []
    n = {"a": 0, "b": 0, "e": 0}

    def dens(self, ITERATIVE=False, dif=0.0):
        t = "a" if self is p.KSa else "b"
        o = outs_a if t == "a" else outs_b
        n[t] = n[t] + 1
        log.append([t, ITERATIVE, dif])
        return np.array([o[n[t] - 1]])

    def energy(self):
        n["e"] = n["e"] + 1
        e = ens[n["e"] - 1]
        # only the total decides
        setattrs(self.E, E=e, Ea=e / 2 - 7, Eb=e / 2 - 9, Ef=e - 16, Ep=16, Et=e - 1, Vnn=1)

    stub("Kohnsham.calc_hxc_potential", lambda self: setattrs(self, vhxc=np.zeros((1, 2))))
    stub("Kohnsham.calc_density", dens)
    stub("Kohnsham.energy", lambda self: None)
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=-1))
    stub("Partition.partition_potential", lambda self: components(self, np.zeros((1, 2))))
    stub("Partition.energy", energy)
    p.scf(dict(opt, disp=False))
    return n["e"], p, log


def share(new, old):
    """relative change; a spin that is and stays empty has none"""
    if new == 0 and old == 0:
        return 0
    return abs(new - old) / abs(new)


def expect(outs_a, outs_b, ens, alpha, tol, limit, auto=None):
    """passes that the rule prescribes: stop once both relative changes are at most the tolerance"""
    a, b = outs_a[0], outs_b[0]
    old = [a[0] + b[0], a[1] + b[1]]
    old_e, passes, dif, best, worse = 0, 0, 10, 10, 0
    difs = []
    while (dif > tol or (auto is not None and worse < auto)) and passes < limit:
        difs.append(dif)
        x, y = outs_a[passes + 1], outs_b[passes + 1]
        a = [(1 - alpha) * a[i] + alpha * x[i] for i in range(2)]
        b = [(1 - alpha) * b[i] + alpha * y[i] for i in range(2)]
        e = ens[passes]
        de = abs((e - old_e) / e)
        nf = [a[0] + b[0], a[1] + b[1]]
        dn = max(share(nf[0], old[0]), share(nf[1], old[1]))
        dif = max(de, dn)
        old, old_e = nf, e
        passes = passes + 1
        if dif < best:
            best, worse = dif, 0
        else:
            worse = worse + 1
    return passes, nf, difs


def ending(tag, outs_a, outs_b, ens, alpha, tol, limit, auto=None, **opt):
    o = dict(opt, alpha=[alpha], e_tol=tol, max_iter=limit)
    if auto is not None:
        o["auto_tol"] = True
        o["auto_tol_iter"] = auto
    c, p, log = scripted(outs_a, outs_b, ens, **o)
    want, nf, difs = expect(outs_a, outs_b, ens, alpha, tol, limit, auto)
    check(tag + ": passes", c, want)
    check(tag + ": spin up", p.nf[0, 0], nf[0])
    check(tag + ": spin down", p.nf[0, 1], nf[1])
    return c, log, difs


SAME = [[1, 2]] * 40
FLAT = [-2] * 40
WAVE = [[1, 2], [1, 3], [1, 2.5], [1, 2.25], [1, 2.125], [1, 2.0625]] + [[1, 2.03125]] * 40
EMPTY = [[1, 0], [3, 0], [2.5, 0], [2.25, 0], [2.125, 0], [2.0625, 0]] + [[2.03125, 0]] * 40
UPONLY = [[1, 2], [3, 2], [2.5, 2], [2.25, 2], [2.125, 2], [2.0625, 2]] + [[2.03125, 2]] * 40
SLOW_E = [-2, -3, -2.5, -2.75, -2.625, -2.6875] + [-2.65625] * 40
UNEVEN = [-2, -3, -2.5, -2.5, -5, -2.5, -2.5, -3] + [-2.65625] * 40


def clause_end_converged():
    ending("steady", SAME, SAME, FLAT, 0.5, 0.001, 50)
    ending("first fragment settles", WAVE, SAME, FLAT, 0.5, 0.001, 50)
    ending("second fragment settles", SAME, UPONLY, FLAT, 0.5, 0.001, 50)
    ending("energy settles", SAME, SAME, SLOW_E, 0.5, 0.001, 50)
    ending("all settle", WAVE, UPONLY, SLOW_E, 0.25, 0.01, 50)


def clause_end_empty_spin():
    """a spin without electrons does not hide the changes of the other one"""
    ending("no spin down", EMPTY, EMPTY, FLAT, 0.25, 0.001, 50)
    ending("no spin up", [[b, a] for a, b in EMPTY], [[b, a] for a, b in EMPTY], FLAT, 0.25, 0.001, 50)
    ending("no spin down in one fragment", EMPTY, SAME, SLOW_E, 0.25, 0.01, 50)


def scaled(s, x):
    return [[s * a for a in r] if isinstance(r, list) else s * r for r in x]


def clause_end_magnitude():
    """only relative changes count, whatever the size of density and energy or the sign of the energy"""
    for s in (2**-8, 2**8):
        ending("densities times %s" % s, scaled(s, WAVE), scaled(s, UPONLY), FLAT, 0.5, 0.001, 50)
        ending("first density times %s" % s, scaled(s, WAVE), UPONLY, SLOW_E, 0.5, 0.01, 50)
        ending("energies times %s" % s, SAME, SAME, scaled(s, SLOW_E), 0.5, 0.001, 50)
        ending("positive energies times %s" % s, WAVE, SAME, scaled(-s, SLOW_E), 0.25, 0.01, 50)
    ending("energies of changing sign", SAME, SAME, [-1, 0.5, -0.25, 0.25, 0.125] + [0.25] * 40, 0.5, 0.001, 50)
    ending("rising energies", SAME, SAME, [-4, -3, -2.5, -2.25, -2.125] + [-2.0625] * 40, 0.5, 0.05, 50)
    ending("falling energies", SAME, SAME, [-2.0625, -2.125, -2.25, -2.5, -3] + [-4] * 40, 0.5, 0.05, 50)


def clause_end_limit():
    ending("limit", WAVE, UPONLY, SLOW_E, 0.5, 0.000001, 4)
    ending("limit of one", WAVE, UPONLY, SLOW_E, 0.5, 0.000001, 1)


def clause_end_automatic():
    ending("automatic, three", WAVE, SAME, SLOW_E, 1, 0.05, 50, 3)
    ending("automatic, one", WAVE, SAME, SLOW_E, 1, 0.05, 50, 1)
    ending("automatic, uneven", UPONLY, SAME, UNEVEN, 1, 0.3, 50, 2)
    ending("automatic, limit", WAVE, SAME, SLOW_E, 1, 0.05, 4, 3)


def clause_refinement():
    for it in (True, False):
        c, log, difs = ending("iterative=%s" % it, WAVE, SAME, SLOW_E, 0.5, 0.01, 50, iterative=it)
        for t in ("a", "b"):
            own = [e for e in log if e[0] == t]
            for i in range(c):
                check("pass %d asked for" % i, own[1 + i][1], it)
                check("pass %d latest change" % i, own[1 + i][2], difs[i])


def inversions(script, limit, step=1):
    """one pass per entry: optimality of the inversions of that pass"""
    leaf_stubs()
    g, N = basic_grid()
    setattrs(g, Nelem=1, Xa=inp("Xa", 1), Xr=inp("Xr", 1), w=inp("w", 1), f=inp("angular", 1))
    stub("Psgrid.integrate", lambda self, f: np.array([f[0, 0]]) if len(f.shape) == 2 else f[0])
    stub("i_solver.hamiltonian", lambda self: None)
    p = cls("Partition")(g, 1, 1, 1, [[1]], [[1]], 1.0, [[1]], [[1]], 1.0, {"kinetic_part_type": "inversion"})
    p.inverter = cls("Inverter")(g, p.KSa.solver, {"invert_type": "orbitalinvert"})
    n = [0]
    loops = []

    def vp(self):
        loops.append(self.inverter.optInv.avoid_loop)
        row = script[n[0]]
        info = np.empty((1, len(row)), dtype=object)
        for i in range(len(row)):
            info[0, i] = blank("i_solver", nfev=3, optimality=row[i])
        self.inversion_info = info
        return components(self, np.zeros((1, 1)))

    def energy(self):
        n[0] = n[0] + 1
        setattrs(self.E, E=1 + step * (n[0] - 1))

    stub("Kohnsham.calc_hxc_potential", lambda self: setattrs(self, vhxc=np.zeros((1, 1))))
    stub("Kohnsham.calc_density", lambda self, a=False, b=0: np.array([[1]]))
    stub("Kohnsham.energy", lambda self: None)
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=-1))
    stub("Partition.partition_potential", vp)
    stub("Partition.energy", energy)
    p.scf({"disp": False, "max_iter": limit, "e_tol": 1e-9})
    return n[0], loops


def clause_failures():
    """two failed inversions in a row end the calculation, a single one does not"""
    check_true("two in a row", raises(inversions, [[0], [2], [2], [0]], 4))
    check_true("both in one pass", raises(inversions, [[0, 0], [2, 2], [0, 0]], 3))
    check("single ones", inversions([[2], [0], [2], [0]], 4)[0], 4)
    check_true("in different channels", raises(inversions, [[0, 2], [2, 0], [0, 0]], 3))
    check("single ones in different channels", inversions([[2, 0], [0, 2], [0, 0]], 3)[0], 3)
    check("none", inversions([[0, 0], [1, 0], [0, 0.5]], 3)[0], 3)


def clause_avoid_loop():
    n, loops = inversions([[0], [0], [0]], 3)
    check("repeated inversion check is off in the first pass only", loops, [True, False, False])
    n, loops = inversions([[0], [0], [0], [0]], 4, 2**-12)
    check("also close to the end", loops, [True, False, False, False])
