import numpy as np
from speclibks import *


def spin_image(v):
    return mirrored(np.flip(v, axis=1))


def loop(pol, passes, outs, start=None, **opt):
    """self consistent loop with free densities that never meets its tolerance"""
    k, g, N = kohnsham(2, pol)
    seen = []
    outs_ = []
    energies = []
    stub("Psgrid.integrate", lambda self, f: np.ones(f.shape[1]) if len(f.shape) == 2 else 1)

    def hxc(self):
        self.vhxc = fun("VHXC", self.n, self.n)

    def dens(self, ITERATIVE=False, dif=0.0):
        t = len(seen)
        seen.append([[snap(self.solver[i, j].veff) for j in range(pol)] for i in range(2)])
        return inp("out%d" % t, N, pol)

    def energy(self):
        energies.append(snap(self.n))
        self.E.E = 1 + len(energies)

    stub("Kohnsham.calc_hxc_potential", hxc)
    stub("Kohnsham.calc_density", dens)
    stub("Kohnsham.energy", energy)
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=fun("MU", None, self.n)))
    al = num("alpha", pos=True)
    setattrs(k, vnuc=inp("vnuc", N, pol))
    if start is not None:
        setattrs(k, n=start(N), vext=inp("vext", N, pol))
    k.scf(dict(opt, disp=False, maxiter=passes + 1, alpha=al, iterative=False))
    return k, g, N, seen, energies, al


def reference(N, pol, passes, flip, first=None, vext=None):
    al = num("alpha", pos=True)
    vnuc = inp("vnuc", N, pol)
    ext = np.zeros((N, pol)) if vext is None else vext
    vs, ns = [], []
    t = 0
    if first is None:
        vs.append(vnuc + ext)
        n = inp("out0", N, pol)
        t = 1
    else:
        n = first
    for p in range(passes):
        v = vnuc + ext + fun("VHXC", n, n)
        if flip:
            v = (v + spin_image(v)) / 2
        vs.append(v)
        n = (1 - al) * n + al * inp("out%d" % t, N, pol)
        if flip:
            n = (n + spin_image(n)) / 2
        ns.append(n)
        t = t + 1
    return vs, ns


def compare(k, seen, energies, vs, ns, pol, u=True):
    check("number of solutions", len(seen), len(vs))
    for t in range(len(vs)):
        for i in range(2):
            for j in range(pol):
                check("potential of solution %d level %d spin %d" % (t, i, j), seen[t][i][j], vs[t][:, j])
    check("one energy per pass", len(energies), len(ns))
    for t in range(len(ns)):
        check("energy uses the density of pass %d" % t, energies[t], ns[t])
    check("final density", k.n, ns[len(ns) - 1])
    check("final potential", k.veff, vs[len(vs) - 1])
    check("chemical potential of the final density", k.u, fun("MU", None, ns[len(ns) - 1]))


def clause_passes():
    for pol in (1, 2):
        for passes in (1, 3):
            k, g, N, seen, energies, al = loop(pol, passes, None)
            vs, ns = reference(N, pol, passes, False)
            compare(k, seen, energies, vs, ns, pol)


def clause_spinflip():
    k, g, N, seen, energies, al = loop(2, 2, None, spinflipsym=True)
    vs, ns = reference(N, 2, 2, True)
    compare(k, seen, energies, vs, ns, 2)


def clause_spinflip_one_component():
    """without spin polarisation the mirrored density of the other spin is the mirrored density"""
    k, g, N, seen, energies, al = loop(1, 2, None, spinflipsym=True)
    vs, ns = reference(N, 1, 2, True)
    compare(k, seen, energies, vs, ns, 1)


def clause_continued():
    """continuing from a density keeps it and the external potential"""
    k, g, N, seen, energies, al = loop(2, 2, None, start=lambda N: inp("start", N, 2), continuing=True)
    vs, ns = reference(N, 2, 2, False, inp("start", N, 2), inp("vext", N, 2))
    compare(k, seen, energies, vs, ns, 2)


def clause_external_kept():
    k, g, N, seen, energies, al = loop(2, 2, None, start=lambda N: inp("start", N, 2))
    vs, ns = reference(N, 2, 2, False, None, inp("vext", N, 2))
    compare(k, seen, energies, vs, ns, 2)
    check("external potential", k.vext, inp("vext", N, 2))


# ---- when the loop ends: densities and energies are given numbers --------------------------------------------
def scripted(dens, ens, **opt):
    """total number of passes for given per pass results (two spins, one point)"""
    leaf_stubs()
    g, N = basic_grid()
    setattrs(g, Nelem=1, Xa=inp("Xa", 1), Xr=inp("Xr", 1), w=inp("w", 1), f=inp("angular", 1))
    stub("Psgrid.integrate", lambda self, f: np.array([f[0, 0], f[0, 1]]) if len(f.shape) == 2 else f[0])
    stub("i_solver.hamiltonian", lambda self: None)
    k = cls("Kohnsham")(g, 1, 1, 2, [[1, 1]], [[1, 1]], {})
    log = []

    def dens_(self, ITERATIVE=False, dif=0.0):
        log.append([ITERATIVE, dif])
        return np.array([dens[len(log) - 1]])

    def energy_(self):
        e = ens[len(log) - 2]
        # only the total decides
        setattrs(self.E, E=e, Et=e - 1, Vnn=1, Ts=3, Enuc=e - 4, Eh=2, Ex=-2, Ec=-1)

    stub("Kohnsham.calc_hxc_potential", lambda self: setattrs(self, vhxc=np.zeros((1, 2))))
    stub("Kohnsham.calc_density", dens_)
    stub("Kohnsham.energy", energy_)
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=-1))
    k.scf(dict(opt, disp=False))
    return len(log) - 1, k, log


def share(new, old):
    """relative change; a spin that is and stays empty has none"""
    if new == 0 and old == 0:
        return 0
    return abs(new - old) / abs(new)


def expect(dens, ens, alpha, tol, maxiter, auto=None):
    """passes that the rule prescribes: stop once both relative changes are at most the tolerance"""
    n = dens[0]
    old_n = [0, 0]
    old_e = 0
    passes = 0
    diff = 10
    best, worse = 10, 0
    difs = []
    while (diff > tol or (auto is not None and worse < auto)) and passes + 1 < maxiter:
        difs.append(diff)
        o = dens[passes + 1]
        n = [(1 - alpha) * n[0] + alpha * o[0], (1 - alpha) * n[1] + alpha * o[1]]
        e = ens[passes]
        de = abs((e - old_e) / e)
        dn = max(share(n[0], old_n[0]), share(n[1], old_n[1]))
        diff = max(de, dn)
        old_n, old_e = n, e
        passes = passes + 1
        if diff < best:
            best, worse = diff, 0
        else:
            worse = worse + 1
    return passes, n, difs


def ending(tag, dens, ens, alpha, tol, maxiter, auto=None, **opt):
    o = dict(opt, alpha=alpha, e_tol=tol, maxiter=maxiter)
    if auto is not None:
        o["auto_tol"] = True
        o["auto_tol_iter"] = auto
    p, k, log = scripted(dens, ens, **o)
    want, n, difs = expect(dens, ens, alpha, tol, maxiter, auto)
    check(tag + ": passes", p, want)
    check(tag + ": spin up", k.n[0, 0], n[0])
    check(tag + ": spin down", k.n[0, 1], n[1])
    return p, log, difs


SAME = [[1, 2]] * 40
FLAT = [-2] * 40
WAVE = [[1, 2], [1, 3], [1, 2.5], [1, 2.25], [1, 2.125], [1, 2.0625]] + [[1, 2.03125]] * 40
EMPTY = [[1, 0], [3, 0], [2.5, 0], [2.25, 0], [2.125, 0], [2.0625, 0]] + [[2.03125, 0]] * 40
UPONLY = [[1, 2], [3, 2], [2.5, 2], [2.25, 2], [2.125, 2], [2.0625, 2]] + [[2.03125, 2]] * 40
SLOW_E = [-2, -3, -2.5, -2.75, -2.625, -2.6875] + [-2.65625] * 40
UNEVEN = [-2, -3, -2.5, -2.5, -5, -2.5, -2.5, -3] + [-2.65625] * 40


def clause_end_converged():
    ending("steady", SAME, FLAT, 0.5, 0.001, 50)
    ending("second spin settles", WAVE, FLAT, 0.5, 0.001, 50)
    ending("first spin settles", UPONLY, FLAT, 0.5, 0.001, 50)
    ending("energy settles", SAME, SLOW_E, 0.5, 0.001, 50)
    ending("both settle", WAVE, SLOW_E, 0.25, 0.01, 50)


def clause_end_empty_spin():
    """a spin without electrons does not hide the changes of the other one"""
    ending("no spin down", EMPTY, FLAT, 0.25, 0.001, 50)
    ending("no spin up", [[b, a] for a, b in EMPTY], FLAT, 0.25, 0.001, 50)
    ending("no spin down, energy settles", EMPTY, SLOW_E, 0.25, 0.01, 50)


def scaled(s, x):
    return [[s * a for a in r] if isinstance(r, list) else s * r for r in x]


def clause_end_magnitude():
    """only relative changes count, whatever the size of density and energy or the sign of the energy"""
    for s in (2**-8, 2**8):
        ending("densities times %s" % s, scaled(s, WAVE), FLAT, 0.5, 0.001, 50)
        ending("energies times %s" % s, SAME, scaled(s, SLOW_E), 0.5, 0.001, 50)
        ending("positive energies times %s" % s, WAVE, scaled(-s, SLOW_E), 0.25, 0.01, 50)
    ending("energies of changing sign", SAME, [-1, 0.5, -0.25, 0.25, 0.125] + [0.25] * 40, 0.5, 0.001, 50)
    ending("rising energies", SAME, [-4, -3, -2.5, -2.25, -2.125] + [-2.0625] * 40, 0.5, 0.05, 50)
    ending("falling energies", SAME, [-2.0625, -2.125, -2.25, -2.5, -3] + [-4] * 40, 0.5, 0.05, 50)


def clause_end_limit():
    ending("limit", WAVE, SLOW_E, 0.5, 0.000001, 4)
    ending("limit of one", WAVE, SLOW_E, 0.5, 0.000001, 1)
    ending("limit of two", SAME, FLAT, 0.5, 0.000001, 2)


def clause_end_automatic():
    ending("automatic, three", WAVE, SLOW_E, 1, 0.05, 50, 3)
    ending("automatic, one", WAVE, SLOW_E, 1, 0.05, 50, 1)
    ending("automatic, uneven", UPONLY, UNEVEN, 1, 0.3, 50, 2)
    ending("automatic, limit", WAVE, SLOW_E, 1, 0.05, 5, 3)


def clause_refinement():
    """orbitals are only refined iteratively when asked for, guided by the latest change"""
    p, log, difs = ending("iterative", WAVE, SLOW_E, 0.5, 0.01, 50, iterative=True)
    for t in range(p):
        check("asked for in pass %d" % t, log[t + 1][0], True)
        check("latest change in pass %d" % t, log[t + 1][1], difs[t])
    p, log, difs = ending("direct", WAVE, SLOW_E, 0.5, 0.01, 50, iterative=False)
    for t in range(p):
        check("not asked for in pass %d" % t, log[t + 1][0], False)


def clause_refinement_continued():
    leaf_stubs()
    k, g, N = kohnsham(2, 2)
    log = []
    stub("Psgrid.integrate", lambda self, f: np.ones(f.shape[1]) if len(f.shape) == 2 else 1)
    stub("Kohnsham.calc_hxc_potential", lambda self: setattrs(self, vhxc=np.zeros((N, 2))))

    def dens(self, ITERATIVE=False, dif=0.0):
        log.append(ITERATIVE)
        return inp("out%d" % len(log), N, 2)

    def energy(self):
        self.E.E = 1 + len(log)

    stub("Kohnsham.calc_density", dens)
    stub("Kohnsham.energy", energy)
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=-1))
    for it in (True, False):
        setattrs(k, n=inp("start", N, 2))
        k.scf({"disp": False, "maxiter": 3, "continuing": True, "iterative": it})
        check("passes %s" % it, len(log), 2 if it else 4)
        check("first pass %s" % it, log[len(log) - 2], it)
        check("second pass %s" % it, log[len(log) - 1], it)
