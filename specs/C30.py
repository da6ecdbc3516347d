import numpy as np
from speclibks import *


def inverter(nl, pol, **opt):
    k, g, N = kohnsham(nl, pol)
    return cls("Inverter")(g, k.solver, opt), g, N


def energy_(self):
    self.Ts = fun("TS", None, self.m, self.veff)


def ked_(self):
    self.ked_WFI = None if self.veff is None else fun("KED", self.veff, self.m, self.veff)[:, None]


def fill(v, nl, pol, N, names):
    for i in range(nl):
        for j in range(pol):
            v.solver[i, j].veff = inp("v%d%d" % (i, names[j]), N)


def clause_kinetic_energy():
    stub("i_solver.calc_energy", energy_)
    for nl, pol in ((1, 1), (3, 1), (2, 2)):
        v, g, N = inverter(nl, pol)
        for again in range(2):
            fill(v, nl, pol, N, [again, again + 1])
            want = sum([fun("TS", None, i, inp("v%d%d" % (i, again + j), N)) for i in range(nl) for j in range(pol)])
            check("levels=%d spins=%d evaluation %d" % (nl, pol, again), v.get_Ts(), want)


def clause_kinetic_energy_spin_symmetric():
    """both spins count, the second being a copy of the first"""
    stub("i_solver.calc_energy", energy_)
    for nl in (1, 3):
        v, g, N = inverter(nl, 2, ens_spin_sym=True)
        fill(v, nl, 2, N, [0, 0])
        check("levels=%d" % nl, v.get_Ts(), 2 * sum([fun("TS", None, i, inp("v%d0" % i, N)) for i in range(nl)]))


def clause_density():
    stub("i_solver.calc_ked_WFI", ked_)
    for nl, pol in ((1, 1), (3, 1), (2, 2)):
        v, g, N = inverter(nl, pol)
        for again in range(2):
            fill(v, nl, pol, N, [again, again + 1])
            t = v.get_ts_WFI()
            check("shape", t.shape, (N, pol))
            for j in range(pol):
                w = [inp("v%d%d" % (i, again + j), N) for i in range(nl)]
                check("levels=%d spin %d of %d evaluation %d" % (nl, j, pol, again), t[:, j], sum([fun("KED", w[i], i, w[i]) for i in range(nl)]))


def clause_density_empty_levels():
    """levels without electrons add nothing"""
    stub("i_solver.calc_ked_WFI", ked_)
    v, g, N = inverter(3, 2)
    fill(v, 3, 2, N, [0, 1])
    v.solver[1, 0].veff = None
    v.solver[2, 1].veff = None
    t = v.get_ts_WFI()
    for j, ls in ((0, (0, 2)), (1, (0, 1))):
        w = {i: inp("v%d%d" % (i, j), N) for i in ls}
        check("spin %d" % j, t[:, j], sum([fun("KED", w[i], i, w[i]) for i in ls]))


def clause_density_spin_symmetric():
    stub("i_solver.calc_ked_WFI", ked_)
    for nl in (1, 2):
        v, g, N = inverter(nl, 2, ens_spin_sym=True)
        fill(v, nl, 2, N, [0, 0])
        for i in range(nl):
            v.solver[i, 1] = v.solver[i, 0]
        t = v.get_ts_WFI()
        for j in range(2):
            w = [inp("v%d0" % i, N) for i in range(nl)]
            check("levels=%d spin %d" % (nl, j), t[:, j], sum([fun("KED", w[i], i, w[i]) for i in range(nl)]))


def clause_potential():
    """chemical potential minus the inverted potential, spin by spin"""
    for pol in (1, 2):
        v, g, N = inverter(1, pol)
        setattrs(v, vs=inp("vs", N, pol), us=inp("us", 1, pol))
        t = v.get_vt()
        check("shape", t.shape, (N, pol))
        for j in range(pol):
            check("spin %d of %d" % (j, pol), t[:, j], inp("us", 1, pol)[0, j] - inp("vs", N, pol)[:, j])
        check("potential kept", v.vs, inp("vs", N, pol))
        check("chemical potential kept", v.us, inp("us", 1, pol))


def clause_method():
    """the inversion asked for is the one that runs, on the given density and first guess"""
    for name, f in (("wuyang", "linresponse"), ("orbitalinvert", "orbitalinvert")):
        got = []
        stub("Inverter." + f, lambda self, *a, **k: got.append([a, k]) or ("flag", "output"))
        v, g, N = inverter(1, 1, invert_type=name)
        n0, v0 = inp("n0", N, 1), inp("v0", N, 1)
        r = v.invert(n0, v0, inp("phi0", N, 1), inp("e0", 1), 0)
        check(name + ": runs once", len(got), 1)
        a = list(got[0][0]) + [got[0][1][x] for x in got[0][1]]
        check(name + ": density", a[0], n0)
        check(name + ": first guess", a[1], v0)
        check(name + ": flag", r[0], "flag")
        check(name + ": output", r[1], "output")


def clause_unknown_method():
    v, g, N = inverter(1, 1)
    v.optInv.invert_type = "none of these"
    check_true("refused", raises(v.invert, inp("n0", N, 1), inp("v0", N, 1)))
