import numpy as np
from speclibks import *


def solve_(self):
    t = "%d%d" % (self.m, self.spin)
    self.eks = num("eks" + t)
    self.Ts = num("Ts" + t)
    self.Vs = num("Vs" + t)


def prepare(nl, pol, **opt):
    k, g, N = kohnsham(nl, pol, **opt)
    stub("i_solver.calc_energy", solve_)
    for i in range(nl):
        for j in range(pol):
            setattrs(k.solver[i, j], spin=j, eig=inp("eig%d%d" % (i, j), 2))
    setattrs(k, n=inp("n", N, pol), vext=inp("vext", N, pol), vhxc=inp("vhxc", N, pol), vnuc=inp("vnuc", N, pol))
    return k, g, N


def total(nl, pol, itype):
    k, g, N = prepare(nl, pol, interaction_type=itype)
    k.energy()
    n = inp("n", N, pol)
    Ts = sum([num("Ts%d%d" % (i, j)) for i in range(nl) for j in range(pol)])
    tag = " %s levels=%d spins=%d" % (itype, nl, pol)
    check("kinetic energy" + tag, k.E.Ts, Ts)
    for j in range(pol):
        check("eigenvalue sum spin %d" % j + tag, k.E.Eks[0, j], sum([num("eks%d%d" % (i, j)) for i in range(nl)]))
        check("potential energy spin %d" % j + tag, k.E.Vks[0, j], sum([num("Vs%d%d" % (i, j)) for i in range(nl)]))
    ev = []
    for i in range(nl):
        for j in range(pol):
            ev = ev + [inp("eig%d%d" % (i, j), 2)[0], inp("eig%d%d" % (i, j), 2)[1]]
    check("all eigenvalues" + tag, k.E.evals, np.array(ev))
    nuc = sum([integral(n[:, j] * inp("vnuc", N, pol)[:, j]) for j in range(pol)])
    ext = sum([integral(n[:, j] * inp("vext", N, pol)[:, j]) for j in range(pol)])
    check("nuclear attraction" + tag, k.E.Enuc, nuc)
    check("external energy" + tag, k.E.Vext, ext)
    Et = Ts + nuc
    if itype == "dft":
        tot = sum([n[:, j] for j in range(pol)])
        Eh = 0.5 * integral(tot * fun("HARTREE", g.Xa, tot))
        Ex = fun("EXC", None, "lda", 1, n)
        Ec = fun("EXC", None, "lda", 12, n)
        check("Hartree energy" + tag, k.E.Eh, Eh)
        check("exchange energy" + tag, k.E.Ex, Ex)
        check("correlation energy" + tag, k.E.Ec, Ec)
        check("potential energy in the interaction potential" + tag, k.E.Vhxc, sum([integral(n[:, j] * inp("vhxc", N, pol)[:, j]) for j in range(pol)]))
        Et = Et + Eh + Ex + Ec
    check("electronic energy" + tag, k.E.Et, Et)
    nn = num("Za", pos=True) * num("Zb", pos=True) / (2 * g.a)
    check("nuclear repulsion" + tag, k.E.Vnn, nn)
    check("total energy" + tag, k.E.E, Et + nn)
    check("density kept" + tag, k.n, n)


def clause_interacting():
    total(1, 1, "dft")
    total(2, 2, "dft")
    total(3, 1, "dft")


def clause_independent():
    total(2, 1, "ni")
    total(2, 2, "ni")


def clause_repeated():
    """energies do not accumulate from one evaluation to the next"""
    k, g, N = prepare(2, 2)
    k.energy()
    e = snap(k.E.E)
    ts = snap(k.E.Ts)
    ev = snap(k.E.evals)
    k.energy()
    check("total energy", k.E.E, e)
    check("kinetic energy", k.E.Ts, ts)
    check("eigenvalues", k.E.evals, ev)
    check("eigenvalue sums", k.E.Eks[0, 0], num("eks00") + num("eks10"))


def clause_eigenvalues():
    """every eigenvalue once, whatever their order"""
    for vals in ([[[-3, -1], [-2, -4]], [[-1, -5], [-6, 0.5]]], [[[-1, -1], [-1, -2]], [[-2, -2], [-1, -1]]]):
        k, g, N = prepare(2, 2)
        for i in range(2):
            for j in range(2):
                setattrs(k.solver[i, j], eig=np.array(vals[i][j]))
        k.energy()
        check("levels, then spins", k.E.evals, np.array([e for row in vals for c in row for e in c]))


def clause_functionals():
    """each functional is the one asked for"""
    k, g, N = kohnsham(1, 2, xfunc_id=101, cfunc_id=130, xc_family="gga")
    setattrs(k, n=inp("n", N, 2), vext=inp("vext", N, 2))
    k.calc_hxc_potential()
    n = inp("n", N, 2)
    check("exchange", k.E.Ex, fun("EXC", None, "gga", 101, n))
    check("correlation", k.E.Ec, fun("EXC", None, "gga", 130, n))
    check("exchange potential", k.V.vx, fun("VXC", n, "gga", 101, n))
    check("correlation potential", k.V.vc, fun("VXC", n, "gga", 130, n))


def clause_separate_records():
    """two calculations keep separate energies"""
    k, g, N = prepare(1, 1)
    q = cls("Kohnsham")(g, 1, 1, 1, [[2]], [[2]], {})
    k.energy()
    check("other calculation untouched", q.E.E, 0)
    check("other sums untouched", q.E.Eks, np.zeros((1, 1)))


def homo_(self):
    self.homo = self.level
    return self.homo


def clause_chemical_potential():
    stub("i_solver.get_homo", homo_)
    for lv in ([[-3, -2], [-1, -4]], [[-1, -2], [-3, -4]], [[-5, -2], [-3, -4]], [[-5, -6], [-7, -4]]):
        k, g, N = kohnsham(2, 2)
        for i in range(2):
            for j in range(2):
                setattrs(k.solver[i, j], level=lv[i][j])
        k.calc_chempot()
        check("highest of all levels and spins", k.u, max(max(lv[0]), max(lv[1])))
    for e in ([[2, 2], [0.5, 0.25]], [[0.5, 0], [0.75, 0.5]], [[0.125, 0.125], [0.125, 0.125]], [[3, 2], [1.5, 4]]):
        for lv in ([[-3, -2], [-1, -4]], [[-5, -6], [-7, -4]], [[-1, 0.25], [-3, -4]]):
            k, g, N = kohnsham(2, 2)
            k.N = np.array(e)
            for i in range(2):
                for j in range(2):
                    setattrs(k.solver[i, j], level=lv[i][j], N=e[i][j])
            k.calc_chempot()
            check("highest of all channels, however few electrons they hold", k.u, max(max(lv[0]), max(lv[1])))
    k, g, N = kohnsham(1, 1)
    setattrs(k.solver[0, 0], level=num("e"))
    k.calc_chempot()
    check("single level", k.u, num("e"))
