import numpy as np
from speclibks import *


def nuclear(pol, sym):
    k, g, N = kohnsham(2, pol, sym=sym)
    v = fun("COULOMB", g.Xa, num("Za", pos=True), num("Zb", pos=True))
    v = sym_(v) if sym else v
    check("shape", k.vnuc.shape, (N, pol))
    for j in range(pol):
        check("spin %d" % j, k.vnuc[:, j], v)


def clause_nuclear():
    nuclear(1, False)
    nuclear(2, False)


def clause_nuclear_symmetric():
    nuclear(1, True)
    nuclear(2, True)


def potentials(k, N, pol):
    setattrs(k, vext=inp("vext", N, pol), vhxc=inp("vhxc", N, pol), vnuc=inp("vnuc", N, pol))


def routed(k, v, nl, pol):
    for i in range(nl):
        for j in range(pol):
            check("level %d spin %d" % (i, j), k.solver[i, j].veff, v[:, j])


def assembled(nl, pol, itype):
    k, g, N = kohnsham(nl, pol, interaction_type=itype)
    potentials(k, N, pol)
    k.set_effective_potential()
    v = inp("vext", N, pol) + inp("vhxc", N, pol) + inp("vnuc", N, pol)
    check("effective potential", k.veff, v)
    routed(k, v, nl, pol)
    check("nuclear kept", k.vnuc, inp("vnuc", N, pol))
    check("external kept", k.vext, inp("vext", N, pol))
    check("hxc kept", k.vhxc, inp("vhxc", N, pol))


def clause_effective():
    for t in ("dft", "ni"):
        assembled(1, 1, t)
        assembled(3, 1, t)
        assembled(2, 2, t)


def clause_given():
    for nl, pol in ((1, 1), (3, 1), (2, 2), (1, 2)):
        k, g, N = kohnsham(nl, pol)
        potentials(k, N, pol)
        v = inp("given", N, pol)
        k.set_veff_external(v)
        routed(k, v, nl, pol)
        check("argument kept", v, inp("given", N, pol))


def diagonalise(name):
    def f(self, solver_id=None, return_dict=None):
        e = fun("EIG", None, name, self.m, self.N, self.veff)
        p = fun("PHI", self.veff, name, self.m, self.N, self.veff)
        self.eig = np.array([e])
        self.phi = p[:, None]
        if return_dict is not None:
            return_dict[solver_id] = [self.eig, self.phi]
    return f


def density_(self):
    self.n = fun("DENSITY", self.veff, self.m, self.N, self.eig, self.phi)[:, None]


def solvers(k, N, nl, pol):
    stub("i_solver.calc_orbitals", diagonalise("full"))
    stub("i_solver.iter_orbitals", diagonalise("iterative"))
    stub("i_solver.calc_density", density_)
    for i in range(nl):
        for j in range(pol):
            k.solver[i, j].veff = inp("v%d%d" % (i, j), N)
            k.solver[i, j].eig = inp("old eig %d%d" % (i, j), 1)
            k.solver[i, j].phi = inp("old phi %d%d" % (i, j), N, 1)


def density(nl, pol, name, sym, **kw):
    k, g, N = kohnsham(nl, pol, sym=sym)
    solvers(k, N, nl, pol)
    n = k.calc_density(**kw)
    check("shape", n.shape, (N, pol))
    for j in range(pol):
        tot = 0
        for i in range(nl):
            s = k.solver[i, j]
            v = inp("v%d%d" % (i, j), N)
            ne = num("N%d%d" % (i, j), pos=True)
            e = np.array([fun("EIG", None, name, i, ne, v)])
            p = fun("PHI", v, name, i, ne, v)[:, None]
            check("eigenvalues %s level %d spin %d" % (name, i, j), s.eig, e)
            check("orbitals %s level %d spin %d" % (name, i, j), s.phi, p)
            tot = tot + fun("DENSITY", v, i, ne, e, p)
        check("density %s spin %d" % (name, j), n[:, j], sym_(tot) if sym else tot)


def clause_density():
    for nl, pol in ((1, 1), (3, 1), (1, 2), (2, 2)):
        density(nl, pol, "full", False)


def clause_density_symmetric():
    density(2, 1, "full", True)
    density(2, 2, "full", True)


def clause_density_iterative():
    density(2, 2, "iterative", False, ITERATIVE=True, dif=1e-3)
    density(2, 1, "iterative", False, ITERATIVE=True)
    density(2, 2, "full", False, ITERATIVE=True, dif=1)
    density(2, 2, "full", False, ITERATIVE=False, dif=1e-3)


def hxc(pol, sym, kind):
    k, g, N = kohnsham(2, pol, sym=sym, interaction_type=kind)
    n = inp("n", N, pol, pos=True)
    setattrs(k, n=n, vext=inp("vext", N, pol))
    k.calc_hxc_potential()
    if kind == "ni":
        want = np.zeros((N, pol))
    else:
        want = fun("VXC", n, "lda", 1, n) + fun("VXC", n, "lda", 12, n) + k.hartree.v_hartree(n)
    for j in range(pol):
        check("interaction potential %s spin %d of %d" % (kind, j, pol), k.vhxc[:, j], (sym_(want) if sym else want)[:, j])
    check("density untouched", k.n, inp("n", N, pol, pos=True))


def clause_interaction():
    for pol in (1, 2):
        for kind in ("dft", "ni"):
            hxc(pol, False, kind)


def clause_interaction_symmetric():
    hxc(1, True, "dft")
    hxc(2, True, "dft")
    hxc(2, True, "ni")
