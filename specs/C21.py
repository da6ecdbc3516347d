import numpy as np
from speclibpart import *

PARTS = [["Tsf", "Ts_"], ["Enucf", "Enuc_"], ["Exf", "Ex_"], ["Ecf", "Ec_"], ["Ehf", "Eh_"], ["Vhxcf", "Vhxc_"]]


def ep_(self):
    self.E.Ep = num("Ep")


def side_sum(side, name, sym):
    s = sum([num("s_" + t, pos=True) * num(name + t) for t, k in side])
    return 2 * s if sym else s


def energies(ens, sym, ab, itype="dft"):
    p, g, N = partition(2, ens, 1, ens_spin_sym=sym, ab_sym=ab, interaction_type=itype)
    fill_density(p, N)
    fill_energy(p, N)
    stub("Partition.partition_energy", ep_)
    p.energy()
    x, y = parts(p)
    if ab:
        y = x
    tag = " ensemble=%s flip=%s mirror=%s %s" % (ens, sym, ab, itype)
    check("fragment a" + tag, p.E.Ea, side_sum(x, "E_", sym))
    check("fragment b" + tag, p.E.Eb, side_sum(y, "E_", sym))
    ef = side_sum(x, "E_", sym) + side_sum(y, "E_", sym)
    check("fragments" + tag, p.E.Ef, ef)
    for name, pre in PARTS:
        if itype == "dft" or pre in ("Ts_", "Enuc_"):
            check(name + tag, getattr(p.E, name), side_sum(x, pre, sym) + side_sum(y, pre, sym))
    eks = [sum([num("s_" + t, pos=True) * inp("Eks_" + t, 1, 2) for t, k in s]) for s in (x, y)]
    check("eigenvalue sums" + tag, p.E.Eksf, (2 if sym else 1) * (eks[0] + eks[1]))
    nn = p.Za * p.Zb / (2 * g.a)
    check("electronic" + tag, p.E.Et, ef + num("Ep"))
    check("nuclear repulsion" + tag, p.E.Vnn, nn)
    check("total" + tag, p.E.E, ef + num("Ep") + nn)
    for side, v, l in ((x, p.E.evals_a, "a"), (y, p.E.evals_b, "b")):
        ev = []
        for t, k in side:
            ev = ev + [inp("ev_" + t, 2)[0], inp("ev_" + t, 2)[1]]
        check("eigenvalues " + l + tag, v, np.array(ev))
    for t, k in both(p):
        check("component energy kept " + t + tag, k.E.E, num("E_" + t))
        check("component sums kept " + t + tag, k.E.Eks, inp("Eks_" + t, 1, 2))


def clause_plain():
    energies(False, False, False)
    energies(True, False, False)


def clause_spin_symmetric():
    energies(False, True, False)
    energies(True, True, False)


def clause_mirrored():
    energies(False, False, True)
    energies(True, False, True)
    energies(True, True, True)


def clause_independent():
    energies(True, False, False, "ni")
    energies(False, True, True, "ni")


def clause_repeated():
    for ab in (False, True):
        p, g, N = partition(2, True, 1, ens_spin_sym=True, ab_sym=ab)
        fill_density(p, N)
        fill_energy(p, N)
        stub("Partition.partition_energy", ep_)
        p.energy()
        e, f, ev, ek = snap(p.E.E), snap(p.E.Tsf), snap(p.E.evals_b), snap(p.E.Eksf)
        p.energy()
        check("total", p.E.E, e)
        check("kinetic", p.E.Tsf, f)
        check("eigenvalues", p.E.evals_b, ev)
        check("sums", p.E.Eksf, ek)


def clause_partition_energy():
    p, g, N = partition(2, False, 1)
    stub("Partition.ep_nuclear", lambda self: setattrs(self.E, Ep_pot=num("Ep_pot")))
    stub("Partition.ep_kinetic", lambda self: setattrs(self.E, Ep_kin=num("Ep_kin")))
    stub("Partition.ep_hxc", lambda self: setattrs(self.E, Ep_hxc=num("Ep_hxc")))
    p.partition_energy()
    check("sum of parts", p.E.Ep, num("Ep_pot") + num("Ep_kin") + num("Ep_hxc"))
    check("nuclear", p.E.Ep_pot, num("Ep_pot"))
    check("kinetic", p.E.Ep_kin, num("Ep_kin"))
    check("interaction", p.E.Ep_hxc, num("Ep_hxc"))


def clause_isolated():
    """isolated fragments have no partition energy"""
    p, g, N = partition(2, True, 1, isolated=True)
    fill_density(p, N)
    fill_energy(p, N)
    p.energy()
    check("partition energy", p.E.Ep, 0)
    check("nuclear", p.E.Ep_pot, 0)
    check("kinetic", p.E.Ep_kin, 0)
    check("interaction", p.E.Ep_hxc, 0)
    x, y = parts(p)
    check("electronic", p.E.Et, side_sum(x, "E_", False) + side_sum(y, "E_", False))


def clause_nuclear():
    for pol in (1, 2):
        p, g, N = partition(pol, False, 1)
        fill_totals(p, N)
        p.ep_nuclear()
        na, nb = total(p.na_frac, pol), total(p.nb_frac, pol)
        check("each density in the other nucleus, spins=%d" % pol, p.E.Ep_pot, integral(na * p.vb) + integral(nb * p.va))
