import numpy as np
from speclibsolver import *


def energies(m, pol, fractional):
    tag = " m=%d spin=%d fractional=%s" % (m, pol, fractional)
    g, N = basic_grid()
    s = solver(g, N, m, pol, fractional)
    stub("numpy.isnan", lambda x: False)
    stub("numpy.isinf", lambda x: False)
    s.calc_energy()
    eks = weighted(s, lambda p, e: e, fractional)
    n = weighted(s, lambda p, e: p**2 / integral(p**2), fractional)
    vs = integral(s.veff * n)
    check("sum of eigenvalues" + tag, s.eks, eks)
    check("kinetic energy" + tag, s.Ts, eks - vs)
    check("density" + tag, s.n[:, 0], n)
    check_depends("potential energy" + tag, s.Vs, "veff")


def clause_energy():
    for m in range(3):
        for pol in (1, 2):
            energies(m, pol, False)


def clause_energy_fractional():
    for m in range(2):
        for pol in (1, 2):
            energies(m, pol, True)


def clause_potential_energy():
    g, N = basic_grid()
    s = solver(g, N, 0, 1)
    stub("numpy.isnan", lambda x: False)
    stub("numpy.isinf", lambda x: False)
    stub("numpy.abs", lambda x: 0 * x)
    stub("builtins.abs", lambda x: 0 * x)
    s.calc_energy()
    check("external energy", s.Vs, integral(s.veff * s.n[:, 0]))


def clause_potential_energy_sizes():
    """energies of heavy atoms are kept"""
    for size in (-95000.0, -2500.0, -1.0, 0.5, 95000.0):
        g, N = basic_grid()
        s = solver(g, N, 0, 1, electrons=0, Nmo=1)
        stub("Psgrid.integrate", lambda self, f: size)
        s.calc_energy()
        check("external energy %s" % size, s.Vs, size)


def clause_kinetic_density():
    for m in range(3):
        for pol in (1, 2):
            for fr in (False, True):
                g, N = basic_grid()
                s = solver(g, N, m, pol, fr)
                s.calc_ked_WFI()
                check("kinetic energy density m=%d spin=%d fractional=%s" % (m, pol, fr), s.ked_WFI[:, 0],
                      weighted(s, lambda p, e: p * (s.H0 @ p) / (g.w * integral(p**2)), fr))
                check("one column m=%d spin=%d fractional=%s" % (m, pol, fr), s.ked_WFI.shape, (N, 1))
