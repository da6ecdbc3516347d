import numpy as np
from speclibsolver import *


def density(m, pol, fractional):
    g, N = basic_grid()
    s = solver(g, N, m, pol, fractional)
    s.calc_density()
    check("density m=%d spin=%d fractional=%s" % (m, pol, fractional), s.n[:, 0],
          weighted(s, lambda p, e: p**2 / integral(p**2), fractional))
    full, nu = filled(s)
    if not fractional:
        check("electrons m=%d spin=%d" % (m, pol), integral(s.n), occupancy(m, pol) * full)


def clause_density():
    for m in range(3):
        for pol in (1, 2):
            density(m, pol, False)


def clause_density_fractional():
    for m in range(3):
        for pol in (1, 2):
            density(m, pol, True)


def clause_normalise():
    for k in (1, 2, 4):
        for m in range(3):
            for pol in (1, 2):
                g, N = basic_grid()
                s = solver(g, N, m, pol, Nmo=k, phi=inp("phi", N, k))
                p = snap(s.phi)
                s.normalize_orbitals()
                for i in range(k):
                    check("norm m=%d spin=%d" % (m, pol), integral(s.phi[:, i]**2), occupancy(m, pol))
                    check("direction m=%d spin=%d" % (m, pol), s.phi[:, i] * integral(p[:, i]**2)**0.5,
                          p[:, i] * occupancy(m, pol)**0.5)


def clause_default_electrons():
    for pol in (1, 2):
        g, N = basic_grid()
        sv = cls("i_solver")(g, 3, -1, 0, pol, {})
        check("filled m=0 spin=%d" % pol, sv.N, 6 if pol == 1 else 3)
        sv = cls("i_solver")(g, 3, num("Ne", pos=True), 1, pol, {})
        check("given number kept spin=%d" % pol, sv.N, num("Ne", pos=True))


def clause_solver_table():
    g, N = basic_grid()
    f = func("Pssolver")
    t = f(g, [[3, 4], [1, 2]], [[5, 6], [2, 4]], {})
    for i in range(2):
        for j in range(2):
            check("level %d %d" % (i, j), t[i, j].m, i)
            check("orbitals %d %d" % (i, j), t[i, j].Nmo, [[3, 4], [1, 2]][i][j])
            check("electrons %d %d" % (i, j), t[i, j].N, [[5, 6], [2, 4]][i][j])
            check("spins %d %d" % (i, j), t[i, j].pol, 2)
    u = f(g, [[3]], [[5]], {})
    check("spins unpolarised", u[0, 0].pol, 1)
    check("options kept", f(g, [[3]], [[5]], {"Fractional": True})[0, 0].optSolver.fractional, True)
    check("default options", u[0, 0].optSolver.fractional, False)
