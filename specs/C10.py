import numpy as np
from speclibsolver import *
from scipy.sparse import diags


def clause_base():
    for m in range(5):
        g, N = basic_grid()
        s = solver(g, N, m, 1, H0=None)
        s.hamiltonian()
        lap = g.elap if m % 2 == 0 else g.olap
        check("m = %d" % m, s.H0, -0.5 * lap + m**2 * diags(g.w * g.f))


def clause_spin_independent():
    for m in range(3):
        g, N = basic_grid()
        a = solver(g, N, m, 1, H0=None)
        b = solver(g, N, m, 2, H0=None)
        a.hamiltonian()
        b.hamiltonian()
        check("m = %d" % m, a.H0, b.H0)


def clause_effective_potential():
    """the operator that is diagonalised"""
    for m in range(5):
        g, N = basic_grid()
        s = solver(g, N, m, 1 + m % 2, Nmo=2, H0=None)
        box = []

        def eigs(A, k=6, **kw):
            box.append((A, k, kw))
            return np.array([-2, -1]), inp("phi", N, 2)
        stub("scipy.sparse.linalg.eigs", eigs)
        stub("numpy.isnan", lambda x: False * x)
        s.calc_orbitals()
        lap = g.elap if m % 2 == 0 else g.olap
        H = -0.5 * lap + diags(m**2 * g.w * g.f + g.w * s.veff)
        A, k, kw = box[0]
        check("operator m = %d" % m, diags(g.w) @ A, H)
        check("number of states m = %d" % m, k, 2)
        check("target energy m = %d" % m, kw["sigma"], -20)


def clause_potential_by_object():
    g, N = basic_grid()
    s = solver(g, N, 0, 1, veff=None)
    v = inp("v", N)
    s.setveff(v)
    check("stored", s.veff, v)
