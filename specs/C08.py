import numpy as np
from scipy.special import lpmv
from scipy.sparse import csc_matrix
from scipy.sparse.linalg import spsolve

def grid(Na=3, Nr=3, Nb=2):
    N = Na * Nr
    a = num("a", pos=True)
    w = inp("w", N)
    g = blank("Psgrid", Na=Na, Nr=Nr, Nelem=N, bcN=Nb, a=a, w=w,
              Xa=inp("Xa", N), Xr=inp("Xr", N), bXa=inp("bXa", Na * Nb), bXr=inp("bXr", Na * Nb),
              elap=op("E", N, N), olap=op("O", N, N), blap=csc_matrix(inp("B", Na * Nb, Na * Nb)), DISP=False)
    q = inp("q", N)
    stub("Psgrid.integrate", lambda self, f: np.sum(q * f))
    g.factorize_laplacian(False)
    return g, q


def boundary(g, q, n):
    """multipole expansion of the potential of n in the region outside the box"""
    def radius(x, y):
        return g.a * (np.cosh(y)**2 + np.cos(x)**2 - 1)**0.5
    Z = g.a * np.cosh(g.Xr) * np.cos(g.Xa)
    bZ = g.a * np.cosh(g.bXr) * np.cos(g.bXa)
    r = radius(g.Xa, g.Xr)
    br = radius(g.bXa, g.bXr)
    v = 0
    for k in range(8):
        Q = np.sum(q * r**k * lpmv(0, k, Z / r) * n)
        v = v + Q * lpmv(0, k, bZ / br) / br**(k + 1)
    return v


def potential(g, q, n):
    b = -4 * np.pi * g.w * n
    c = g.blap @ boundary(g, q, n)
    inner = g.Na * (g.Nr - g.bcN)
    rows = [b[i] - (c[i - inner] if i >= inner else 0) for i in range(g.Nelem)]
    return spsolve(g.elap, np.array(rows))


def clause_vector():
    g, q = grid()
    n = inp("n", g.Nelem)
    v = cls("Hartree")(g).v_hartree(n)
    check("Poisson equation with multipole boundary", v[:, 0], potential(g, q, inp("n", g.Nelem)))
    check("density kept", n, inp("n", g.Nelem))
    check("volume element kept", g.w, inp("w", g.Nelem))


def clause_meshes():
    """boxes of other shapes and other widths of the boundary region"""
    for Na, Nr, Nb in ((2, 4, 1), (4, 2, 1), (2, 3, 3)):
        g, q = grid(Na, Nr, Nb)
        n = inp("n", g.Nelem, 2)
        v = cls("Hartree")(g).v_hartree(n)
        want = potential(g, q, n[:, 0] + n[:, 1])
        check("mesh %d %d boundary %d: first spin column" % (Na, Nr, Nb), v[:, 0], want)
        check("mesh %d %d boundary %d: second spin column" % (Na, Nr, Nb), v[:, 1], want)


def clause_one_column():
    g, q = grid()
    n = inp("n", g.Nelem, 1)
    v = cls("Hartree")(g).v_hartree(n)
    check("Poisson equation with multipole boundary", v, np.array([potential(g, q, n[:, 0])]).T)


def clause_two_columns():
    g, q = grid()
    n = inp("n", g.Nelem, 2)
    v = cls("Hartree")(g).v_hartree(n)
    want = potential(g, q, n[:, 0] + n[:, 1])
    check("first spin column", v[:, 0], want)
    check("second spin column", v[:, 1], want)
    check("density kept", n, inp("n", g.Nelem, 2))


def clause_energy():
    g, q = grid()
    n = inp("n", g.Nelem, 2)
    e = cls("Hartree")(g).e_hartree(n)
    check("half the potential", e[:, 0], potential(g, q, n[:, 0] + n[:, 1]) / 2)


def clause_energy_one_column():
    g, q = grid()
    n = inp("n", g.Nelem, 1)
    e = cls("Hartree")(g).e_hartree(n)
    check("half the potential", e[:, 0], potential(g, q, n[:, 0]) / 2)


def clause_prepared():
    """an initialised grid is ready for Poisson solves"""
    stub("finite_difference_coefficients", lambda x, deriv: np.array([0, -0.5, 0, 0.5, 0]) if deriv == 1 else np.array([0, 1, -2, 1, 0]))
    stub("NC", lambda N, Nm: inp("nc%d" % Nm, (N - 1) * Nm + 1))
    g = cls("Psgrid")(2, [2, 1], num("a", pos=True), num("L", pos=True), np.array([-2, -1, 0, 1, 2]))
    g.initialize()
    check_true("factors present", g.L_lap is not None and g.U_lap is not None)
