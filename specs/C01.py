import numpy as np


def noop(self, *args):
    return None


def build(NP, NMa, NMr, a, L):
    stub("Psgrid.operators", noop)
    stub("Psgrid.finite_difference_1d", noop)
    stub("Psgrid.finite_difference_2d", noop)
    stub("Psgrid.factorize_laplacian", noop)
    g = cls("Psgrid")(NP, [NMa, NMr], a, L, np.array([-2, -1, 0, 1, 2]))
    g.initialize()
    return g


def geometry(NP, NMa, NMr):
    a = num("a", pos=True)
    L = num("L", pos=True)
    g = build(NP, NMa, NMr, a, L)
    Na = (NP - 1) * NMa + 1
    Nr = (NP - 1) * NMr + 1
    check("Na", g.Na, Na)
    check("Nr", g.Nr, Nr)
    check("Nelem", g.Nelem, Na * Nr)
    ha = np.pi / Na
    hr = L / Nr
    check("ha", g.ha, ha)
    check("hr", g.hr, hr)
    check("xa", g.xa, np.array([(i + 0.5) * ha for i in range(Na)]))
    check("xr", g.xr, np.array([(j + 0.5) * hr for j in range(Nr)]))
    Xa = np.array([(i + 0.5) * ha for j in range(Nr) for i in range(Na)])
    Xr = np.array([(j + 0.5) * hr for j in range(Nr) for i in range(Na)])
    check("Xa order", g.Xa, Xa)
    check("Xr order", g.Xr, Xr)
    check("Z", g.Z, a * np.cosh(Xr) * np.cos(Xa))
    check("Y", g.Y, a * np.sinh(Xr) * np.sin(Xa))
    check("volume element", g.w, a**3 * np.sin(Xa) * np.sinh(Xr) * (np.sin(Xa)**2 + np.sinh(Xr)**2))
    check("bcN", g.bcN, 2)
    check("bXa", g.bXa, np.array([(i + 0.5) * ha for k in range(2) for i in range(Na)]))
    check("bXr", g.bXr, np.array([(Nr - 0.5 + k + 1) * hr for k in range(2) for i in range(Na)]))


def clause_geometry_323():
    geometry(3, 2, 3)


def clause_geometry_412():
    geometry(4, 1, 2)


def clause_geometry_others():
    for NP, NMa, NMr in ((2, 1, 1), (2, 1, 3), (2, 4, 2), (3, 1, 1), (5, 2, 1), (7, 1, 1)):
        geometry(NP, NMa, NMr)


def clause_boundary_width():
    """the boundary region is as wide as the stencil reaches out of the box"""
    for n, width in ((3, 1), (5, 2), (7, 3), (9, 4)):
        for f in ("operators", "finite_difference_1d", "finite_difference_2d", "factorize_laplacian"):
            stub("Psgrid." + f, noop)
        g = cls("Psgrid")(3, [2, 3], num("a", pos=True), num("L", pos=True), np.array(range(-(n // 2), n // 2 + 1)))
        g.initialize()
        check("width", g.bcN, width)
        check("ghost radii", g.bXr, np.array([(g.Nr - 0.5 + k + 1) * g.hr for k in range(width) for i in range(g.Na)]))


def newton_cotes(x, upper):
    """weights integrating every polynomial of degree < len(x) over [0, upper] from its values at x"""
    n = len(x)
    A = np.array([[x[j]**k for j in range(n)] for k in range(n)])
    b = np.array([upper**(k + 1) / (k + 1) for k in range(n)])
    return np.linalg.solve(A, b)


def rule(N, Nm):
    """composite closed rule over the blocks plus the two half cells at the ends (function vanishing at the ends)"""
    w = newton_cotes([j for j in range(N)], N - 1)
    e = newton_cotes([0] + [j - 0.5 for j in range(1, N)], 0.5)
    NP = (N - 1) * Nm + 1
    out = [0] * NP
    for j in range(N - 1):
        out[j] = out[j] + e[j + 1]
        out[NP - 1 - j] = out[NP - 1 - j] + e[j + 1]
    for b in range(Nm):
        for j in range(N):
            out[b * (N - 1) + j] = out[b * (N - 1) + j] + w[j]
    return out


def weights(NP, NMa, NMr):
    g = build(NP, NMa, NMr, num("a", pos=True), num("L", pos=True))
    wa = rule(NP, NMa)
    wr = rule(NP, NMr)
    check("wi ordering and values", g.wi, np.array([wa[i] * wr[j] for j in range(g.Nr) for i in range(g.Na)]))


def clause_weights_212():
    weights(2, 1, 2)


def clause_weights_332():
    weights(3, 3, 2)


def clause_weights_422():
    weights(4, 2, 2)


def clause_weights_513():
    weights(5, 1, 3)


def clause_weights_714():
    weights(7, 1, 4)


def clause_weights_others():
    for NP, NMa, NMr in ((2, 1, 1), (2, 6, 1), (3, 1, 1), (3, 1, 7), (4, 3, 1), (6, 2, 1), (8, 1, 1), (7, 2, 2)):
        weights(NP, NMa, NMr)


def clause_many_blocks():
    """the composite rule itself with as many blocks as production grids have"""
    for N, Nm in ((2, 64), (3, 40), (4, 25), (5, 30), (7, 14)):
        check("%d points, %d blocks" % (N, Nm), func("NC")(N, Nm), np.array(rule(N, Nm)))


def clause_angular_potential():
    a = num("a", pos=True)
    g = build(3, 1, 1, a, num("L", pos=True))
    check("f", g.f, 1 / (2 * a**2 * np.sinh(g.Xr)**2 * np.sin(g.Xa)**2))
