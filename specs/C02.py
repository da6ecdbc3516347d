import numpy as np
from speclibgrid import *


def vec(g, name):
    return inp(name, g.Nelem)


def cols(g, f):
    """f[j][i] on the (angular i, radial j) mesh"""
    return [[f[j * g.Na + i] for i in range(g.Na)] for j in range(g.Nr)]


def flat(g, rows):
    return np.array([rows[j][i] for j in range(g.Nr) for i in range(g.Na)])


def ang(g, f, coef, parity, w=2):
    F = cols(g, f)
    return flat(g, [der(F[j], g.Na, coef, parity, True, w) for j in range(g.Nr)])


def rad(g, f, coef, parity, w=2):
    F = cols(g, f)
    D = [der([F[j][i] for j in range(g.Nr)], g.Nr, coef, parity, False, w) for i in range(g.Na)]
    return flat(g, [[D[i][j] for i in range(g.Na)] for j in range(g.Nr)])


def matrices_1d(NP, NM, w=2):
    g = small_grid(NP, NM, w)
    fa = inp("fa", g.Na)
    fr = inp("fr", g.Nr)
    check("even angular first derivative", g.eDa1 @ fa, np.array(der(fa, g.Na, d1, 1, True, w)) / g.ha)
    check("odd angular first derivative", g.oDa1 @ fa, np.array(der(fa, g.Na, d1, -1, True, w)) / g.ha)
    check("even radial first derivative", g.eDr1 @ fr, np.array(der(fr, g.Nr, d1, 1, False, w)) / g.hr)
    check("odd radial first derivative", g.oDr1 @ fr, np.array(der(fr, g.Nr, d1, -1, False, w)) / g.hr)
    check("even angular second derivative", g.eDa2 @ fa, np.array(der(fa, g.Na, d2, 1, True, w)) / g.ha**2)
    check("odd angular second derivative", g.oDa2 @ fa, np.array(der(fa, g.Na, d2, -1, True, w)) / g.ha**2)
    check("even radial second derivative", g.eDr2 @ fr, np.array(der(fr, g.Nr, d2, 1, False, w)) / g.hr**2)
    check("odd radial second derivative", g.oDr2 @ fr, np.array(der(fr, g.Nr, d2, -1, False, w)) / g.hr**2)


def clause_matrices_54():
    matrices_1d(2, [4, 3])


def clause_matrices_57():
    matrices_1d(3, [2, 3])


def operators(NP, NM, w=2):
    g = small_grid(NP, NM, w)
    f = vec(g, "f")
    a = g.a
    Xa = np.array([(i + 0.5) * g.ha for j in range(g.Nr) for i in range(g.Na)])
    Xr = np.array([(j + 0.5) * g.hr for j in range(g.Nr) for i in range(g.Na)])
    sa = np.sin(Xa)
    ca = np.cos(Xa)
    sh = np.sinh(Xr)
    ch = np.cosh(Xr)
    for name, par in (("elap", 1), ("olap", -1)):
        op_ = g.elap if par == 1 else g.olap
        want = a * (sh * (sa * ang(g, f, d2, par, w) / g.ha**2 + ca * ang(g, f, d1, par, w) / g.ha)
                    + sa * (sh * rad(g, f, d2, par, w) / g.hr**2 + ch * rad(g, f, d1, par, w) / g.hr))
        check(name, op_ @ f, want)
    h = a * (sh**2 + sa**2)**0.5
    h3 = a * sh * sa
    for name, k in (("h1", h), ("h2", h), ("h3", h3)):
        check("scale factor %s" % name, getattr(g, name), k)
    check("angular gradient", g.grada @ f, ang(g, f, d1, 1, w) / g.ha / h)
    check("radial gradient", g.gradr @ f, rad(g, f, d1, 1, w) / g.hr / h)
    for name, d, o, e in (("angular divergence", g.diva @ f, ang(g, h * h3 * f, d1, -1, w) / g.ha / (h * h * h3), ang(g, h * h3 * f, d1, 1, w) / g.ha / (h * h * h3)),
                          ("radial divergence", g.divr @ f, rad(g, h * h3 * f, d1, -1, w) / g.hr / (h * h * h3), rad(g, h * h3 * f, d1, 1, w) / g.hr / (h * h * h3))):
        check(name, d, o if same(d, o) else e)


def clause_flux_parity():
    """scale factor times gradient component is a product of two odd functions: the divergence has to continue it evenly"""
    g = small_grid(2, [4, 3])
    f = vec(g, "f")
    Xa = np.array([(i + 0.5) * g.ha for j in range(g.Nr) for i in range(g.Na)])
    Xr = np.array([(j + 0.5) * g.hr for j in range(g.Nr) for i in range(g.Na)])
    h = g.a * (np.sinh(Xr)**2 + np.sin(Xa)**2)**0.5
    h3 = g.a * np.sinh(Xr) * np.sin(Xa)
    d = g.diva @ f
    o = ang(g, h * h3 * f, d1, -1) / g.ha / (h * h * h3)
    check("angular flux odd across the axis" if same(d, o) else "angular flux", d, ang(g, h * h3 * f, d1, 1) / g.ha / (h * h * h3))
    d = g.divr @ f
    o = rad(g, h * h3 * f, d1, -1) / g.hr / (h * h * h3)
    check("radial flux odd across the axis" if same(d, o) else "radial flux", d, rad(g, h * h3 * f, d1, 1) / g.hr / (h * h * h3))


def clause_operators_54():
    operators(2, [4, 3])


def clause_operators_45():
    operators(2, [3, 4])


def clause_operators_other_stencils():
    operators(2, [3, 3], 1)
    operators(2, [3, 4], 3)
    operators(2, [4, 4], 4)


def clause_matrices_other_stencils():
    matrices_1d(2, [2, 3], 1)
    matrices_1d(2, [5, 4], 3)
    matrices_1d(2, [4, 6], 4)
    matrices_1d(3, [4, 3], 4)


def boundary(NP, NM, w):
    """contribution of the ghost points beyond the outer edge to the Laplacian of the last rows"""
    g = small_grid(NP, NM, w)
    b = inp("b", g.Na * w)
    B = [[b[k * g.Na + i] for i in range(g.Na)] for k in range(w)]
    want = []
    for r in range(w):
        j = g.Nr - w + r
        for i in range(g.Na):
            t = 0
            for k in range(w):
                dist = g.Nr + k - j
                if dist <= w:
                    x = (j + 0.5) * g.hr
                    t = t + (np.sinh(x) * d2(dist) / g.hr**2 + np.cosh(x) * d1(dist) / g.hr) * B[k][i]
            want.append(g.a * np.sin((i + 0.5) * g.ha) * t)
    check("boundary operator, stencil reaching %d" % w, g.blap @ b, np.array(want))


def clause_boundary_laplacian():
    boundary(2, [3, 4], 2)


def clause_boundary_laplacian_other_stencils():
    boundary(2, [3, 3], 1)
    boundary(3, [2, 2], 3)
    boundary(2, [3, 6], 4)
    boundary(2, [4, 4], 4)
