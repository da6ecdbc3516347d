import numpy as np


def moments(x, deriv):
    f = func("finite_difference_coefficients")
    c = f(x, deriv)
    n = len(x)
    fact = 1
    for k in range(n):
        if k > 0:
            fact = fact * k
        m = sum([c[j] * x[j]**k for j in range(n)])
        check("moment %d" % k, m, fact if k == deriv else 0)


def clause_three_point():
    moments(np.array([-1, 0, 1]), 1)
    moments(np.array([-1, 0, 1]), 2)


def clause_five_point():
    moments(np.array([-2, -1, 0, 1, 2]), 1)
    moments(np.array([-2, -1, 0, 1, 2]), 2)


def clause_seven_point():
    moments(np.array([-3, -2, -1, 0, 1, 2, 3]), 1)
    moments(np.array([-3, -2, -1, 0, 1, 2, 3]), 2)


def clause_nine_point():
    moments(np.array(range(-4, 5)), 1)
    moments(np.array(range(-4, 5)), 2)


def clause_one_sided():
    moments(np.array([0, 1, 2, 3]), 1)
    moments(np.array([-1, 0, 1, 2]), 2)


def clause_any_points():
    """sample points need not be equidistant, ordered or around zero"""
    for x in ([1, -1, 0], [0, 0.5, 2], [2, 3, 5], [-1.5, 0.25, 0.5, 4], [3, -2, 1, 0, -5], [-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6]):
        for deriv in (1, 2):
            moments(np.array(x), deriv)


def clause_other_orders():
    for deriv in (0, 3, 4):
        moments(np.array([-2, -1, 0, 1, 2]), deriv)
        moments(np.array([0, 1, 2, 4, 8, 9]), deriv)


def stencils(lo, hi):
    stub("Psgrid.operators", lambda self: None)
    stub("Psgrid.factorize_laplacian", lambda self, d=None: None)
    loc = np.array(range(lo, hi + 1))
    g = cls("Psgrid")(3, [4, 5], num("a", pos=True), num("L", pos=True), loc)
    g.initialize()
    n = hi - lo + 1
    for k in range(n):
        check("grid first derivative moment %d" % k, sum([g.d1[j] * loc[j]**k for j in range(n)]), 1 if k == 1 else 0)
        check("grid second derivative moment %d" % k, sum([g.d2[j] * loc[j]**k for j in range(n)]), 2 if k == 2 else 0)
    # interior rows of the assembled matrices carry the stencil of the requested order
    i = g.Na // 2
    if hi <= i and i + hi < g.Na:
        for k in range(n):
            m1 = sum([g.eDa1[i, i + loc[j]] * loc[j]**k for j in range(n)])
            m2 = sum([g.eDa2[i, i + loc[j]] * loc[j]**k for j in range(n)])
            check("interior angular first %d" % k, m1 * g.ha, 1 if k == 1 else 0)
            check("interior angular second %d" % k, m2 * g.ha**2, 2 if k == 2 else 0)
    i = g.Nr // 2
    for k in range(n):
        m1 = sum([g.oDr1[i, i + loc[j]] * loc[j]**k for j in range(n)])
        m2 = sum([g.oDr2[i, i + loc[j]] * loc[j]**k for j in range(n)])
        check("interior radial first %d" % k, m1 * g.hr, 1 if k == 1 else 0)
        check("interior radial second %d" % k, m2 * g.hr**2, 2 if k == 2 else 0)


def clause_grid_five():
    stencils(-2, 2)


def clause_grid_others():
    stencils(-1, 1)
    stencils(-3, 3)


def clause_grid_nine():
    stencils(-4, 4)
