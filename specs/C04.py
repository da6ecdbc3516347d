import numpy as np


def grid():
    N = num("N", pos=True)
    g = blank("Psgrid", hr=num("hr", pos=True), ha=num("ha", pos=True), wi=inp("wi", N), w=inp("w", N), Nelem=N)
    return g, N


def quad(g, f):
    return 2 * np.pi * g.hr * g.ha * np.sum(g.wi * g.w * f)


def clause_vector():
    g, N = grid()
    f = inp("f", N)
    check("weighted sum", g.integrate(f), quad(g, f))


def clause_two_columns():
    g, N = grid()
    f = inp("f", N, 2)
    r = g.integrate(f)
    check("first column", r[0, 0], quad(g, f[:, 0]))
    check("second column", r[0, 1], quad(g, f[:, 1]))
    check("largest of any rows", r[-1], r[0])


def clause_one_column():
    g, N = grid()
    f = inp("f", N, 1)
    r = g.integrate(f)
    summed = 2 * np.pi * g.hr * g.ha * np.sum(g.wi * g.w * f)
    check("same as the vector" if same(r, summed) else "one column", r, quad(g, f[:, 0]))


def clause_linear():
    g, N = grid()
    f = inp("f", N)
    h = inp("h", N)
    c = num("c")
    check("additive and homogeneous", g.integrate(f + c * h), g.integrate(f) + c * g.integrate(h))
    check("input kept", f, inp("f", N))
