import numpy as np


def grid():
    N = num("N", pos=True)
    return blank("Psgrid", Nelem=N, grada=op("GA", N, N), gradr=op("GR", N, N)), N


def clause_unpolarised():
    g, N = grid()
    n = inp("n", N, 1, pos=True)
    s = g.sigma(n)
    check("one component", s.shape, (N, 1))
    check("squared gradient", s[:, 0], (g.grada @ n[:, 0])**2 + (g.gradr @ n[:, 0])**2)
    check("input kept", n, inp("n", N, 1, pos=True))


def clause_polarised():
    g, N = grid()
    n = inp("n", N, 2, pos=True)
    s = g.sigma(n)
    ga = [g.grada @ n[:, k] for k in range(2)]
    gr = [g.gradr @ n[:, k] for k in range(2)]
    check("three components", s.shape, (N, 3))
    check("up up", s[:, 0], ga[0]**2 + gr[0]**2)
    check("up down", s[:, 1], ga[0] * ga[1] + gr[0] * gr[1])
    check("down down", s[:, 2], ga[1]**2 + gr[1]**2)


def clause_bad_shape():
    g, N = grid()
    check_true("third column refused", raises(g.sigma, inp("n", N, 3)))


def clause_reduced_one():
    g, N = grid()
    n = inp("n", N, 1, pos=True)
    s = g.reduced_grad(n)
    sig = (g.grada @ n[:, 0])**2 + (g.gradr @ n[:, 0])**2
    check("reduced gradient", s[:, 0], sig**0.5 / (2 * (3 * np.pi**2)**(1 / 3) * n[:, 0]**(4 / 3)))


def clause_reduced_two():
    g, N = grid()
    n = inp("n", N, 2, pos=True)
    s = g.reduced_grad(n)
    for k in range(2):
        m = 2 * n[:, k]
        sig = (g.grada @ m)**2 + (g.gradr @ m)**2
        check("spin %d" % k, s[:, k], sig**0.5 / (2 * (3 * np.pi**2)**(1 / 3) * m**(4 / 3)))
