import numpy as np


def noop(self, *args):
    return None


def stencil(w):
    """antisymmetric first / symmetric second derivative stencil with free coefficients"""
    def coefficients(x, deriv):
        f = d1 if deriv == 1 else d2
        return np.array([f(k) for k in range(-w, w + 1)])
    return coefficients


def d1(k):
    if k == 0:
        return 0
    return num("p%d" % k) if k > 0 else -num("p%d" % -k)


def d2(k):
    return num("c%d" % (k if k > 0 else -k))


def reflect(f, i, N, parity, far):
    """value at index i of f continued with the given parity below 0 and, if 'far', above N - 1"""
    if i < 0:
        return parity * f[-1 - i]
    if i >= N:
        if far:
            return parity * f[2 * N - 1 - i]
        return 0
    return f[i]


def der(f, N, coef, parity, far, w=2):
    return [sum([coef(k) * reflect(f, i + k, N, parity, far) for k in range(-w, w + 1)]) for i in range(N)]


def small_grid(NP, NM, w=2):
    stub("finite_difference_coefficients", stencil(w))
    stub("Psgrid.factorize_laplacian", noop)
    stub("NC", lambda N, Nm: inp("nc%d" % Nm, (N - 1) * Nm + 1))
    g = cls("Psgrid")(NP, NM, num("a", pos=True), num("L", pos=True), np.array(range(-w, w + 1)))
    g.initialize()
    return g
