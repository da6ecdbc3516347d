import numpy as np


def basic_grid(**kw):
    """grid with free operators, quadrature and reflection"""
    N = num("N", pos=True)
    stub("Psgrid.integrate", lambda self, f: integral(f))
    stub("Psgrid.mirror", lambda self, f: mirrored(f))
    stub("Psgrid.spinflip", flip)
    stub("Psgrid.square", lambda self, f: fun("SQ", f, f))
    g = blank("Psgrid", Nelem=N, Na=num("Na", pos=True), Nr=num("Nr", pos=True), a=num("a", pos=True),
              w=inp("w", N, pos=True), f=inp("angular", N), elap=op("E", N, N), olap=op("O", N, N),
              grada=op("GA", N, N), gradr=op("GR", N, N), diva=op("DA", N, N), divr=op("DR", N, N),
              Xa=inp("Xa", N), Xr=inp("Xr", N), hr=num("hr", pos=True), ha=num("ha", pos=True))
    setattrs(g, **kw)
    return g, N


def flip(self, f):
    return np.flip(f, axis=1)


def div(g, x, y):
    return g.diva @ x + g.divr @ y
