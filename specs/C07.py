import numpy as np


def clause_coulomb():
    N = num("N", pos=True)
    a = num("a", pos=True)
    Za = num("Za")
    Zb = num("Zb")
    Xa = inp("Xa", N)
    Xr = inp("Xr", N)
    g = obj("grid", a=a, Xa=Xa, Xr=Xr)
    coulomb = func("coulomb")
    v = coulomb(g, Za, Zb)
    check("formula", v, -Za / (a * (np.cosh(Xr) + np.cos(Xa))) - Zb / (a * (np.cosh(Xr) - np.cos(Xa))))
