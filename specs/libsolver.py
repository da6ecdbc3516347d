import numpy as np
from speclibphys import *


def occupancy(m, pol):
    """electrons held by one filled orbital"""
    full = 2 if m == 0 else 4
    return full if pol == 1 else full / 2


def solver(g, N, m, pol, fractional=False, electrons=None, Nmo=None, options=None, **kw):
    M = num("Nmo", pos=True) if Nmo is None else Nmo
    Ne = num("Ne", nonneg=True) if electrons is None else electrons
    o = {"fractional": fractional, "sym": False, "iter_lin_solver": True, "disp": False, "tol_orbital": num("tol", pos=True),
         "tol_lin_solver": num("tol2", pos=True)}
    if options is not None:
        o.update(options)
    s = cls("i_solver")(g, M, Ne, m, pol, o)
    setattrs(s, phi=inp("phi", N, M), eig=inp("eig", M), veff=inp("veff", N), H0=op("H0", N, N, symmetric=True))
    setattrs(s, **kw)
    return s


def filled(s):
    """number of filled orbitals and filling of the next one"""
    occ = occupancy(s.m, s.pol)
    full = np.floor(s.N / occ)
    return int(full), s.N / occ - full


def weighted(s, term, fractional):
    """occupation weighted sum of term(orbital, eigenvalue)"""
    full, nu = filled(s)
    tot = 0
    for i in range(full):
        tot = tot + term(s.phi[:, i], s.eig[i])
    if fractional:
        if nu != 0:
            tot = tot + nu * term(s.phi[:, full], s.eig[full])
    return occupancy(s.m, s.pol) * tot
