import numpy as np
from speclibphys import *

LOG = []


def coulomb_(grid, Za, Zb):
    return fun("COULOMB", grid.Xa, Za, Zb)


def hartree_(self, n):
    d = len(n.shape)
    tot = n if d == 1 else np.sum(n, axis=1)
    v = fun("HARTREE", self.grid.Xa, tot)
    pol = 1 if d == 1 else n.shape[1]
    return np.array([v for k in range(pol)]).T


def xc_(self, n, return_epsilon=False):
    v = fun("VXC", n, self.xc_family, self.func_id, n)
    e = fun("EXC", None, self.xc_family, self.func_id, n)
    if return_epsilon is True:
        return e, fun("EPS", n[:, 0], self.xc_family, self.func_id, n)[:, None], v
    return e, v


def leaf_stubs():
    stub("coulomb", coulomb_)
    stub("Hartree.v_hartree", hartree_)
    stub("Libxc.get_xc", xc_)


def levels(nl, pol):
    return [[2 for j in range(pol)] for i in range(nl)]


def electrons(nl, pol):
    return [[num("N%d%d" % (i, j), pos=True) for j in range(pol)] for i in range(nl)]


def kohnsham(nl=2, pol=2, Za=None, Zb=None, **opt):
    g, N = basic_grid()
    leaf_stubs()
    za = num("Za", pos=True) if Za is None else Za
    zb = num("Zb", pos=True) if Zb is None else Zb
    k = cls("Kohnsham")(g, za, zb, pol, levels(nl, pol), electrons(nl, pol), opt)
    return k, g, N


def sym_(v):
    return 0.5 * (v + mirrored(v))


def columns(f, pol):
    return [f[:, k] for k in range(pol)]
