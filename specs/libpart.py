import numpy as np
from speclibks import *


def partition(pol=2, ens=False, nl=2, nu_a=None, nu_b=None, Za=None, Zb=None, levels_b=None, **opt):
    g, N = basic_grid(wi=inp("wi", num("N", pos=True)))
    leaf_stubs()
    za = num("Za", pos=True) if Za is None else Za
    zb = num("Zb", pos=True) if Zb is None else Zb
    if opt.get("ab_sym", False):
        zb = za
    lv = levels(nl, pol)
    lb = levels(nl if levels_b is None else levels_b, pol)
    na = [[num("Na%d%d" % (i, j), pos=True) for j in range(pol)] for i in range(len(lv))]
    nb = [[num("Nb%d%d" % (i, j), pos=True) for j in range(pol)] for i in range(len(lb))]
    if ens:
        nA = [[num("NA%d%d" % (i, j), pos=True) for j in range(pol)] for i in range(len(lv))]
        nB = [[num("NB%d%d" % (i, j), pos=True) for j in range(pol)] for i in range(len(lb))]
        p = cls("Partition")(g, za, zb, pol, [lv, lv], [na, nA], 0.25 if nu_a is None else nu_a,
                             [lb, lb], [nb, nB], 0.5 if nu_b is None else nu_b, opt)
    else:
        p = cls("Partition")(g, za, zb, pol, lv, na, 1.0, lb, nb, 1.0, opt)
    return p, g, N


def parts(p):
    """fragments of A and of B with their names"""
    if p.ens:
        return [["a", p.KSa], ["A", p.KSA]], [["b", p.KSb], ["B", p.KSB]]
    return [["a", p.KSa]], [["b", p.KSb]]


def both(p):
    x, y = parts(p)
    return x + y


def fill_density(p, N):
    for t, k in both(p):
        setattrs(k, n=inp("n_" + t, N, p.pol, pos=True), scale=num("s_" + t, pos=True))


def fill_totals(p, N):
    setattrs(p, na_frac=inp("na", N, p.pol, pos=True), nb_frac=inp("nb", N, p.pol, pos=True), nf=inp("nf", N, p.pol, pos=True))


def fill_energy(p, N):
    for t, k in both(p):
        setattrs(k.E, E=num("E_" + t), Ts=num("Ts_" + t), Eks=inp("Eks_" + t, 1, p.pol), Enuc=num("Enuc_" + t), Ex=num("Ex_" + t),
                 Ec=num("Ec_" + t), Eh=num("Eh_" + t), Vhxc=num("Vhxc_" + t), evals=inp("ev_" + t, 2))


def fill_potential(p, N):
    for t, k in both(p):
        setattrs(k, Q=inp("Q_" + t, N, p.pol), veff=inp("veff_" + t, N, p.pol), vext=inp("vext_" + t, N, p.pol),
                 vhxc=inp("vhxc_" + t, N, p.pol), u=num("u_" + t))
        vh = inp("vh_" + t, N)
        setattrs(k.V, vh=np.array([vh for j in range(p.pol)]).T, vx=inp("vx_" + t, N, p.pol), vc=inp("vc_" + t, N, p.pol),
                 eh=inp("eh_" + t, N), ex=inp("ex_" + t, N, 1), ec=inp("ec_" + t, N, 1))


def total(f, pol):
    return sum([f[:, j] for j in range(pol)])
