import numpy as np
from speclibpart import *


def prepare(pol, ens, kind, nl=1, levels_b=None, **opt):
    p, g, N = partition(pol, ens, nl, levels_b=levels_b, kinetic_part_type=kind, **opt)
    fill_density(p, N)
    fill_totals(p, N)
    fill_potential(p, N)
    return p, g, N


def weizsaecker(g, n):
    return -0.5 * (g.elap @ np.sqrt(n)) / (np.sqrt(n) * g.w)


def clause_weizsaecker():
    """difference of the von Weizsaecker derivatives of the molecule and of the fragment"""
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "vonweiz")
            p.vp_kinetic()
            nf = inp("nf", N, pol, pos=True)
            for t, k in both(p):
                n = inp("n_" + t, N, pol, pos=True)
                for j in range(pol):
                    check("component %s spin %d of %d" % (t, j, pol), k.V.vp_kin[:, j], weizsaecker(g, nf[:, j]) - weizsaecker(g, n[:, j]))
                check("density kept %s" % t, k.n, n)
            check("molecular density kept", p.nf, nf)


def clause_guarded():
    p, g, N = prepare(2, True, "vonweiz")
    for t, k in both(p):
        setattrs(k, n=inp("n_" + t, N, 2))
    setattrs(p, nf=inp("nf", N, 2))
    p.vp_kinetic()
    nf = inp("nf", N, 2)
    for t, k in both(p):
        n = inp("n_" + t, N, 2)
        raw = weizsaecker(g, nf[:, 0]) - weizsaecker(g, n[:, 0])
        check_guarded("component %s" % t, k.V.vp_kin[:, 0], raw)
        kept = np.nan_to_num(weizsaecker(g, n[:, 0]), nan=0.0, posinf=0.0, neginf=0.0)
        check_guarded("molecular part for %s" % t, k.V.vp_kin[:, 0], weizsaecker(g, nf[:, 0]) - kept)


def clause_functional():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "libxcke", k_family="lda", ke_func_id=50)
            p.vp_kinetic()
            nf = inp("nf", N, pol, pos=True)
            for t, k in both(p):
                n = inp("n_" + t, N, pol, pos=True)
                for j in range(pol):
                    check("component %s spin %d of %d" % (t, j, pol), k.V.vp_kin[:, j],
                          fun("VXC", nf, "lda", 50, nf)[:, j] - fun("VXC", n, "lda", 50, n)[:, j])


def clause_neglected():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "none")
            p.vp_kinetic()
            for t, k in both(p):
                check("component %s spins %d" % (t, pol), k.V.vp_kin, np.zeros((N, pol)))


# ---- exact route: the molecular potential comes from an inversion --------------------------------------------
def inversion(pol, ens, flip, nl=2, levels_b=None, none=()):
    p, g, N = prepare(pol, ens, "inversion", nl, levels_b, ens_spin_sym=flip)
    calls = []

    def guess(self, ispin=0):
        return inp("phi0_%d" % ispin, 3, 2), inp("e0_%d" % ispin, 2), inp("v0_%d" % ispin, N, 1)

    stub("Partition.initialguessinvert", guess)
    homos = {}
    for t, k in both(p):
        for i in range(k.Nmo.shape[0]):
            for j in range(pol):
                if (t, i, j) in none:
                    k.solver[i, j].homo = None
                else:
                    k.solver[i, j].homo = num("homo_%s%d%d" % (t, i, j))
                    homos[(t, i, j)] = num("homo_%s%d%d" % (t, i, j))
    p.inverter = blank("Inverter", solver=np.array([[num("first"), num("second")]]), vs=inp("vs", N, 2), us=inp("us", 1, 2),
                       vt=None, nspins=pol, optInv=p.optPartition)

    def invert(self, n0, vs0, phi0=[], e0=[], ispin=0, Qi=[]):
        calls.append([snap(n0), snap(vs0), snap(phi0), snap(e0), ispin])
        return True, "info%d" % ispin

    stub("Inverter.invert", invert)
    stub("Inverter.get_vt", lambda self: fun("VT", self.vs, self.vs, self.us))
    p.vp_kinetic()
    return p, g, N, calls, homos


def euler(pol, ens, flip, nl=2, levels_b=None, none=()):
    p, g, N, calls, homos = inversion(pol, ens, flip, nl, levels_b, none)
    tag = " spins=%d ensemble=%s flip=%s" % (pol, ens, flip)
    u = None
    for h in homos.values():
        u = h if u is None else max(u, h)
    vs, us = inp("vs", N, 2), inp("us", 1, 2)
    if flip:
        vs = np.array([vs[:, 0], vs[:, 0]]).T
        us = np.array([[us[0, 0], us[0, 0]]])
    vt = fun("VT", vs, vs, us)
    for t, k in both(p):
        for j in range(pol):
            check("component %s spin %d" % (t, j) + tag, k.V.vp_kin[:, j], vt[:, j] - (u - inp("veff_" + t, N, pol)[:, j]))
        check("effective potential kept %s" % t + tag, k.veff, inp("veff_" + t, N, pol))
    n = pol
    if flip:
        n = 1
    check("inversions" + tag, len(calls), n)
    nf = inp("nf", N, pol, pos=True)
    for s in range(n):
        c = calls[s]
        check("target density spin %d" % s + tag, c[0], (2 if pol == 2 else 1) * nf[:, s])
        check("first potential spin %d" % s + tag, c[1], inp("v0_%d" % s, N, 1))
        ph = inp("phi0_%d" % s, 3, 2)
        check("first orbitals spin %d" % s + tag, c[2], np.array([[ph[0, 0]], [ph[1, 0]], [ph[2, 0]], [ph[0, 1]], [ph[1, 1]], [ph[2, 1]]]))
        check("first levels spin %d" % s + tag, c[3], inp("e0_%d" % s, 2))
        check("spin %d" % s + tag, c[4], s)
    check("molecular density kept" + tag, p.nf, nf)


def clause_inversion():
    euler(1, False, False)
    euler(2, False, False)
    euler(1, True, False, 1)
    euler(2, True, False, 1)


def clause_inversion_levels():
    """fragments with different numbers of levels and levels without electrons"""
    euler(1, False, False, 1, 3)
    euler(1, True, False, 3, 1)
    euler(1, False, False, 2, 2, [("a", 1, 0), ("b", 0, 0)])
    euler(2, True, False, 2, 1, [("a", 1, 0), ("A", 0, 1), ("B", 0, 0)])


def clause_inversion_spin_symmetric():
    euler(2, True, True, 1)
    euler(2, False, True, 2)


def clause_two_orbitals():
    """derivative of the two-orbital kinetic energy of four electrons with respect to each fragment density"""
    p, g, N = prepare(1, False, "twoorbital")
    p.vp_kinetic()
    a, b = inp("na", N, 1, pos=True)[:, 0], inp("nb", N, 1, pos=True)[:, 0]
    C = integral((np.sqrt(a) - np.sqrt(b)) ** 2)
    f = (np.sqrt(a) - np.sqrt(b)) / np.sqrt(C)
    s = np.sqrt((a + b) / 2 - f ** 2)
    # derivatives of the integral of phi (-1/2 laplacian) phi
    df = 2 * (-0.5 * (g.elap @ f)) / g.w
    ds = 2 * (-0.5 * (g.elap @ s)) / g.w

    def through(x, sign):
        """f changes with sqrt(x) and with its norm, s through the density and through f"""
        r = sign / (2 * np.sqrt(x * C))
        one = r * (df - f * integral(f * df))
        y = ds * f / s
        two = ds / (4 * s) - r * (y - f * integral(f * y))
        return 2 * (one + two)

    for t, k, x, sign in (("a", p.KSa, a, 1), ("b", p.KSb, b, -1)):
        n = inp("n_" + t, N, 1, pos=True)
        check("component %s" % t, k.V.vp_kin[:, 0], through(x, sign) - weizsaecker(g, n[:, 0]))
        check("density kept %s" % t, k.n, n)
    check("fragment densities kept", p.na_frac, inp("na", N, 1, pos=True))
    check("other fragment densities kept", p.nb_frac, inp("nb", N, 1, pos=True))


def clause_two_orbitals_polarised():
    """only derived for unpolarised densities"""
    p, g, N = prepare(2, False, "twoorbital")
    check_true("refused", raises(p.vp_kinetic))
