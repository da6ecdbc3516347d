import numpy as np
from scipy.special import erf
from speclibpart import *


def prepare(pol, ens, kind, itype="dft"):
    p, g, N = partition(pol, ens, 1, hxc_part_type=kind, interaction_type=itype)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    stub("Partition.energy", lambda self: setattrs(self.E, Ep_h=num("Ep_h"), Ep_x=num("Ep_x"), Ep_c=num("Ep_c")))
    stub("Partition.EnsCorHar", cor_)
    return p, g, N


def cor_(self):
    self.E.Ehcor = num("Ehcor")
    for t, k in both(self):
        k.V.vhcor = inp("vhcor_" + t, self.grid.Nelem, self.pol)


def pieces(p, g, N, pol, t):
    nf = inp("nf", N, pol, pos=True)
    n = total(nf, pol)
    vh = fun("HARTREE", g.Xa, n) - inp("vh_" + t, N)
    h = np.array([vh for j in range(pol)]).T
    x = fun("VXC", nf, "lda", 1, nf) - inp("vx_" + t, N, pol)
    c = fun("VXC", nf, "lda", 12, nf) - inp("vc_" + t, N, pol)
    return h, x, c


def clause_exact():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "exact")
            p.vp_hxc()
            for t, k in both(p):
                h, x, c = pieces(p, g, N, pol, t)
                tag = " of %s spins=%d ensemble=%s" % (t, pol, ens)
                check("Hartree" + tag, k.V.vp_h, h)
                check("exchange" + tag, k.V.vp_x, x)
                check("correlation" + tag, k.V.vp_c, c)
                check("sum" + tag, k.V.vp_hxc, h + x + c)
                check("own potential kept" + tag, k.V.vx, inp("vx_" + t, N, pol))
            nf = inp("nf", N, pol, pos=True)
            check("molecular exchange energy spins=%d" % pol, p.e_x, fun("EXC", None, "lda", 1, nf))
            check("molecular correlation energy spins=%d" % pol, p.e_c, fun("EXC", None, "lda", 12, nf))


def clause_independent():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "exact", "ni")
            p.vp_hxc()
            for t, k in both(p):
                check("none for %s" % t, k.V.vp_hxc, np.zeros((N, pol)))


def clause_hartree_only():
    for ens in (False, True):
        p, g, N = prepare(2, ens, "hartree")
        p.vp_hxc()
        for t, k in both(p):
            h, x, c = pieces(p, g, N, 2, t)
            check("Hartree part of %s" % t, k.V.vp_hxc, h)


def overlap(pol, t):
    """overlap measure and its derivative with respect to the density of component t, per weight of the component"""
    N = num("N", pos=True)
    na, nb = total(inp("na", N, pol, pos=True), pol), total(inp("nb", N, pol, pos=True), pol)
    S = integral((na * nb)**0.5)
    q = (nb / na)**0.5 if t in ("a", "A") else (na / nb)**0.5
    return erf(2 * S), 4 * np.pi**(-0.5) * np.exp(-(2 * S)**2) * 0.5 * q


def each():
    for pol in (1, 2):
        for ens in (False, True):
            yield pol, ens, " spins=%d ensemble=%s" % (pol, ens)


def clause_overlap_measure():
    for pol, ens, tag in each():
        p, g, N = prepare(pol, ens, "overlap_xc")
        p.vp_overlap()
        for t, k in both(p):
            f, d = overlap(pol, t)
            check("measure" + tag, p.E.F, f)
            check("shape" + tag, k.V.dFdn.shape, (N, pol))
            for j in range(pol):
                check("derivative for %s spin %d" % (t, j) + tag, k.V.dFdn[:, j], d)


def clause_overlap_xc():
    for pol, ens, tag in each():
        p, g, N = prepare(pol, ens, "overlap_xc")
        p.vp_hxc()
        for t, k in both(p):
            h, x, c = pieces(p, g, N, pol, t)
            f, d = overlap(pol, t)
            for j in range(pol):
                check("potential of %s spin %d" % (t, j) + tag, k.V.vp_hxc[:, j], h[:, j] + f * (x + c)[:, j] + (num("Ep_x") + num("Ep_c")) * d)


def clause_overlap_hxc():
    for pol, ens, tag in each():
        p, g, N = prepare(pol, ens, "overlap_hxc")
        p.vp_hxc()
        for t, k in both(p):
            h, x, c = pieces(p, g, N, pol, t)
            f, d = overlap(pol, t)
            for j in range(pol):
                want = (f * (h + x + c)[:, j] + (num("Ep_h") + num("Ep_x") + num("Ep_c")) * d
                        + (1 - f) * inp("vhcor_" + t, N, pol)[:, j] - num("Ehcor") * d)
                check("potential of %s spin %d" % (t, j) + tag, k.V.vp_hxc[:, j], want)


def clause_overlap_guarded():
    p, g, N = prepare(1, False, "overlap_xc")
    setattrs(p, na_frac=inp("fa", N, 1), nb_frac=inp("fb", N, 1))
    p.vp_overlap()
    for t, k in both(p):
        a, b = inp("fa", N, 1), inp("fb", N, 1)
        check_guarded("derivative for %s" % t, k.V.dSdn, 0.5 * ((b / a) if t == "a" else (a / b))**0.5)
