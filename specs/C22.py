import numpy as np
from scipy.special import erf
from speclibpart import *


def prepare(pol, ens, kind, itype="dft", ab=False, flip=False):
    p, g, N = partition(pol, ens, 1, hxc_part_type=kind, interaction_type=itype, ab_sym=ab, ens_spin_sym=flip)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    nf = p.nf
    setattrs(p.E, Ehf=num("Ehf"), Exf=num("Exf"), Ecf=num("Ecf"))
    if itype == "dft":
        e, eps, v = p.exchange.get_xc(nf, return_epsilon=True)
        setattrs(p, e_x=e, epsilon_x=eps)
        e, eps, v = p.correlation.get_xc(nf, return_epsilon=True)
        setattrs(p, e_c=e, epsilon_c=eps)
    return p, g, N


def non_additive(g, nf, pol):
    """interaction energies of the sum of fragments minus those of the fragments"""
    n = total(nf, pol)
    h = 0.5 * integral(n * fun("HARTREE", g.Xa, n)) - num("Ehf")
    x = fun("EXC", None, "lda", 1, nf) - num("Exf")
    c = fun("EXC", None, "lda", 12, nf) - num("Ecf")
    return h, x, c


def F(p, pol):
    return erf(2 * integral((total(p.na_frac, pol) * total(p.nb_frac, pol))**0.5))


def parts_of(pol, ens, ab):
    p, g, N = prepare(pol, ens, "exact", ab=ab)
    p.ep_hxc()
    h, x, c = non_additive(g, p.nf, pol)
    tag = " spins=%d ensemble=%s mirror=%s" % (pol, ens, ab)
    check("Hartree" + tag, p.E.Ep_h, h)
    check("exchange" + tag, p.E.Ep_x, x)
    check("correlation" + tag, p.E.Ep_c, c)
    check("all" + tag, p.E.Ep_hxc, h + x + c)
    check("density kept" + tag, p.nf, inp("nf", N, pol, pos=True))
    check("fragment Hartree sum kept" + tag, p.E.Ehf, num("Ehf"))


def clause_exact():
    for pol in (1, 2):
        for ens in (False, True):
            parts_of(pol, ens, False)
    parts_of(2, True, True)


def density_of(pol, ens, ab, flip, held=()):
    """integrated with the total density, the energy densities give the energies they belong to"""
    p, g, N = partition(pol, ens, 1, hxc_part_type="exact", interaction_type="dft", ab_sym=ab, ens_spin_sym=flip)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    nf = inp("nf", N, pol, pos=True)
    ds = {}
    for t, k in both(p):
        ds[t] = num("s_" + t, pos=True) * inp("n_" + t, N, pol, pos=True)
        setattrs(k, Q=ds[t] / nf)
        if len(held):
            setattrs(k.V, frozen=t in held)
        if t in held:
            setattrs(k.V, eh=np.zeros(N), ex=np.zeros((N, 1)), ec=np.zeros((N, 1)))
    setattrs(p.E, Ehf=num("Ehf"), Exf=num("Exf"), Ecf=num("Ecf"))
    ex, ec = inp("eps_x", N, 1), inp("eps_c", N, 1)
    setattrs(p, e_x=num("Ex_mol"), epsilon_x=ex, e_c=num("Ec_mol"), epsilon_c=ec)
    p.ep_hxc()
    n = total(nf, pol)
    x, y = parts(p)

    def rest(value):
        s = sum([total(ds[t], pol) * value(t) for t, k in (x if ab else x + y) if t not in held]) / n
        s = s + mirrored(s) if ab else s
        return 2 * s if flip else s

    tag = " spins=%d ensemble=%s mirror=%s flip=%s" % (pol, ens, ab, flip) + "".join([" held " + t for t in held])
    check("Hartree" + tag, p.V.ep_h[:, 0], 0.5 * fun("HARTREE", g.Xa, n) - rest(lambda t: inp("eh_" + t, N)))
    check("exchange" + tag, p.V.ep_x[:, pol - 1], ex[:, 0] - rest(lambda t: inp("ex_" + t, N, 1)[:, 0]))
    check("correlation" + tag, p.V.ep_c[:, 0], ec[:, 0] - rest(lambda t: inp("ec_" + t, N, 1)[:, 0]))
    for t, k in both(p):
        check("share kept %s" % t + tag, k.Q, ds[t] / nf)


def clause_energy_densities():
    for pol in (1, 2):
        for ens in (False, True):
            density_of(pol, ens, False, False)
    density_of(2, True, False, True)
    density_of(2, False, False, True)


def clause_energy_densities_mirror():
    density_of(1, True, True, False)
    density_of(2, False, True, False)
    density_of(2, True, True, True)


def clause_energy_densities_held():
    """holding one fragment fixed leaves the part of the other one alone"""
    for pol, ens in ((1, False), (2, False), (1, True)):
        for held in (("a", "A"), ("b", "B")):
            density_of(pol, ens, False, False, held if ens else held[:1])


def clause_independent():
    for pol in (1, 2):
        p, g, N = prepare(pol, False, "exact", "ni")
        p.ep_hxc()
        check("no interaction energy, spins=%d" % pol, p.E.Ep_hxc, 0)


def clause_hartree_only():
    p, g, N = prepare(2, True, "hartree")
    p.ep_hxc()
    h, x, c = non_additive(g, p.nf, 2)
    check("Hartree part alone", p.E.Ep_hxc, h)


def clause_overlap_xc():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "overlap_xc")
            p.ep_hxc()
            h, x, c = non_additive(g, p.nf, pol)
            check("scaled exchange-correlation spins=%d ensemble=%s" % (pol, ens), p.E.Ep_hxc, h + F(p, pol) * (x + c))


def cor(x, y, N, pol, flip):
    """half the energy of the density of x in the Hartree potential of y"""
    n = inp("n_" + x, N, pol, pos=True)
    return integral(total(n, pol) * inp("vh_" + y, N)) / 2


def correlated(p, N, pol, ens, flip):
    s = lambda t: num("s_" + t, pos=True)
    if ens:
        return (2 if flip else 1) * sum([s(x) * cor(x, y, N, pol, False) for x, y in (("a", "B"), ("A", "b"), ("b", "A"), ("B", "a"))])
    if flip:
        return sum([2 * s(x) * cor(x, y, N, pol, True) for x, y in (("a", "b"), ("b", "a"))])
    return 0


def clause_overlap_hxc():
    for pol, ens, flip in ((1, False, False), (1, True, False), (2, True, False), (2, False, True), (2, False, False), (2, True, True)):
        p, g, N = prepare(pol, ens, "overlap_hxc", flip=flip)
        p.ep_hxc()
        h, x, c = non_additive(g, p.nf, pol)
        f = F(p, pol)
        k = correlated(p, N, pol, ens, flip)
        check("interpolated spins=%d ensemble=%s flip=%s" % (pol, ens, flip), p.E.Ep_hxc, f * (h + x + c) + (1 - f) * k)


def clause_correlated_hartree():
    for pol, ens, flip in ((1, False, False), (1, True, False), (2, True, False), (2, False, True), (2, False, False), (2, True, True)):
        p, g, N = prepare(pol, ens, "overlap_hxc", flip=flip)
        p.EnsCorHar()
        tag = " spins=%d ensemble=%s flip=%s" % (pol, ens, flip)
        check("energy" + tag, p.E.Ehcor, correlated(p, N, pol, ens, flip))
        other = {"a": "B", "A": "b", "b": "A", "B": "a"} if ens else {"a": "b", "b": "a"}
        for t, k in both(p):
            zero = not ens and not flip
            for j in range(pol):
                want = np.zeros(N) if zero else inp("vh_" + other[t], N)
                check("potential seen by %s spin %d" % (t, j) + tag, k.V.vhcor[:, j], want)


def clause_unknown():
    """an unsupported choice is refused, never silently replaced"""
    p, g, N = prepare(1, False, "exact")
    p.optPartition.hxc_part_type = "something"
    check_true("refused by the energy", raises(p.ep_hxc))
    check_true("refused by the potential", raises(p.vp_hxc))
