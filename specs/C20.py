import numpy as np
from speclibpart import *


def clause_scale():
    for sym in (False, True):
        h = 2 if sym else 1
        p, g, N = partition(2, False, ens_spin_sym=sym)
        check("no ensemble a", p.KSa.scale, 1 / h)
        check("no ensemble b", p.KSb.scale, 1 / h)
        for x, y in ((0.25, 0.5), (1.0, 0.5), (0.75, 1.0), (0.0, 0.125), (0.999, 0.9999), (1.0, 0.9999), (0.9999, 1.0), (1e-6, 0.0), (0.0, 0.0)):
            p, g, N = partition(2, True, nu_a=x, nu_b=y, ens_spin_sym=sym)
            tag = " nu=%s,%s sym=%s" % (x, y, sym)
            check("lower a" + tag, p.KSa.scale, (1 - x) / h)
            check("upper a" + tag, p.KSA.scale, x / h)
            check("lower b" + tag, p.KSb.scale, (1 - y) / h)
            check("upper b" + tag, p.KSB.scale, y / h)


def clause_fragments():
    """every component has its own nucleus, electrons and orbitals"""
    for ens in (False, True):
        p, g, N = partition(2, ens, 2)
        za, zb = num("Za", pos=True), num("Zb", pos=True)
        for t, k in both(p):
            A = t == "a" or t == "A"
            check("first charge %s" % t, k.Za, za if A else 0)
            check("second charge %s" % t, k.Zb, 0 if A else zb)
            for i in range(2):
                for j in range(2):
                    check("electrons %s %d%d" % (t, i, j), k.N[i, j], num("N%s%d%d" % (t, i, j), pos=True))
                    check("solver electrons %s %d%d" % (t, i, j), k.solver[i, j].N, num("N%s%d%d" % (t, i, j), pos=True))
        check("molecule external potential", p.V.vext[:, 0], fun("COULOMB", g.Xa, za, 0) + fun("COULOMB", g.Xa, 0, zb))
        check("molecule external potential, second spin", p.V.vext[:, 1], p.V.vext[:, 0])
        check("potential of nucleus a", p.va, fun("COULOMB", g.Xa, za, 0))
        check("potential of nucleus b", p.vb, fun("COULOMB", g.Xa, 0, zb))


def molecule(pol, ens, sym):
    p, g, N = partition(pol, ens, 1, ens_spin_sym=sym)
    fill_density(p, N)
    p.calc_protomolecule()
    want = []
    for side in parts(p):
        n = sum([inp("n_" + t, N, pol, pos=True) * num("s_" + t, pos=True) for t, k in side])
        want.append(n + np.flip(n, axis=1) if sym else n)
    tag = " spins=%d ensemble=%s flip=%s" % (pol, ens, sym)
    check("fragment a" + tag, p.na_frac, want[0])
    check("fragment b" + tag, p.nb_frac, want[1])
    check("sum" + tag, p.nf, want[0] + want[1])
    for t, k in both(p):
        check("component kept " + t + tag, k.n, inp("n_" + t, N, pol, pos=True))


def clause_protomolecule():
    for ens in (False, True):
        molecule(1, ens, False)
        molecule(2, ens, False)
        molecule(2, ens, True)


def clause_protomolecule_renewed():
    p, g, N = partition(2, True, 1)
    fill_density(p, N)
    p.calc_protomolecule()
    n = snap(p.nf)
    p.calc_protomolecule()
    check("evaluating twice", p.nf, n)


def clause_weights():
    for ens in (False, True):
        for pol in (1, 2):
            p, g, N = partition(pol, ens, 1)
            fill_density(p, N)
            fill_totals(p, N)
            p.calc_Q()
            for t, k in both(p):
                want = num("s_" + t, pos=True) * inp("n_" + t, N, pol, pos=True) / inp("nf", N, pol, pos=True)
                check("share of %s spins=%d ensemble=%s" % (t, pol, ens), k.Q, want)


def clause_empty_space():
    """shares are defined where there is no density"""
    p, g, N = partition(2, True, 1)
    for t, k in both(p):
        setattrs(k, n=inp("n_" + t, N, 2), scale=num("s_" + t))
    setattrs(p, nf=inp("nf", N, 2))
    p.calc_Q()
    for t, k in both(p):
        check_guarded("share of %s" % t, k.Q, num("s_" + t) * inp("n_" + t, N, 2) / inp("nf", N, 2))


def clause_weights_sum():
    """shares of all components add up to one"""
    for ens in (False, True):
        for pol in (1, 2):
            p, g, N = partition(pol, ens, 1)
            fill_density(p, N)
            p.calc_protomolecule()
            p.calc_Q()
            q = sum([k.Q for t, k in both(p)])
            for j in range(pol):
                check("ensemble=%s spins=%d spin %d" % (ens, pol, j), q[:, j] * p.nf[:, j], p.nf[:, j])
