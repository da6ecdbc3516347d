import numpy as np
from speclibpart import *

PIECES = ["vp_pot", "vp_kin", "vp_hxc", "vp_h", "vp_x", "vp_c"]


def clause_nuclear():
    """each fragment feels the other nucleus"""
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = partition(pol, ens, 1)
            za, zb = num("Za", pos=True), num("Zb", pos=True)
            x = fun("COULOMB", g.Xa, za, 0)
            y = fun("COULOMB", g.Xa, 0, zb)
            for j in range(pol):
                check("molecule spin %d" % j, p.V.vext[:, j], x + y)
            check("shape", p.V.vext.shape, (N, pol))
            p.vp_nuclear()
            fa, fb = parts(p)
            for t, k in fa:
                for j in range(pol):
                    check("fragment %s feels b, spin %d of %d" % (t, j, pol), k.V.vp_pot[:, j], y)
            for t, k in fb:
                for j in range(pol):
                    check("fragment %s feels a, spin %d of %d" % (t, j, pol), k.V.vp_pot[:, j], x)


def prepare(pol, ens, **opt):
    p, g, N = partition(pol, ens, 1, **opt)
    fill_totals(p, N)
    fill_potential(p, N)

    def part(*names):
        def f(self):
            for t, k in both(self):
                for name in names:
                    setattr(k.V, name, inp(name + "_" + t, N, pol))
        return f

    stub("Partition.vp_nuclear", part("vp_pot"))
    stub("Partition.vp_kinetic", part("vp_kin"))
    stub("Partition.vp_hxc", part("vp_hxc", "vp_h", "vp_x", "vp_c"))
    return p, g, N


def average(p, N, pol, names):
    tot = 0
    for t, k in both(p):
        tot = tot + sum([inp(n + "_" + t, N, pol) for n in names]) * inp("Q_" + t, N, pol)
    return tot


def assembled(pol, ens, flip, mirror):
    p, g, N = prepare(pol, ens, ens_spin_sym=flip, ab_sym=mirror)
    got = p.partition_potential()
    tag = " spins=%d ensemble=%s flip=%s mirror=%s" % (pol, ens, flip, mirror)

    def sym(v):
        if flip:
            v = v + np.flip(v, axis=1)
        if mirror:
            v = 0.5 * (v + mirrored(v))
        return v

    whole = sym(average(p, N, pol, ["vp_pot", "vp_kin", "vp_hxc"]))
    check("returned potential" + tag, got, whole)
    check("stored potential" + tag, p.V.vp, whole)
    for n in PIECES:
        check(n + tag, getattr(p.V, n), sym(average(p, N, pol, [n])))
    for t, k in both(p):
        check("own potential of %s" % t + tag, k.V.vp, sum([inp(n + "_" + t, N, pol) for n in PIECES[:3]]))
        check("share of %s kept" % t + tag, k.Q, inp("Q_" + t, N, pol))
        for n in PIECES:
            check("%s of %s kept" % (n, t) + tag, getattr(k.V, n), inp(n + "_" + t, N, pol))


def clause_average():
    for pol in (1, 2):
        for ens in (False, True):
            assembled(pol, ens, False, False)


def clause_spin_symmetric():
    assembled(2, False, True, False)
    assembled(2, True, True, False)


def clause_mirror_symmetric():
    assembled(1, False, False, True)
    assembled(2, True, False, True)
    assembled(2, True, True, True)


def clause_again():
    """a second evaluation does not accumulate on the first"""
    p, g, N = prepare(2, True)
    p.partition_potential()
    got = p.partition_potential()
    check("second evaluation", got, average(p, N, 2, ["vp_pot", "vp_kin", "vp_hxc"]))
    for n in PIECES:
        check("second evaluation " + n, getattr(p.V, n), average(p, N, 2, [n]))
