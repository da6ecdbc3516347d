import numpy as np
from speclibpart import *

FIELDS = ["vx", "vc", "vh", "vp", "ex", "ec", "eh"]
ENERGIES = ["E", "Ts", "Eks", "Enuc", "Ex", "Ec", "Eh", "Vhxc", "evals"]


def prepare(pol, ens):
    p, g, N = partition(pol, ens, 1, ab_sym=True)
    fill_density(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    for t, k in both(p):
        setattrs(k.V, vp=inp("vp_" + t, N, pol))
    return p, g, N


def clause_image():
    """after mirroring, every component of B is the image of its component of A"""
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens)
            p.mirrorAB()
            x, y = parts(p)
            for i in range(len(x)):
                t, k = x[i]
                s, l = y[i]
                tag = " of %s spins=%d ensemble=%s" % (s, pol, ens)
                check("density" + tag, l.n, mirrored(inp("n_" + t, N, pol, pos=True)))
                check("share" + tag, l.Q, mirrored(inp("Q_" + t, N, pol)))
                check("effective potential" + tag, l.veff, mirrored(inp("veff_" + t, N, pol)))
                check("partition potential" + tag, l.vext, mirrored(inp("vext_" + t, N, pol)))
                check("chemical potential" + tag, l.u, num("u_" + t))
                for f in ("vx", "vc", "vp"):
                    check(f + tag, getattr(l.V, f), mirrored(inp(f + "_" + t, N, pol)))
                vh = mirrored(inp("vh_" + t, N))
                for j in range(pol):
                    check("vh" + tag, l.V.vh[:, j], vh)
                for f in ("ex", "ec"):
                    check(f + tag, getattr(l.V, f), mirrored(inp(f + "_" + t, N, 1)))
                check("eh" + tag, l.V.eh, mirrored(inp("eh_" + t, N)))
                for e in ENERGIES:
                    check("energy %s" % e + tag, getattr(l.E, e), getattr(k.E, e))
                check("density of a kept" + tag, k.n, inp("n_" + t, N, pol, pos=True))
                check("potential of a kept" + tag, k.veff, inp("veff_" + t, N, pol))
                check("exchange of a kept" + tag, k.V.vx, inp("vx_" + t, N, pol))
                check("energy of a kept" + tag, k.E.E, num("E_" + t))


def clause_separate():
    """the image has arrays of its own: changing one side later does not change the other"""
    p, g, N = prepare(2, True)
    p.mirrorAB()
    x, y = parts(p)
    for i in range(len(x)):
        t, k = x[i]
        s, l = y[i]
        for name in ("n", "Q", "veff", "vext"):
            v = getattr(l, name)
            before = snap(getattr(k, name))
            v += 1
            check("%s of %s" % (name, t), getattr(k, name), before)
        l.E.E = 7
        l.E.Ts = 8
        check("energy of %s" % t, k.E.E, num("E_" + t))
        check("kinetic energy of %s" % t, k.E.Ts, num("Ts_" + t))


def clause_missing():
    """quantities that A does not have yet are left alone"""
    p, g, N = partition(2, True, 1, ab_sym=True)
    fill_density(p, N)
    for t, k in both(p):
        setattrs(k, Q=inp("Q_" + t, N, 2), veff=inp("veff_" + t, N, 2), vext=inp("vext_" + t, N, 2), u=num("u_" + t))
    p.mirrorAB()
    for s, l in parts(p)[1]:
        for f in FIELDS:
            check("%s of %s" % (f, s), hasattr(l.V, f), False)


def clause_twice():
    """mirroring is repeatable"""
    p, g, N = prepare(2, False)
    p.mirrorAB()
    p.mirrorAB()
    check("density", p.KSb.n, mirrored(inp("n_a", N, 2, pos=True)))
    check("density of a", p.KSa.n, inp("n_a", N, 2, pos=True))
