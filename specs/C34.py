import numpy as np
from speclibpart import *
from speclibsolver import solver


def hold(what, o, names):
    """remember the named attributes of an object"""
    return [[what + " " + t, o, t, snap(getattr(o, t))] for t in names]


def unchanged(tag, held):
    for t, o, name, old in held:
        check("%s: %s kept" % (tag, t), getattr(o, name), old)


def grid_state(g):
    return hold("grid", g, ["w", "f", "elap", "olap", "grada", "gradr", "diva", "divr", "Xa", "Xr", "hr", "ha", "a", "Nelem"])


def clause_grid():
    """functions of the grid change neither the grid nor their argument"""
    Na, Nr = 3, 2
    N = Na * Nr
    g = blank("Psgrid", Na=Na, Nr=Nr, Nelem=N, wi=inp("wi", N), w=inp("w", N), hr=num("hr"), ha=num("ha"), a=num("a", pos=True),
              grada=op("GA", N, N), gradr=op("GR", N, N), Xa=inp("Xa", N), Xr=inp("Xr", N), Z=inp("Z", N), Y=inp("Y", N))
    names = ["wi", "w", "hr", "ha", "a", "grada", "gradr", "Xa", "Xr", "Z", "Y", "Na", "Nr", "Nelem"]
    for pol in (0, 1, 2):
        for what in ("integrate", "mirror", "square", "spinflip", "sigma", "reduced_grad", "plotter"):
            if pol == 0 and what in ("spinflip", "sigma", "reduced_grad"):
                continue
            if pol == 2 and what == "plotter":
                continue
            f = inp("f", N, pol, pos=True) if pol else inp("f", N, pos=True)
            h = hold("grid", g, names)
            getattr(g, what)(f)
            unchanged("%s, %d columns" % (what, pol), h)
            check("%s, %d columns: argument kept" % (what, pol), f, inp("f", N, pol, pos=True) if pol else inp("f", N, pos=True))


SOLVER = ["phi", "eig", "veff", "H0", "N", "Nmo", "m", "pol"]


def solver_keeps(what, pol, m, fractional):
    g, N = basic_grid(wi=inp("wi", num("N", pos=True)))
    e = num("Ne", pos=True)
    s = solver(g, N, m, pol, fractional=fractional, electrons=5 if what in ("calc_response", "calc_ked_WFI") else e,
               Nmo=6 if what in ("calc_response", "calc_ked_WFI") else None)
    h = hold("solver", s, SOLVER) + grid_state(g)
    h = h + hold("options", s.optSolver, ["fractional", "iter_lin_solver", "tol_orbital", "tol_lin_solver", "disp"])
    getattr(s, what)()
    unchanged("%s spins=%d m=%d fractional=%s" % (what, pol, m, fractional), h)


def clause_solver():
    """quantities derived from the orbitals change neither orbitals nor levels nor potential"""
    for what in ("calc_density", "calc_energy", "get_homo", "calc_ked_WFI"):
        for pol in (1, 2):
            for m in (0, 1):
                for fractional in (False, True):
                    solver_keeps(what, pol, m, fractional)


def ks_state(k, extra=()):
    h = hold("calculation", k, ["n", "vext", "vnuc", "N", "Nmo", "Za", "Zb", "pol"] + list(extra))
    for i in range(k.solver.shape[0]):
        for j in range(k.pol):
            h = h + hold("solver %d%d" % (i, j), k.solver[i, j], ["phi", "eig", "veff"])
    return h


def ks(pol, **opt):
    k, g, N = kohnsham(2, pol, **opt)

    def energy_(self):
        self.eks, self.Ts, self.Vs = num("eks"), num("Ts"), num("Vs")
    stub("i_solver.calc_energy", energy_)

    def homo_(self):
        self.homo = -1.0 - self.m
        return self.homo
    stub("i_solver.get_homo", homo_)
    setattrs(k, n=inp("n", N, pol, pos=True), vext=inp("vext", N, pol), vhxc=inp("vhxc", N, pol), vnuc=inp("vnuc", N, pol))
    for i in range(2):
        for j in range(pol):
            setattrs(k.solver[i, j], phi=inp("phi%d%d" % (i, j), N, 2), eig=inp("eig%d%d" % (i, j), 2), veff=inp("v%d%d" % (i, j), N))
    return k, g, N


def clause_kohnsham():
    """energies, interaction potential and chemical potential are evaluated without side effects on density and orbitals"""
    for pol in (1, 2):
        for itype in ("dft", "ni"):
            for what in ("calc_hxc_potential", "energy", "calc_chempot"):
                if what == "calc_hxc_potential" and itype == "ni":
                    continue
                k, g, N = ks(pol, interaction_type=itype)
                h = ks_state(k, ["vhxc"] if what != "calc_hxc_potential" else []) + grid_state(g)
                getattr(k, what)()
                unchanged("%s %s spins=%d" % (what, itype, pol), h)


def clause_functionals():
    """Hartree and exchange-correlation leave the density alone"""
    for pol in (1, 2):
        g, N = basic_grid(blap=op("BL", num("N", pos=True), num("Na", pos=True)), bcN=num("Na", pos=True))
        n = inp("n", N, pol, pos=True)
        for fam in ("lda", "gga"):
            x = cls("Libxc")(g, fam, 1 if fam == "lda" else 101)
            x.get_xc(n)
            x.get_xc(n, True)
            check("%s spins=%d" % (fam, pol), n, inp("n", N, pol, pos=True))


def fragment_state(p, extra=()):
    h = []
    for t, k in both(p):
        h = h + hold(t, k, ["n", "scale", "Q", "veff", "vext", "vhxc", "u", "N", "Nmo"])
        h = h + hold(t + " potentials", k.V, ["vh", "vx", "vc", "eh", "ex", "ec"])
        h = h + hold(t + " energies", k.E, ["E", "Ts", "Eks", "Enuc", "Ex", "Ec", "Eh", "Vhxc", "evals"])
    return h + hold("partition", p, ["na_frac", "nb_frac", "nf", "Za", "Zb", "pol"] + list(extra)) + grid_state(p.grid)


def ready(pol, ens, **opt):
    p, g, N = partition(pol, ens, 1, **opt)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    setattrs(p.E, Ehf=num("Ehf"), Exf=num("Exf"), Ecf=num("Ecf"), Tsf=num("Tsf"), Ep_h=num("Ep_h"), Ep_x=num("Ep_x"), Ep_c=num("Ep_c"))
    e, eps, v = p.exchange.get_xc(p.nf, return_epsilon=True)
    setattrs(p, e_x=e, epsilon_x=eps)
    e, eps, v = p.correlation.get_xc(p.nf, return_epsilon=True)
    setattrs(p, e_c=e, epsilon_c=eps)
    stub("Partition.partition_energy", lambda self: setattrs(self.E, Ep=num("Ep")))
    return p, g, N


def clause_fragments():
    """partition energies and potentials are evaluated without side effects on the fragments"""
    for pol in (1, 2):
        for ens in (False, True):
            for part in ("exact", "hartree", "overlap_xc", "overlap_hxc"):
                p, g, N = ready(pol, ens, hxc_part_type=part, kinetic_part_type="vonweiz", interaction_type="dft")
                tag = " %s spins=%d ensemble=%s" % (part, pol, ens)
                h = fragment_state(p)
                p.ep_hxc()
                unchanged("interaction energy" + tag, h)
                if pol == 1 or not part.startswith("overlap"):
                    p, g, N = ready(pol, ens, hxc_part_type=part, kinetic_part_type="vonweiz", interaction_type="dft")
                    h = fragment_state(p)
                    p.vp_hxc()
                    unchanged("interaction potential" + tag, h)
            for kin in ("vonweiz", "libxcke", "none"):
                p, g, N = ready(pol, ens, hxc_part_type="exact", kinetic_part_type=kin)
                tag = " %s spins=%d ensemble=%s" % (kin, pol, ens)
                p.vp_kinetic()
                h = fragment_state(p)
                p.ep_kinetic()
                unchanged("kinetic energy" + tag, h)
                p, g, N = ready(pol, ens, hxc_part_type="exact", kinetic_part_type=kin)
                h = fragment_state(p)
                p.vp_kinetic()
                unchanged("kinetic potential" + tag, h)
            tag = " spins=%d ensemble=%s" % (pol, ens)
            p, g, N = ready(pol, ens)
            h = fragment_state(p)
            p.energy()
            unchanged("energies" + tag, h)
            p, g, N = ready(pol, ens)
            h = fragment_state(p)
            p.ep_nuclear()
            p.vp_nuclear()
            unchanged("nuclear parts" + tag, h)
            p, g, N = ready(pol, ens)
            h = fragment_state(p)
            p.EnsCorHar()
            unchanged("correlated Hartree" + tag, h)
