import numpy as np
from speclibpart import *
from speclibsolver import solver


def again(tag, make, load, run, outs):
    """an object that has evaluated other inputs before against one that has not"""
    a = make()
    load(a, "old")
    run(a, "old")
    load(a, "")
    ra = run(a, "")
    b = make()
    load(b, "")
    rb = run(b, "")
    if rb is not None:
        check(tag + ": result", ra, rb)
    xa, xb = outs(a), outs(b)
    for i in range(len(xb)):
        check(tag + ": " + xb[i][0], xa[i][1], xb[i][1])


def attrs(o, names, what=""):
    return [[what + t, getattr(o, t)] for t in names]


def none(o):
    return []


def clause_grid():
    Na, Nr = 3, 2
    N = Na * Nr

    def make():
        return blank("Psgrid", Na=Na, Nr=Nr, Nelem=N, wi=inp("wi", N), w=inp("w", N), hr=num("hr"), ha=num("ha"), a=num("a", pos=True),
                     grada=op("GA", N, N), gradr=op("GR", N, N), Xa=inp("Xa", N), Xr=inp("Xr", N), Z=inp("Z", N), Y=inp("Y", N))
    for what in ("integrate", "mirror", "square", "spinflip", "sigma", "reduced_grad"):
        for pol in (0, 1, 2):
            if pol == 0 and what in ("spinflip", "sigma", "reduced_grad"):
                continue
            for before in (0, 1, 2):
                if before == 0 and what in ("spinflip", "sigma", "reduced_grad"):
                    continue

                def run(g, k):
                    p = before if k == "old" else pol
                    return getattr(g, what)(inp("f" + k, N, p, pos=True) if p else inp("f" + k, N, pos=True))
                again("%s of %d columns after %d" % (what, pol, before), make, lambda g, k: None, run, none)


def clause_initialised():
    """a grid whose box was changed and that is initialised again is that of the new box"""
    loc = np.array([-2, -1, 0, 1, 2])
    for NP, NM, new in ((3, [1, 2], [1, 2]), (3, [2, 1], [1, 2])):
        stub("Psgrid.factorize_laplacian", lambda self, d=None: None)
        g = cls("Psgrid")(NP, NM, num("a0", pos=True), num("L0", pos=True), loc)
        g.initialize()
        setattrs(g, a=num("a", pos=True), L=num("L", pos=True), NMa=new[0], NMr=new[1])
        g.initialize()
        h = cls("Psgrid")(NP, new, num("a", pos=True), num("L", pos=True), loc)
        h.initialize()
        for t in ("Na", "Nr", "Nelem", "ha", "hr", "xa", "xr", "Xa", "Xr", "bXa", "bXr", "Z", "Y", "w", "wi", "f", "h1", "h2", "h3"):
            check("blocks %d %d: %s" % (NM[0], NM[1], t), getattr(g, t), getattr(h, t))
        for t in ("eDa1", "oDa2", "eDr2", "oDr1", "bc1", "bc2"):
            check("blocks %d %d: %s" % (NM[0], NM[1], t), getattr(g, t), getattr(h, t))
        for t in ("elap", "olap", "blap", "grada", "gradr", "diva", "divr"):
            check("blocks %d %d: %s" % (NM[0], NM[1], t), getattr(g, t).toarray(), getattr(h, t).toarray())


RESULTS = {"calc_density": ["n"], "calc_energy": ["eks", "Ts", "Vs"], "get_homo": ["homo"], "calc_ked_WFI": ["ked_WFI"], "calc_response": ["chi"]}


def clause_solver():
    for what in ("calc_density", "calc_energy", "get_homo", "calc_ked_WFI", "calc_response"):
        for pol in (1, 2):
            for m in (0, 1):
                for fractional in (False, True):
                    g, N = basic_grid(wi=inp("wi", num("N", pos=True)))
                    e = 6 if what == "calc_energy" else 5

                    def make():
                        return solver(g, N, m, pol, fractional=fractional, electrons=e, Nmo=6)

                    def load(s, k):
                        setattrs(s, phi=inp("phi" + k, N, 6), eig=inp("eig" + k, 6), veff=inp("veff" + k, N))

                    def run(s, k):
                        getattr(s, what)()
                    again("%s spins=%d m=%d fractional=%s" % (what, pol, m, fractional), make, load, run, lambda s: attrs(s, RESULTS[what]))


def clause_orbitals():
    """the operator that is diagonalised does not depend on earlier diagonalisations"""
    for pol in (1, 2):
        for m in (0, 1, 2):
            for first in ([-2, -1], [-30, -1]):
                g, N = basic_grid()
                calls = []

                def eigs(A, k=6, **kw):
                    calls.append((A, k, kw))
                    return np.array(first), inp("v%d" % len(calls), N, 2)
                stub("scipy.sparse.linalg.eigs", eigs)
                stub("numpy.isnan", lambda x: False * x)
                s = solver(g, N, m, pol, Nmo=2)
                t = solver(g, N, m, pol, Nmo=2)
                s.calc_orbitals()
                for a in (s, t):
                    a.setveff(inp("other", N))
                    a.calc_orbitals()
                tag = " spins=%d m=%d" % (pol, m)
                check("operator" + tag, calls[1][0], calls[2][0])
                check("number of states" + tag, calls[1][1], calls[2][1])
                check("target energy" + tag, calls[1][2]["sigma"], calls[2][2]["sigma"])
                check("start vector" + tag, calls[1][2]["v0"], calls[2][2]["v0"])
                check("base operator" + tag, s.H0, t.H0)


def clause_iterated():
    """the correction of an orbital does not depend on earlier corrections"""
    for direct in (False, True):
        for m in (0, 1):
            g, N = basic_grid()
            calls = []

            def solve(A, b, **kw):
                calls.append((A, b))
                return inp("x%d" % len(calls), N + 1)
            stub("scipy.sparse.linalg.spsolve", solve)
            stub("scipy.sparse.linalg.bicgstab", lambda A, b, **kw: (solve(A, b), 0))
            stub("scipy.sparse.linalg.spilu", lambda A, *a, **kw: obj("ilu", solve=None))
            stub("scipy.sparse.linalg.LinearOperator", lambda *a, **kw: None)
            stub("i_solver.normalize_orbitals", lambda self: None)
            stub("numpy.amax", lambda x, axis=None: np.array([1]))
            stub("numpy.max", lambda x, axis=None: np.array([1]))
            s = solver(g, N, m, 2, Nmo=1, phi=inp("phi", N, 1), eig=inp("eig", 1))
            t = solver(g, N, m, 2, Nmo=1)
            for a in (s, t):
                a.optSolver.iter_lin_solver = not direct
                a.optSolver.tol_orbital = 0.5
            s.iter_orbitals()
            for a in (s, t):
                setattrs(a, veff=inp("other", N), phi=inp("q", N, 1), eig=inp("e", 1))
                a.iter_orbitals()
            tag = " m=%d direct=%s" % (m, direct)
            check("matrix" + tag, calls[1][0], calls[2][0])
            check("right-hand side" + tag, calls[1][1], calls[2][1])
            check("base operator" + tag, s.H0, t.H0)


def energies(self):
    self.eks, self.Ts, self.Vs = fun("EKS", None, self.phi), fun("TS", None, self.phi), fun("VS", None, self.phi)


def highest(self):
    self.homo = self.eig[-1]
    return self.homo


def clause_kohnsham():
    for pol in (1, 2):
        for itype in ("dft", "ni"):
            for sym in (False, True):
                stub("i_solver.calc_energy", energies)
                stub("i_solver.get_homo", highest)

                def make():
                    return kohnsham(2, pol, interaction_type=itype, sym=sym)[0]

                def load(k, s):
                    N = k.grid.Nelem
                    setattrs(k, n=inp("n" + s, N, pol, pos=True), vext=inp("vext" + s, N, pol))
                    if itype == "ni":
                        setattrs(k, vhxc=np.zeros((N, pol)))
                    for i in range(2):
                        for j in range(pol):
                            setattrs(k.solver[i, j], phi=inp("phi%d%d%s" % (i, j, s), N, 2), eig=inp("eig%d%d%s" % (i, j, s), 2))

                def run(k, s):
                    if itype == "dft":
                        k.calc_hxc_potential()
                    k.set_effective_potential()
                    k.energy()
                    k.calc_chempot()

                def outs(k):
                    r = attrs(k, ["veff", "vhxc", "u"]) + attrs(k.E, ["E", "Eks", "Ts", "Enuc"] + (["Ex", "Ec", "Eh"] if itype == "dft" else []), "energy ")
                    for i in range(2):
                        for j in range(pol):
                            r = r + [["potential of solver %d%d" % (i, j), k.solver[i, j].veff]]
                    return r
                again("%s spins=%d sym=%s" % (itype, pol, sym), make, load, run, outs)

                def load_all(k, s):
                    load(k, s)
                    setattrs(k, vhxc=inp("vhxc" + s, k.grid.Nelem, pol))
                again("%s spins=%d sym=%s energy alone" % (itype, pol, sym), make, load_all, lambda k, s: k.energy(),
                      lambda k: attrs(k.E, ["E", "Eks", "Ts", "Enuc", "Vext"] + (["Ex", "Ec", "Eh", "Vhxc"] if itype == "dft" else [])))


def clause_kohnsham_density():
    def orbitals(self, solver_id=None, return_dict=None):
        self.phi = fun("PHI", None, self.veff)
        self.eig = fun("EIG", np.zeros(2), self.veff)
        if return_dict is not None:
            return_dict[solver_id] = [self.eig, self.phi]

    for pol in (1, 2):
        for sym in (False, True):
            stub("i_solver.calc_orbitals", orbitals)
            stub("i_solver.calc_density", lambda self: setattrs(self, n=inp("N", self.grid.Nelem, 1) * self.phi))

            def make():
                return kohnsham(2, pol, sym=sym)[0]

            def load(k, s):
                k.set_veff_external(inp("v" + s, k.grid.Nelem, pol))
            again("spins=%d sym=%s" % (pol, sym), make, load, lambda k, s: k.calc_density(), none)


def clause_functionals():
    for fam in ("lda", "gga"):
        for pol in (1, 2):
            for before in (1, 2):
                g, N = basic_grid()

                def run(x, k):
                    p = before if k == "old" else pol
                    e, eps, v = x.get_xc(inp("n" + k, N, p, pos=True), return_epsilon=True)
                    return [e, eps, v]
                again("%s spins=%d after %d" % (fam, pol, before), lambda: cls("Libxc")(g, fam, 1 if fam == "lda" else 101), lambda x, k: None, run, none)


def clause_hartree():
    from scipy.sparse import csc_matrix
    Na, Nr, Nb = 3, 3, 2
    N = Na * Nr
    g = blank("Psgrid", Na=Na, Nr=Nr, Nelem=N, bcN=Nb, a=num("a", pos=True), w=inp("w", N), Xa=inp("Xa", N), Xr=inp("Xr", N),
              bXa=inp("bXa", Na * Nb), bXr=inp("bXr", Na * Nb), elap=op("E", N, N), olap=op("O", N, N),
              blap=csc_matrix(inp("B", Na * Nb, Na * Nb)), DISP=False)
    stub("Psgrid.integrate", lambda self, f: np.sum(inp("q", N) * f))
    g.factorize_laplacian(False)
    for pol in (1, 2):
        for before in (3 - pol,):
            def run(h, k):
                p = before if k == "old" else pol
                return h.v_hartree(inp("n" + k, N, p) if p else inp("n" + k, N))
            again("spins=%d after %d" % (pol, before), lambda: cls("Hartree")(g), lambda h, k: None, run, none)


def filled_partition(pol, ens, **opt):
    def make():
        return partition(pol, ens, 1, **opt)[0]
    return make


def fill(p, s):
    """densities, potentials and energies of all components"""
    fill_parts(p, s, both(p))


def fill_first(p, s):
    """the same for fragment A alone"""
    fill_parts(p, s, parts(p)[0])


def fill_parts(p, s, what):
    N = p.grid.Nelem
    pol = p.pol
    for t, k in what:
        t = t + s
        vh = inp("vh_" + t, N)
        setattrs(k, n=inp("n_" + t, N, pol, pos=True), Q=inp("Q_" + t, N, pol), veff=inp("veff_" + t, N, pol), vext=inp("vext_" + t, N, pol),
                 vhxc=inp("vhxc_" + t, N, pol), u=num("u_" + t))
        setattrs(k.V, vh=np.array([vh for j in range(pol)]).T, vx=inp("vx_" + t, N, pol), vc=inp("vc_" + t, N, pol),
                 eh=inp("eh_" + t, N), ex=inp("ex_" + t, N, 1), ec=inp("ec_" + t, N, 1))
        setattrs(k.E, E=num("E_" + t), Ts=num("Ts_" + t), Eks=inp("Eks_" + t, 1, pol), Enuc=num("Enuc_" + t), Ex=num("Ex_" + t),
                 Ec=num("Ec_" + t), Eh=num("Eh_" + t), Vhxc=num("Vhxc_" + t), evals=inp("ev_" + t, 2))


def shares(p):
    r = attrs(p, ["na_frac", "nb_frac", "nf"])
    for t, k in both(p):
        r = r + [["share " + t, k.Q]]
    return r


def clause_totals():
    for pol in (1, 2):
        for ens in (False, True):
            for flip in ((False, True) if pol == 2 else (False,)):
                def run(p, s):
                    p.calc_protomolecule()
                    p.calc_Q()
                again("spins=%d ensemble=%s spin symmetric=%s" % (pol, ens, flip), filled_partition(pol, ens, ens_spin_sym=flip), fill, run, shares)


def potentials(p):
    r = []
    for t, k in both(p):
        r = r + attrs(k.V, ["vp", "vp_h", "vp_x", "vp_c", "vp_kin", "vp_pot"], t + " ")
    return r


def clause_partition_potential():
    for pol in (1, 2):
        for ens in (False, True):
            for part in ("exact", "hartree", "overlap_xc", "overlap_hxc"):
                for kin in (("vonweiz", "libxcke", "none") if part == "exact" else ("vonweiz",)):
                    for flip in ((False, True) if pol == 2 and part == "exact" else (False,)):
                        def run(p, s):
                            p.calc_protomolecule()
                            p.calc_Q()
                            return p.partition_potential()
                        again("%s %s spins=%d ensemble=%s spin symmetric=%s" % (part, kin, pol, ens, flip),
                              filled_partition(pol, ens, hxc_part_type=part, kinetic_part_type=kin, ens_spin_sym=flip), fill, run, potentials)


def clause_partition_energy():
    for pol in (1, 2):
        for ens in (False, True):
            for part in ("exact", "hartree", "overlap_xc", "overlap_hxc"):
                for kin in (("vonweiz", "libxcke", "none") if part == "exact" else ("vonweiz",)):
                    def make():
                        return partition(pol, ens, 1, hxc_part_type=part, kinetic_part_type=kin)[0]

                    def run(p, s):
                        p.calc_protomolecule()
                        p.calc_Q()
                        p.partition_potential()
                        p.energy()

                    def outs(p):
                        return attrs(p.E, ["E", "Ea", "Eb", "Ef", "Ep", "Ep_pot", "Ep_kin", "Ep_hxc", "Tsf", "Eksf", "Enucf", "Exf", "Ecf", "Ehf"])
                    again("%s %s spins=%d ensemble=%s" % (part, kin, pol, ens), make, fill, run, outs)


def clause_overlap_current():
    """the overlap factor of the energy belongs to the densities of the energy, not to those of the potential before them"""
    for pol in (1, 2):
        for ens in (False, True):
            for part in ("overlap_xc", "overlap_hxc"):
                tag = "%s spins=%d ensemble=%s " % (part, pol, ens)
                a = partition(pol, ens, 1, hxc_part_type=part, kinetic_part_type="none")[0]
                fill(a, "old")
                a.calc_protomolecule()
                a.calc_Q()
                a.partition_potential()
                fill(a, "")
                a.calc_protomolecule()
                a.calc_Q()
                a.energy()
                b = partition(pol, ens, 1, hxc_part_type=part, kinetic_part_type="none")[0]
                fill(b, "")
                b.calc_protomolecule()
                b.calc_Q()
                b.vp_overlap()
                check(tag + "overlap", a.E.S, b.E.S)
                check(tag + "factor", a.E.F, b.E.F)
                if part == "overlap_hxc":
                    b.EnsCorHar()
                    check(tag + "correlated Hartree energy", a.E.Ehcor, b.E.Ehcor)


def clause_mirror():
    for pol in (1, 2):
        for ens in (False, True):
            def run(p, s):
                p.mirrorAB()

            def outs(p):
                r = []
                for t, k in parts(p)[1]:
                    r = r + attrs(k, ["n", "veff", "vext", "u"], t + " ") + attrs(k.E, ["E", "Ts", "Eks", "Enuc", "Ex", "Ec", "Eh", "Vhxc"], t + " energy ")
                    r = r + attrs(k.V, ["vh", "vx", "vc", "eh", "ex", "ec"], t + " potential ")
                return r
            again("spins=%d ensemble=%s" % (pol, ens), filled_partition(pol, ens, ab_sym=True), fill_first, run, outs)


def clause_inverted():
    """kinetic energy, its density and the kinetic potential of an inverted density"""
    for pol in (1, 2):
        stub("i_solver.calc_energy", energies)
        stub("i_solver.calc_ked_WFI", lambda self: setattrs(self, ked_WFI=inp("K", self.grid.Nelem, 1) * self.phi[:, :1]))

        def make():
            k, g, N = kohnsham(2, pol)
            return cls("Inverter")(g, k.solver, {})

        def load(v, s):
            N = v.grid.Nelem
            setattrs(v, vs=inp("vs" + s, N, pol), us=inp("us" + s, 1, pol))
            for i in range(2):
                for j in range(pol):
                    setattrs(v.solver[i, j], phi=inp("phi%d%d%s" % (i, j, s), N, 2), eig=inp("eig%d%d%s" % (i, j, s), 2))
        again("kinetic energy spins=%d" % pol, make, load, lambda v, s: v.get_Ts(), none)
        again("kinetic energy density spins=%d" % pol, make, load, lambda v, s: v.get_ts_WFI(), none)
        again("kinetic potential spins=%d" % pol, make, load, lambda v, s: v.get_vt(), none)


def solved(g, N):
    """orbitals, density and levels as functions of the potential"""
    def orbitals(self, solver_id=None, return_dict=None):
        self.phi = fun("PHI", self.veff, self.m, self.veff)
        self.eig = fun("EIG", np.zeros(2), self.m, self.veff)
        if return_dict is not None:
            return_dict[solver_id] = [self.eig, self.phi]

    def energy(self):
        self.eks, self.Ts, self.Vs = fun("EKS", None, self.m, self.phi), fun("TS", None, self.m, self.phi), fun("VS", None, self.m, self.phi)

    def homo(self):
        self.homo = self.eig[1]
        return self.eig[1]

    stub("Psgrid.integrate", lambda self, f: np.sum(inp("wi", N)[:, None] * f, axis=0) if len(f.shape) == 2 and f.shape[1] > 1 else (np.sum(inp("wi", N) * (f if len(f.shape) == 1 else f[:, 0]))))
    stub("i_solver.hamiltonian", lambda self: setattrs(self, H0=op("H0", N, N)))
    stub("i_solver.calc_orbitals", orbitals)
    stub("i_solver.calc_density", lambda self: setattrs(self, n=fun("DENS", self.phi, self.m, self.phi)[:, None]))
    stub("i_solver.calc_energy", energy)
    stub("i_solver.get_homo", homo)


def clause_restart():
    """a calculation started anew on objects that have done another one"""
    for pol in (1, 2):
        def make():
            k, g, N = kohnsham(1, pol)
            solved(g, N)
            return k

        def run(k, s):
            k.scf({"disp": False, "maxiter": 2, "iterative": False, "alpha": 0.25 if s == "old" else 0.5})

        def outs(k):
            return attrs(k, ["n", "veff", "vhxc", "vext", "u"]) + attrs(k.E, ["E", "Eks", "Ts", "Enuc", "Ex", "Ec", "Eh"], "energy ")
        again("Kohn-Sham spins=%d" % pol, make, lambda k, s: None, run, outs)


def clause_restart_partition():
    """a partition calculation started anew on fragments that have done another one"""
    for pol in (1, 2):
        for ens in (False, True):
            for part in ("exact", "overlap_hxc"):
                def make():
                    p, g, N = partition(pol, ens, 1, hxc_part_type=part, kinetic_part_type="vonweiz" if part == "exact" else "none")
                    solved(g, N)
                    return p

                def run(p, s):
                    p.scf({"disp": False, "max_iter": 1, "iterative": False, "alpha": [0.25] if s == "old" else [0.5], "freeze_a": s == "old"})

                def outs(p):
                    r = attrs(p, ["nf", "na_frac", "nb_frac"]) + attrs(p.E, ["E", "Ea", "Eb", "Ef", "Ep"], "energy ")
                    for t, k in both(p):
                        r = r + attrs(k, ["n", "veff", "vhxc", "vext", "u", "Q"], t + " ") + attrs(k.E, ["E", "Eks", "Ts", "Enuc", "Ex", "Ec", "Eh"], t + " energy ")
                    return r
                again("%s spins=%d ensemble=%s" % (part, pol, ens), make, lambda p, s: None, run, outs)
