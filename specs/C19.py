import numpy as np
from speclibpart import *


def make_ks(opt, Nmo=None, N_=None, pol=2):
    g, N = basic_grid()
    leaf_stubs()
    return cls("Kohnsham")(g, num("Za", pos=True), num("Zb", pos=True), pol, levels(2, pol) if Nmo is None else Nmo,
                           electrons(2, pol) if N_ is None else N_, opt)


def potential(p):
    vp = inp("vp", p.grid.Nelem, p.pol)
    for k in (p.KSa, p.KSb, p.KSA, p.KSB) if p.ens else (p.KSa, p.KSb):
        setattrs(k.V, vp=vp)
    return vp


def quiet(p=None):
    """loops that would run if an option were let through"""
    stub("Psgrid.integrate", lambda self, f: np.ones(f.shape[1]) if len(f.shape) == 2 else 1)
    stub("Kohnsham.calc_density", lambda self, a=False, b=0, ITERATIVE=False, dif=0.0: inp("out", self.grid.Nelem, self.pol))
    stub("Kohnsham.calc_hxc_potential", lambda self: setattrs(self, vhxc=inp("vhxc", self.grid.Nelem, self.pol)))
    stub("Kohnsham.energy", lambda self: setattrs(self.E, E=1))
    stub("Kohnsham.calc_chempot", lambda self: setattrs(self, u=-1))
    stub("Partition.energy", lambda self: setattrs(self.E, E=1))
    stub("Partition.calc_protomolecule", lambda self: setattrs(self, nf=inp("nf", self.grid.Nelem, self.pol)))
    stub("Partition.calc_Q", lambda self: None)
    stub("Partition.partition_potential", potential)


def clause_unknown_refused():
    quiet()
    check_true("calculation", raises(make_ks, {"no_such_option": 1}))
    check_true("calculation, misspelt", raises(make_ks, {"xfuncid": 1, "cfunc_id": 2}))
    k, g, N = kohnsham()
    check_true("self consistent loop", raises(k.scf, {"no_such_option": 1}))
    check_true("self consistent loop, misspelt", raises(k.scf, {"disp": False, "max_iter": 3}))
    check_true("partition", raises(partition, no_such_option=1))
    p, g, N = partition(2)
    check_true("partition loop", raises(p.scf, {"no_such_option": 1}))
    check_true("partition loop, misspelt", raises(p.scf, {"disp": False, "maxiter": 3}))
    check_true("inverter", raises(inverter, {"no_such_option": 1}))
    check_true("accepted calculation", not raises(make_ks, {}))
    check_true("accepted partition", not raises(partition))
    check_true("accepted inverter", not raises(inverter, {}))


def inverter(opt):
    k, g, N = kohnsham()
    return cls("Inverter")(g, k.solver, opt)


def clause_values_refused():
    quiet()
    check_true("interaction", raises(make_ks, {"interaction_type": "hf"}))
    check_true("partition interaction", raises(partition, interaction_type="hf"))
    check_true("potential route", raises(partition, vp_calc_type="whole"))
    check_true("interaction part", raises(partition, hxc_part_type="approximate"))
    check_true("kinetic part", raises(partition, kinetic_part_type="thomas"))
    p, g, N = partition(2)
    check_true("kind of loop", raises(p.scf, {"calc_type": "dft"}))
    check_true("inversion", raises(inverter, {"invert_type": "direct"}))
    for a in ("pdft", "sdft"):
        check_true("accepts %s" % a, not raises(p.scf, {"calc_type": a, "max_iter": 0}))
    for a in ([0.1], [0.1, 0.2]):
        check_true("accepts %d mixing parameters" % len(a), not raises(p.scf, {"alpha": a, "max_iter": 0}))
    for a in ("wuyang", "orbitalinvert"):
        check_true("accepts %s" % a, not raises(inverter, {"invert_type": a}))
    check_true("three mixing parameters", raises(p.scf, {"alpha": [0.1, 0.2, 0.3], "max_iter": 0}))
    check_true("no mixing parameters", raises(p.scf, {"alpha": [], "max_iter": 0}))
    for a in ("dft", "ni"):
        check_true("accepts %s" % a, not raises(make_ks, {"interaction_type": a}))
        check_true("partition accepts %s" % a, not raises(partition, interaction_type=a))
    for a in ("exact", "overlap_hxc", "overlap_xc", "hartree"):
        check_true("accepts %s" % a, not raises(partition, hxc_part_type=a))
    for a in ("vonweiz", "inversion", "libxcke", "none", "twoorbital"):
        check_true("accepts %s" % a, not raises(partition, kinetic_part_type=a))


def clause_any_case():
    k = make_ks({"XFunc_ID": 7, "CFUNC_id": 9, "xc_FAMILY": "gga", "Sym": True, "FRACTIONAL": True, "INTERACTION_TYPE": "dft"})
    settings("mixed case", k, 7, 9, "gga", True, True)
    p, g, N = partition(2, False, 2, XFUNC_ID=7, Cfunc_id=9, XC_family="gga", SYM=True, Fractional=True, Hxc_Part_Type="hartree",
                        KINETIC_part_type="none", ENS_spin_SYM=True, Isolated=True)
    for n, i in both(p):
        settings("mixed case " + n, i, 7, 9, "gga", True, True)
    check("interaction part", p.optPartition.hxc_part_type, "hartree")
    check("kinetic part", p.optPartition.kinetic_part_type, "none")
    check("spin symmetric", p.optPartition.ens_spin_sym, True)
    check("isolated", p.optPartition.isolated, True)


def settings(tag, k, x, c, fam, sym, frac):
    check(tag + " exchange", k.exchange.func_id, x)
    check(tag + " correlation", k.correlation.func_id, c)
    check(tag + " exchange family", k.exchange.xc_family, fam)
    check(tag + " correlation family", k.correlation.xc_family, fam)
    check(tag + " symmetric", k.optKS.sym, sym)
    for i in range(k.Nmo.shape[0]):
        for j in range(k.Nmo.shape[1]):
            check(tag + " solver %d%d symmetric" % (i, j), k.solver[i, j].optSolver.sym, sym)
            check(tag + " solver %d%d fractional" % (i, j), k.solver[i, j].optSolver.fractional, frac)


def clause_forwarded():
    """every choice reaches the fragments and their orbital solvers, and the defaults are independent"""
    for sym in (True, False):
        for frac in (True, False):
            settings("ks", make_ks({"sym": sym, "fractional": frac, "xfunc_id": 3, "cfunc_id": 4}), 3, 4, "lda", sym, frac)
            for ens in (True, False):
                p, g, N = partition(2, ens, 2, sym=sym, fractional=frac, xfunc_id=3, cfunc_id=4, xc_family="gga")
                for n, i in both(p):
                    settings("fragment %s" % n, i, 3, 4, "gga", sym, frac)
                check("molecule exchange", p.exchange.func_id, 3)
                check("molecule correlation", p.correlation.func_id, 4)
                check("molecule exchange family", p.exchange.xc_family, "gga")
                check("molecule correlation family", p.correlation.xc_family, "gga")
    p, g, N = partition(1, True, 1, kinetic_part_type="libxcke", k_family="lda", ke_func_id=50)
    check("kinetic functional", p.kinetic.func_id, 50)
    check("kinetic family", p.kinetic.xc_family, "lda")
    p, g, N = partition(1, True, 1)
    for n, i in both(p):
        settings("default %s" % n, i, 1, 12, "lda", False, False)


def clause_argument_kept():
    o = {"XFUNC_ID": 3, "Sym": True}
    k = make_ks(o)
    check("options argument", o, {"XFUNC_ID": 3, "Sym": True})
    Nmo = levels(2, 2)
    N_ = electrons(2, 2)
    k = make_ks({}, Nmo, N_)
    check("levels argument", Nmo, levels(2, 2))
    check("electrons argument", N_, electrons(2, 2))


def clause_shapes():
    check_true("one spin against two", raises(make_ks, {}, levels(2, 1), electrons(2, 2)))
    check_true("two levels against one", raises(make_ks, {}, levels(2, 2), electrons(1, 2)))
    check_true("equal", not raises(make_ks, {}, levels(1, 2), electrons(1, 2)))


def clause_numbers():
    """each orbital solver receives its own level's number of orbitals and electrons and angular momentum"""
    for pol in (1, 2):
        mo = [[1 + 2 * i + j for j in range(pol)] for i in range(3)]
        k = make_ks({}, mo, electrons(3, pol), pol)
        for i in range(3):
            for j in range(pol):
                s = k.solver[i, j]
                tag = " level %d spin %d of %d" % (i, j, pol)
                check("momentum" + tag, s.m, i)
                check("spins" + tag, s.pol, pol)
                check("orbitals" + tag, s.Nmo, mo[i][j])
                check("electrons" + tag, s.N, electrons(3, pol)[i][j])
                for kind in ("dft", "ni"):
                    q = make_ks({"interaction_type": kind}, mo, electrons(3, pol), pol)
                    z = max(num("Za", pos=True), num("Zb", pos=True))
                    check("first guess %s" % kind + tag, q.solver[i, j].e0, -(1.5 if kind == "ni" else 1) * z ** 2 / (i + 1) ** 2)


def clause_unequal_mirror():
    g, N = basic_grid()
    leaf_stubs()

    def make(a, b, sym):
        return cls("Partition")(g, a, b, 1, [[1]], [[1]], 1.0, [[1]], [[1]], 1.0, {"ab_sym": sym})
    check_true("different nuclei with mirror symmetry", raises(make, 1, 2, True))
    check_true("different nuclei", not raises(make, 1, 2, False))
    check_true("equal nuclei with mirror symmetry", not raises(make, 2, 2, True))


def clause_solver_defaults():
    """without options the orbital solvers use whole occupations, no symmetrisation, and tight tolerances"""
    k = make_ks({})
    s = k.solver[0, 0].optSolver
    check("fractional", s.fractional, False)
    check("symmetric", s.sym, False)
    g, N = basic_grid()
    t = cls("i_solver")(g, 1, 1, 0, 2, {}).optSolver
    check("fractional by itself", t.fractional, False)
    check("symmetric by itself", t.sym, False)
    check_true("orbital tolerance", t.tol_orbital <= 1e-8)
    t = cls("i_solver")(g, 1, 1, 0, 2, {"Fractional": True, "SYM": True, "Tol_Orbital": 0.25, "iter_lin_solver": False}).optSolver
    check("fractional chosen", t.fractional, True)
    check("symmetric chosen", t.sym, True)
    check("orbital tolerance chosen", t.tol_orbital, 0.25)
    check("linear solver chosen", t.iter_lin_solver, False)
    check_true("orbital solver", raises(cls("i_solver"), g, 1, 1, 0, 2, {"tolerance": 1}))


def clause_defaults():
    """options left out: local density functionals, exact interaction part, von Weizsaecker kinetic part, and nothing switched on"""
    k = make_ks({})
    o = k.optKS
    check("interaction", o.interaction_type, "dft")
    check("functionals", [o.xc_family, o.xfunc_id, o.cfunc_id], ["lda", 1, 12])
    check("switches", [o.sym, o.fractional], [False, False])
    p, g, N = partition(2)
    o = p.optPartition
    check("partition interaction", o.interaction_type, "dft")
    check("parts", [o.vp_calc_type, o.hxc_part_type, o.kinetic_part_type], ["component", "exact", "vonweiz"])
    check("partition functionals", [o.xc_family, o.xfunc_id, o.cfunc_id], ["lda", 1, 12])
    check("partition switches", [o.sym, o.fractional, o.ab_sym, o.ens_spin_sym, o.isolated], [False] * 5)
    v = inverter({})
    o = v.optInv
    check("inversion", o.invert_type, "wuyang")
    check("inversion switches", [o.ab_sym, o.ens_spin_sym, o.use_iterative], [False, False, False])
    check_true("inversion tolerance", o.tol_invert <= 1e-8)
    check_true("inversion iterations", o.max_iter_invert >= 1)
