import numpy as np
from speclibpart import *


def light():
    """grid, functionals and eigensolver as free values: only what is set and read matters here"""
    g, N = basic_grid(wi=inp("wi", num("N", pos=True)), factor=None)
    stub("coulomb", lambda grid, Za, Zb: inp("vnuc", grid.Nelem))
    stub("Psgrid.integrate", lambda self, f: np.ones((self.Nelem, f.shape[1])) if len(f.shape) == 2 and f.shape[1] > 1 else 1)
    stub("Hartree.v_hartree", lambda self, n: inp("vh", self.grid.Nelem, 1 if len(n.shape) == 1 else n.shape[1]))

    def xc(self, n, return_epsilon=False):
        v = inp("vxc", self.grid.Nelem, n.shape[1])
        if return_epsilon is True:
            return 1, inp("eps", self.grid.Nelem, 1), v
        return 1, v

    def ke(self, n, return_epsilon=False):
        return xc(self, n, return_epsilon)

    def orbitals(self, solver_id=None, return_dict=None):
        self.eig = inp("eig", self.Nmo)
        self.phi = inp("phi", self.grid.Nelem, self.Nmo)
        if return_dict is not None:
            return_dict[solver_id] = [self.eig, self.phi]

    def refine(self, solver_id=None, return_dict=None):
        """needs the orbitals, levels, Hamiltonian and potential of before"""
        if self.phi is None or self.eig is None:
            self.calc_orbitals()
        used = [self.H0 @ self.veff, self.phi * self.eig, self.veff * 1]
        orbitals(self, solver_id, return_dict)

    stub("Libxc.get_xc", xc)
    stub("i_solver.hamiltonian", lambda self: setattrs(self, H0=op("H0", self.grid.Nelem, self.grid.Nelem)))
    stub("i_solver.calc_orbitals", orbitals)
    stub("i_solver.iter_orbitals", refine)
    stub("i_solver.normalize_orbitals", lambda self: None)
    return g, N


def works(tag, f, *args):
    return completes(tag + " finds everything it reads", f, *args)


def clause_atoms():
    for kind in ("dft", "ni"):
        for pol in (1, 2):
            for sym in (False, True):
                tag = "%s spins=%d sym=%s" % (kind, pol, sym)
                g, N = light()
                k = cls("Kohnsham")(g, 1, 1, pol, [[1] * pol], [[1] * pol], {"interaction_type": kind, "sym": sym})
                works(tag, k.scf, {"disp": False, "maxiter": 3, "iterative": False})
                works(tag + ", continued", k.scf, {"disp": False, "maxiter": 3, "iterative": True, "continuing": True})


def molecule(pol, ens, nl=1, **opt):
    g, N = light()
    o = [[1] * pol for i in range(nl)]
    if ens:
        p = cls("Partition")(g, 1, 1, pol, [o, o], [o, o], 0.5, [o, o], [o, o], 0.5, opt)
    else:
        p = cls("Partition")(g, 1, 1, pol, o, o, 1.0, o, o, 1.0, opt)
    return p, g, N


def named(pol, ens, opt):
    return "spins=%d ensemble=%s " % (pol, ens) + " ".join(["%s=%s" % (k, v) for k, v in opt.items()])


def fresh(pol, ens, loop=None, **opt):
    """a first calculation, and one that continues it"""
    tag = named(pol, ens, opt) + ("" if loop is None else " " + " ".join(["%s=%s" % (k, v) for k, v in loop.items()]))
    p, g, N = molecule(pol, ens, 1, **opt)
    o = {"disp": False, "max_iter": 1}
    if loop is not None:
        o.update(loop)
    if works(tag, p.scf, o):
        o["continuing"] = True
        works(tag + ", continued", p.scf, o)


def clause_exact():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, hxc_part_type="exact", kinetic_part_type="vonweiz")


def clause_hartree():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, hxc_part_type="hartree", kinetic_part_type="none")


def clause_overlap_xc():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, hxc_part_type="overlap_xc", kinetic_part_type="none")


def clause_overlap_hxc():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, hxc_part_type="overlap_hxc", kinetic_part_type="none")


def clause_surprisal():
    fresh(2, False, hxc_part_type="surprisal", kinetic_part_type="none")


def clause_functional():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, kinetic_part_type="libxcke", ke_func_id=5)


def clause_orbital_pair():
    fresh(1, False, kinetic_part_type="twoorbital")
    fresh(1, True, kinetic_part_type="twoorbital")


def clause_non_interacting():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, interaction_type="ni", kinetic_part_type="vonweiz")
            fresh(pol, ens, interaction_type="ni", kinetic_part_type="none", hxc_part_type="exact")


def clause_mirror():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, ab_sym=True)
            fresh(pol, ens, ab_sym=True, hxc_part_type="overlap_hxc", kinetic_part_type="none")


def clause_spin_symmetry():
    for ens in (False, True):
        for ab in (False, True):
            fresh(2, ens, ens_spin_sym=True, ab_sym=ab)
            fresh(2, ens, ens_spin_sym=True, ab_sym=ab, hxc_part_type="overlap_hxc", kinetic_part_type="none")


def clause_isolated():
    """isolated fragments first, then the molecule from there"""
    for pol in (1, 2):
        for ens in (False, True):
            for hxc in ("exact", "overlap_xc", "overlap_hxc"):
                for sym in ((False, True) if hxc == "overlap_hxc" else (False,)):
                    p, g, N = molecule(pol, ens, 1, hxc_part_type=hxc, isolated=True, ab_sym=sym)
                    tag = named(pol, ens, {"hxc": hxc, "ab_sym": sym})
                    if works(tag + ": isolated", p.scf, {"disp": False, "max_iter": 1}):
                        p.optPartition.isolated = False
                        works(tag + ": from isolated", p.scf, {"disp": False, "max_iter": 1, "continuing": True})


def clause_frozen():
    for pol in (1, 2):
        for ens in (False, True):
            fresh(pol, ens, {"freeze_a": True})
            fresh(pol, ens, {"freeze_b": True}, hxc_part_type="overlap_hxc")


def clause_target():
    """a total density given by the user"""
    for pol in (1, 2):
        for ens in (False, True):
            for hxc in ("exact", "overlap_hxc"):
                p, g, N = molecule(pol, ens, 1, hxc_part_type=hxc)
                setattrs(p, nf=inp("nf", N, pol))
                works(named(pol, ens, {"hxc": hxc}) + " target density", p.scf, {"disp": False, "max_iter": 1, "from_target_density": True})


def clause_subsystem():
    for pol in (1, 2):
        fresh(pol, False, {"calc_type": "sdft"})
        fresh(pol, False, {"calc_type": "sdft"}, hxc_part_type="overlap_xc")


def clause_levels():
    """several angular momenta per fragment"""
    for pol in (1, 2):
        for ens in (False, True):
            tag = "levels=2 " + named(pol, ens, {})
            p, g, N = molecule(pol, ens, 2, hxc_part_type="overlap_hxc")
            if works(tag, p.scf, {"disp": False, "max_iter": 1}):
                works(tag + ", continued", p.scf, {"disp": False, "max_iter": 1, "continuing": True})


def clause_mixing_and_tolerance():
    fresh(2, False, {"alpha": [0.5, 0.25]})
    fresh(2, False, {"auto_tol": True})
    fresh(1, True, {"auto_tol": True, "iterative": True})


def exact_kinetic(pol, ens, kind, **opt):
    """the inversion leaves its potential, chemical potential and the state of its solvers"""
    p, g, N = molecule(pol, ens, 1, kinetic_part_type="inversion", **opt)
    setattrs(g, hr=num("hr", pos=True), ha=num("ha", pos=True))
    two = func("Pssolver")(g, [[2] * pol], [[2] * pol], {})
    p.inverter = cls("Inverter")(g, two, {"invert_type": kind, "disp": False, "ens_spin_sym": opt.get("ens_spin_sym", False), "ab_sym": opt.get("ab_sym", False)})

    def inversion(self, n0, *rest):
        setattrs(self, vs=inp("vs", N, pol), us=inp("us", 1, pol))
        info = np.empty((1, 1), dtype=object)
        info[0, 0] = blank("inversion_info", nfev=3, optimality=0)
        for j in range(pol):
            s = self.solver[0, j]
            s.hamiltonian()
            s.setveff(self.vs[:, j])
            s.calc_orbitals()
            s.calc_density()
            s.get_homo()
        return True, info

    stub("Inverter.orbitalinvert", inversion)
    stub("Inverter.linresponse", inversion)
    if works(named(pol, ens, opt) + " " + kind, p.scf, {"disp": False, "max_iter": 1}):
        works(named(pol, ens, opt) + " " + kind + ", continued", p.scf, {"disp": False, "max_iter": 1, "continuing": True})


def clause_exact_kinetic():
    for kind in ("wuyang", "orbitalinvert"):
        for pol in (1, 2):
            for ens in (False, True):
                exact_kinetic(pol, ens, kind)
        exact_kinetic(2, True, kind, ens_spin_sym=True)
        exact_kinetic(1, False, kind, ab_sym=True)
        exact_kinetic(2, False, kind, ab_sym=True, ens_spin_sym=True)


def matrix(hxc, spin):
    """all combinations of the options of a first calculation that change what is computed when"""
    pol = 1 if spin == "one" else 2
    for ens in (False, True):
        for ab in (False, True):
            for kin in ("vonweiz", "libxcke", "none"):
                for calc in ("pdft", "sdft"):
                    for isolated in (False, True):
                        for freeze in ("no", "a", "b"):
                            if freeze != "no" and kin != "vonweiz":
                                continue
                            opt = {"hxc_part_type": hxc, "kinetic_part_type": kin, "ab_sym": ab, "isolated": isolated, "ens_spin_sym": spin == "symmetric"}
                            p, g, N = molecule(pol, ens, 1, **opt)
                            works(named(pol, ens, opt) + " " + calc + " frozen=" + freeze, p.scf,
                                  {"disp": False, "max_iter": 1, "calc_type": calc, "freeze_a": freeze == "a", "freeze_b": freeze == "b"})


def clause_matrix_exact_one():
    matrix("exact", "one")


def clause_matrix_exact_two():
    matrix("exact", "two")


def clause_matrix_exact_symmetric():
    matrix("exact", "symmetric")


def clause_matrix_hartree_one():
    matrix("hartree", "one")


def clause_matrix_hartree_two():
    matrix("hartree", "two")


def clause_matrix_hartree_symmetric():
    matrix("hartree", "symmetric")


def clause_matrix_overlap_xc_one():
    matrix("overlap_xc", "one")


def clause_matrix_overlap_xc_two():
    matrix("overlap_xc", "two")


def clause_matrix_overlap_xc_symmetric():
    matrix("overlap_xc", "symmetric")


def clause_matrix_overlap_hxc_one():
    matrix("overlap_hxc", "one")


def clause_matrix_overlap_hxc_two():
    matrix("overlap_hxc", "two")


def clause_matrix_overlap_hxc_symmetric():
    matrix("overlap_hxc", "symmetric")
