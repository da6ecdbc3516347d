import numpy as np
from speclibpart import *


def prepare(pol, ens, kind, **opt):
    p, g, N = partition(pol, ens, 1, kinetic_part_type=kind, **opt)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    return p, g, N


def weizsaecker(g, n):
    """integral of sqrt(n) (-1/2 laplacian) sqrt(n); the grid's operator carries the volume element"""
    r = np.sqrt(n)
    return 2 * np.pi * g.hr * g.ha * np.sum(g.wi * r * (-0.5 * (g.elap @ r)))


def spins(f, n, pol):
    return sum([f(n[:, j]) for j in range(pol)])


def fragments(p, value, flip=False):
    return (2 if flip else 1) * sum([num("s_" + t, pos=True) * value(t) for t, k in both(p)])


def clause_weizsaecker():
    for pol in (1, 2):
        for ens in (False, True):
            for flip in (False, True):
                p, g, N = prepare(pol, ens, "vonweiz", ens_spin_sym=flip)
                p.optPartition.ab_sym = flip == (pol == 2)
                p.ep_kinetic()
                nf = inp("nf", N, pol, pos=True)
                w = lambda n: spins(lambda c: weizsaecker(g, c), n, pol)
                want = w(nf) - fragments(p, lambda t: w(inp("n_" + t, N, pol, pos=True)), flip)
                check("energy spins=%d ensemble=%s flip=%s" % (pol, ens, flip), p.E.Ep_kin, want)
                check("molecular density kept", p.nf, nf)
                for t, k in both(p):
                    check("density kept %s" % t, k.n, inp("n_" + t, N, pol, pos=True))


def clause_functional():
    """energies of the kinetic functional, as left by the evaluation of the potential"""
    for pol in (1, 2):
        for ens in (False, True):
            for flip in (False, True):
                p, g, N = prepare(pol, ens, "libxcke", ens_spin_sym=flip, k_family="gga", ke_func_id=52)
                p.optPartition.ab_sym = flip == (pol == 2)
                p.vp_kinetic()
                p.ep_kinetic()
                nf = inp("nf", N, pol, pos=True)
                want = fun("EXC", None, "gga", 52, nf) - fragments(p, lambda t: fun("EXC", None, "gga", 52, inp("n_" + t, N, pol, pos=True)), flip)
                check("energy spins=%d ensemble=%s flip=%s" % (pol, ens, flip), p.E.Ep_kin, want)


def clause_functional_current():
    """evaluated at the present densities, however often it was evaluated before"""
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "libxcke", k_family="gga", ke_func_id=52)
            p.vp_kinetic()
            p.ep_kinetic()
            nf = inp("nf_later", N, pol, pos=True)
            p.nf = nf
            for t, k in both(p):
                k.n = inp("later_" + t, N, pol, pos=True)
            p.vp_kinetic()
            p.ep_kinetic()
            want = fun("EXC", None, "gga", 52, nf) - fragments(p, lambda t: fun("EXC", None, "gga", 52, inp("later_" + t, N, pol, pos=True)))
            check("energy spins=%d ensemble=%s" % (pol, ens), p.E.Ep_kin, want)


def clause_neglected():
    for pol in (1, 2):
        for ens in (False, True):
            p, g, N = prepare(pol, ens, "none")
            p.ep_kinetic()
            check("energy spins=%d ensemble=%s" % (pol, ens), p.E.Ep_kin, 0)


def clause_inversion():
    """kinetic energy of the inverted molecular potential minus those of the fragments"""
    stub("i_solver.calc_ked_WFI", lambda self: None)
    stub("Inverter.get_ts_WFI", lambda self: inp("tsm", self.grid.Nelem, 2))
    stub("Inverter.get_Ts", lambda self: num("Ts_mol"))
    for pol in (1, 2):
        for ens in (False, True):
            for flip in (False, True):
                p, g, N = prepare(pol, ens, "inversion", ens_spin_sym=flip)
                p.inverter = blank("Inverter", grid=g)
                p.ep_kinetic()
                want = num("Ts_mol") - fragments(p, lambda t: num("Ts_" + t), flip)
                check("energy spins=%d ensemble=%s flip=%s" % (pol, ens, flip), p.E.Ep_kin, want)
                q, g, N = prepare(pol, ens, "inversion", ens_spin_sym=flip, ab_sym=True)
                q.inverter = blank("Inverter", grid=g)
                q.ep_kinetic()
                x, y = parts(q)
                want = num("Ts_mol") - (4 if flip else 2) * sum([num("s_" + t, pos=True) * num("Ts_" + t) for t, k in x])
                check("energy of mirror images spins=%d ensemble=%s flip=%s" % (pol, ens, flip), q.E.Ep_kin, want)


# ---- energy densities: integrated with the total density they give the energies ------------------------------
def shares(p, N, pol):
    nf = inp("nf", N, pol, pos=True)
    ds = {}
    for t, k in both(p):
        ds[t] = num("s_" + t, pos=True) * inp("n_" + t, N, pol, pos=True)
        setattrs(k, Q=ds[t] / nf)
    return nf, ds


def shared(p, ds, nf, pol, value, flip, ab=False):
    x, y = parts(p)
    s = sum([total(ds[t], pol) * value(t) for t, k in (x if ab else x + y)]) / total(nf, pol)
    s = s + mirrored(s) if ab else s
    return 2 * s if flip else s


def column(v):
    return v[:, 0] if len(v.shape) == 2 else v


def clause_weizsaecker_density():
    for pol in (1, 2):
        for ens in (False, True):
            for flip in (False, True):
                p, g, N = prepare(pol, ens, "vonweiz", ens_spin_sym=flip)
                nf, ds = shares(p, N, pol)
                p.ep_kinetic()

                def t_(n):
                    return spins(lambda c: -0.5 * np.sqrt(c) * (g.elap @ np.sqrt(c)), n, pol) / (g.w * total(n, pol))
                want = t_(nf) - shared(p, ds, nf, pol, lambda t: t_(inp("n_" + t, N, pol, pos=True)), flip)
                check("spins=%d ensemble=%s flip=%s" % (pol, ens, flip), column(p.V.ep_kin), want)


def clause_functional_density():
    for pol in (1, 2):
        for ens in (False, True):
            for flip in (False, True):
                p, g, N = prepare(pol, ens, "libxcke", ens_spin_sym=flip, k_family="gga", ke_func_id=52)
                nf, ds = shares(p, N, pol)
                setattrs(p, tsm=inp("tsm", N, 1), Tsm=num("Tsm"))
                for t, k in both(p):
                    setattrs(k.V, ts=inp("ts_" + t, N, 1), Ts=num("Tsv_" + t))
                p.ep_kinetic()
                want = inp("tsm", N, 1)[:, 0] - shared(p, ds, nf, pol, lambda t: inp("ts_" + t, N, 1)[:, 0], flip)
                tag = "spins=%d ensemble=%s flip=%s" % (pol, ens, flip)
                check(tag, column(p.V.ep_kin), want)
                check("energy " + tag, p.E.Ep_kin, num("Tsm") - fragments(p, lambda t: num("Tsv_" + t), flip))


def inverted_density(pol, ens, flip, ab, nl, later=False):
    p, g, N = partition(pol, ens, nl, kinetic_part_type="inversion", ens_spin_sym=flip, ab_sym=ab)
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    nf, ds = shares(p, N, pol)
    for t, k in both(p):
        for i in range(nl):
            for j in range(pol):
                k.solver[i, j].veff = inp("v_%s%d%d" % (t, i, j), N)
    p.inverter = blank("Inverter", grid=g)
    p.ep_kinetic()
    s = "v"
    if later:
        s = "w"
        for t, k in both(p):
            for i in range(nl):
                for j in range(pol):
                    k.solver[i, j].veff = inp("w_%s%d%d" % (t, i, j), N)
        p.ep_kinetic()

    def t_(t):
        v = lambda i, j: inp("%s_%s%d%d" % (s, t, i, j), N)
        return sum([fun("KED", v(i, j), i, v(i, j)) for i in range(nl) for j in range(pol)]) / total(inp("n_" + t, N, pol, pos=True), pol)
    tm = inp("tsm", N, pol)
    want = total(tm, pol) / total(nf, pol) - shared(p, ds, nf, pol, t_, flip, ab)
    tag = "levels=%d spins=%d ensemble=%s flip=%s mirror=%s again=%s" % (nl, pol, ens, flip, ab, later)
    check("shape " + tag, p.V.ep_kin.shape, (N, 1))
    check(tag, p.V.ep_kin[:, 0], want)


def clause_inversion_density():
    stub("i_solver.calc_ked_WFI", lambda self: setattr(self, "ked_WFI", fun("KED", self.veff, self.m, self.veff)[:, None]))
    for pol in (1, 2):
        def ts(self):
            return inp("tsm", self.grid.Nelem, pol)
        stub("Inverter.get_ts_WFI", ts)
        stub("Inverter.get_Ts", lambda self: num("Ts_mol"))
        inverted_density(pol, False, False, False, 1)
        inverted_density(pol, True, False, False, 2)
        inverted_density(pol, pol == 1, pol == 2, True, 2)
        inverted_density(pol, pol == 2, False, False, 2, later=True)
    inverted_density(2, True, True, False, 1)


def clause_inversion_density_empty_levels():
    """levels without electrons add nothing"""
    def ked(self):
        self.ked_WFI = None if self.veff is None else fun("KED", self.veff, self.m, self.veff)[:, None]
    stub("i_solver.calc_ked_WFI", ked)
    stub("Inverter.get_ts_WFI", lambda self: inp("tsm", self.grid.Nelem, 1))
    stub("Inverter.get_Ts", lambda self: num("Ts_mol"))
    p, g, N = partition(1, False, 2, kinetic_part_type="inversion")
    fill_density(p, N)
    fill_totals(p, N)
    fill_energy(p, N)
    fill_potential(p, N)
    nf, ds = shares(p, N, 1)
    va, vb = inp("v_a", N), inp("v_b", N)
    p.KSa.solver[0, 0].veff = va
    p.KSb.solver[1, 0].veff = vb
    p.inverter = blank("Inverter", grid=g)
    p.ep_kinetic()
    t_ = {"a": fun("KED", va, 0, va), "b": fun("KED", vb, 1, vb)}
    want = inp("tsm", N, 1)[:, 0] / nf[:, 0] - shared(p, ds, nf, 1, lambda t: t_[t] / inp("n_" + t, N, 1, pos=True)[:, 0], False)
    check("energy density", p.V.ep_kin[:, 0], want)


def clause_two_orbitals():
    p, g, N = prepare(1, False, "twoorbital")
    p.ep_kinetic()
    a, b = inp("na", N, 1, pos=True)[:, 0], inp("nb", N, 1, pos=True)[:, 0]
    d = np.sqrt(a) - np.sqrt(b)
    f = np.sqrt(integral(a + b) / 2) * d / np.sqrt(integral(d ** 2))
    s = np.sqrt(a + b - f ** 2)

    def kin(x):
        return integral(x * (-0.5 * (g.elap @ x)) / g.w)
    check("first orbital", p.V.phi1[:, 0], f)
    check("second orbital", p.V.phi2[:, 0], s)
    want = kin(f) + kin(s) - fragments(p, lambda t: weizsaecker(g, inp("n_" + t, N, 1, pos=True)[:, 0]))
    check("energy", p.E.Ep_kin, want)


def clause_two_orbitals_density():
    p, g, N = prepare(1, False, "twoorbital")
    nf, ds = shares(p, N, 1)
    for t, k in both(p):
        setattrs(k, scale=1, Q=inp("n_" + t, N, 1, pos=True) / nf)
    p.ep_kinetic()
    n = nf[:, 0]
    f, s = p.V.phi1[:, 0], p.V.phi2[:, 0]
    own = lambda x: x * (-0.5 * (g.elap @ x)) / g.w
    want = (own(f) + own(s)) / n - sum([own(np.sqrt(inp("n_" + t, N, 1, pos=True)[:, 0])) for t in ("a", "b")]) / n
    check("energy density", p.V.ep_kin[:, 0], want)


def clause_refused():
    p, g, N = prepare(1, False, "none")
    p.optPartition.kinetic_part_type = "thomas"
    check_true("energy", raises(p.ep_kinetic))
    check_true("potential", raises(p.vp_kinetic))
