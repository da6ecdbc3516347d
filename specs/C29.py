import numpy as np
from scipy.sparse import diags
from speclibks import *


def inverter(nl, pol, **opt):
    k, g, N = kohnsham(nl, pol)
    setattrs(g, wi=inp("wi", N))
    for i in range(nl):
        for j in range(pol):
            setattrs(k.solver[i, j], orbv=inp("older%d%d" % (i, j), N), chi=op("olderchi%d%d" % (i, j), N, N), n=inp("oldern%d%d" % (i, j), N))

    # whatever is derived from the orbitals is derived from the potential they were last calculated in
    def response(self):
        self.chi = diags(fun("RESP", self.orbv, self.m, self.orbv)) @ op("chi%d" % self.m, N, N)

    stub("i_solver.calc_orbitals", lambda self: setattrs(self, orbv=snap(self.veff)))
    stub("i_solver.calc_density", lambda self: setattrs(self, n=fun("DENS", self.orbv, self.m, self.orbv)))
    stub("i_solver.calc_energy", lambda self: None)
    stub("i_solver.calc_response", response)
    stub("i_solver.get_homo", lambda self: fun("HOMO", None, self.m, self.veff))
    v = cls("Inverter")(g, k.solver, dict(opt, invert_type="wuyang"))
    return v, g, N


def posed(nl, pol, start="given", sym=False, **opt):
    v, g, N = inverter(nl, pol, ab_sym=sym, **opt)
    cols = 1 if opt.get("ens_spin_sym") else pol
    n0 = inp("n0", N, cols, pos=True)
    before = len(fits())
    if start == "solver":
        for i in range(nl):
            for j in range(pol):
                v.solver[i, j].veff = inp("veff%d" % j, N)
    flag, out = v.invert(n0, inp("v0", N, cols) if start == "given" else None)
    return v, g, N, n0, fits()[before:], flag, out


def problem(nl, pol, sym=False, spinsym=False):
    v, g, N, n0, f, flag, out = posed(nl, pol, "given", sym, ens_spin_sym=spinsym)
    tag = " levels=%d spins=%d mirror=%s" % (nl, pol, sym)
    check("one problem per spin" + tag, len(f), 1 if spinsym else pol)
    for s in range(len(f)):
        x0, x, r, J, o = f[s]
        y = 0.5 * (x + mirrored(x)) if sym else x
        n = sum([fun("DENS", y, i, y) for i in range(nl)])
        if sym:
            n = 0.5 * (n + mirrored(n))
        check("start spin %d" % s + tag, x0, inp("v0", N, pol)[:, s])
        check("residual spin %d" % s + tag, r[:N], (n - n0[:, s]) / n0[:, s])
        check("gauge spin %d" % s + tag, r[N], y[N - 1])
        chi = sum([fun("RESP", y, i, y)[:, None] * op("chi%d" % i, N, N).toarray() for i in range(nl)])
        if not sym:
            jac = np.vstack([(1 / n0[:, s])[:, None] * chi, np.zeros((1, N))])
            jac[-1, -1] = 1
            check("Jacobian spin %d" % s + tag, J, jac)
        else:
            rows = (1 / n0[:, s])[:, None] * chi
            check("Jacobian of the density spin %d" % s + tag, J[:N], rows)
            d = np.zeros(N)
            d[-1] = 1
            check("Jacobian of the gauge spin %d" % s + tag, J[-1], 0.5 * (d + mirrored(d)))
        check("solution spin %d" % s + tag, v.vs[:, s], x)
        check("tolerance spin %d" % s + tag, [o.get("xtol"), o.get("gtol")], [v.optInv.tol_invert, v.optInv.tol_invert])
    check("target kept" + tag, n0, inp("n0", N, n0.shape[1], pos=True))
    check("first guess kept" + tag, inp("v0", N, pol), inp("v0", N, pol))


def clause_residual():
    problem(1, 1)
    problem(3, 1)
    problem(2, 2)


def clause_residual_mirror():
    problem(2, 1, True)
    problem(2, 2, True)


def clause_spin_symmetric():
    for nl in (1, 2):
        problem(nl, 2, False, True)
        v, g, N, n0, f, flag, out = posed(nl, 2, "given", False, ens_spin_sym=True)
        x = f[0][1]
        u = max([fun("HOMO", None, i, x) for i in range(nl)])
        for s in range(2):
            check("potential of spin %d, levels=%d" % (s, nl), v.vs[:, s], x)
            check("chemical potential of spin %d, levels=%d" % (s, nl), v.us[0, s], u)
            for i in range(nl):
                check("solver potential of level %d spin %d, levels=%d" % (i, s, nl), v.solver[i, s].veff, x)
                check("report of level %d spin %d" % (i, s), out[i, s].x, x)
                check("flag of level %d spin %d" % (i, s), flag[i, s], out[i, s].status)


def clause_reports():
    for nl, pol in ((1, 1), (3, 2), (2, 1)):
        v, g, N, n0, f, flag, out = posed(nl, pol)
        check("size of the report", [flag.shape, out.shape], [(nl, pol), (nl, pol)])
        for s in range(pol):
            x = f[s][1]
            check("chemical potential spin %d" % s, v.us[0, s], max([fun("HOMO", None, i, x) for i in range(nl)]))
            for i in range(nl):
                check("report of level %d spin %d" % (i, s), out[i, s].x, x)
                check("flag of level %d spin %d" % (i, s), flag[i, s], out[i, s].status)
        check("kinetic potential", v.get_vt(), np.array([v.us[0, s] - f[s][1] for s in range(pol)]).T)


def clause_start():
    """the solver's present potential, else the given one, else that of one orbital"""
    for pol in (1, 2):
        v, g, N, n0, f, flag, out = posed(2, pol, "solver")
        for s in range(pol):
            check("continues spin %d of %d" % (s, pol), f[s][0], inp("veff%d" % s, N))
        v, g, N, n0, f, flag, out = posed(2, pol, "none")
        for s in range(pol):
            r = np.sqrt(n0[:, s])
            w = 0.5 * (g.elap @ r) / (r * g.w)
            check("one orbital spin %d of %d" % (s, pol), f[s][0], w - w[N - 1])


def clause_vector():
    """a density given as a vector is one spin"""
    v, g, N = inverter(2, 1)
    n0 = inp("n0", N, pos=True)
    before = len(fits())
    v.invert(n0, inp("v0", N, 1))
    x0, x, r, J, o = fits()[before]
    check("residual", r[:N], (sum([fun("DENS", x, i, x) for i in range(2)]) - n0) / n0)
    check("potential", v.vs, x[:, None])


def clause_again():
    """inverting twice poses the same kind of problem, starting where the first ended"""
    v, g, N, n0, f, flag, out = posed(2, 2)
    n1 = inp("n1", N, 2, pos=True)
    before = len(fits())
    v.invert(n1, inp("v0", N, 2))
    h = fits()[before:]
    for s in range(2):
        check("start spin %d" % s, h[s][0], f[s][1])
        n = sum([fun("DENS", h[s][1], i, h[s][1]) for i in range(2)])
        check("residual spin %d" % s, h[s][2][:N], (n - n1[:, s]) / n1[:, s])
        check("potential spin %d" % s, v.vs[:, s], h[s][1])
