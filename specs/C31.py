import numpy as np
from scipy.sparse import csc_matrix
from speclibks import *


def setup(n, k, pol=1, weights=None, H=None, electrons=None, **opt):
    """inverter on n points with k orbitals per spin"""
    g, N = basic_grid()
    stub("Psgrid.mirror", lambda self, f: f[::-1])
    setattrs(g, Nelem=n, w=inp("w", n, pos=True) if weights is None else weights, wi=inp("wi", n, pos=True), f=inp("angular", n),
             Xa=inp("Xa", n), Xr=inp("Xr", n), elap=csc_matrix(inp("E", n, n)), olap=csc_matrix(inp("O", n, n)))
    if weights is not None:
        setattrs(g, wi=np.ones(n), hr=1 / (2 * np.pi), ha=1)
    H0 = csc_matrix(inp("H0", n, n) if H is None else H)
    log = []
    stub("i_solver.hamiltonian", lambda self: setattrs(self, H0=H0))
    stub("i_solver.calc_density", lambda self: log.append(["density", self, snap(self.phi), snap(self.eig)]))
    stub("i_solver.get_homo", lambda self: self.eig[-1])
    s = func("Pssolver")(g, [[k] * pol], [[2 * k // pol if electrons is None else electrons] * pol])

    def orbitals(self):
        log.append(["orbitals", self, snap(self.veff)])
        self.phi = inp("phi1", n, k)
        self.eig = inp("eig1", k)

    stub("i_solver.calc_orbitals", orbitals)
    v = cls("Inverter")(g, s, dict(opt, invert_type="orbitalinvert"))
    return v, g, log


def weight(g):
    return 2 * np.pi * g.hr * g.ha * g.wi * g.w


def columns_of(flat, n, k):
    return np.array([[flat[j * n + i] for j in range(k)] for i in range(n)])


def normal(phi, q, k):
    """every orbital holds two electrons"""
    return phi * np.sqrt(2 / np.array([np.sum(q * phi[:, j] ** 2) for j in range(k)]))


def stored(tag, v, spin, n, k, phi, eig, pot):
    s = v.solver[0, spin]
    check(tag + ": potential", v.vs[:, spin], pot)
    check(tag + ": solver potential", s.veff, pot)
    check(tag + ": orbitals", s.phi, phi)
    for j in range(k):
        check(tag + ": eigenvalue %d" % j, s.eig[j][0] if len(s.eig.shape) == 2 else s.eig[j], eig[j])


def guesses(n, k):
    return inp("n0", n, pos=True), inp("v0", n, 1), inp("phi0", n * k, 1), inp("e0", k)


def clause_more_guesses():
    """more orbitals and levels may be offered than there are occupied ones"""
    for n, k, o in ((2, 1, 2), (2, 2, 4), (3, 2, 3)):
        v, g, log = setup(n, k, 1, max_iter_invert=1)
        flag, out = v.invert(inp("n0", n, pos=True), inp("v0", n, 1), inp("phi0", n * o, 1), inp("e0", o), 0)
        e = inp("e0", o)
        phi = normal(columns_of(inp("phi0", n * o, 1)[:n * k, 0], n, k), weight(g), k)
        stored("points=%d orbitals=%d of %d" % (n, k, o), v, 0, n, k, phi, e[:k] - e[k - 1], inp("v0", n, 1)[:, 0] - e[k - 1])


def clause_first_guess():
    """the given orbitals, normalised, and potential and eigenvalues relative to the highest level"""
    for n, k, pol, spin in ((2, 1, 1, 0), (2, 2, 1, 0), (3, 3, 1, 0), (2, 1, 2, 0), (2, 1, 2, 1)):
        v, g, log = setup(n, k, pol, max_iter_invert=1)
        n0, v0, p0, e0 = guesses(n, k)
        flag, out = v.invert(n0, v0, p0, e0, spin)
        tag = "points=%d orbitals=%d spin %d of %d" % (n, k, spin, pol)
        phi = normal(columns_of(inp("phi0", n * k, 1)[:, 0], n, k), weight(g), k)
        stored(tag, v, spin, n, k, phi, inp("e0", k) - inp("e0", k)[k - 1], inp("v0", n, 1)[:, 0] - inp("e0", k)[k - 1])
        check(tag + ": evaluations", out[0, 0].nfev, 1)
        dens = [x for x in log if x[0] == "density" and x[1] is v.solver[0, spin]]
        check(tag + ": density renewed", len(dens) > 0, True)
        check(tag + ": density of the result", dens[-1][2], phi)
        check(tag + ": target kept", n0, inp("n0", n, pos=True))
        check(tag + ": guess kept", v0, inp("v0", n, 1))
        for j in range(pol):
            if j != spin:
                check(tag + ": other spin untouched", v.solver[0, j].phi is None, True)


def equations(phi, e, pot, n0, q, K, n, k):
    """orbital equations, norms of all but the last orbital, density; and their derivatives"""
    rows = []
    for j in range(k):
        t = K @ phi[:, j] + q * (pot - e[j]) * phi[:, j]
        for i in range(n):
            rows.append(t[i])
    for j in range(k - 1):
        rows.append((2 - np.sum(q * phi[:, j] ** 2)) / 2)
    dens = sum([phi[:, j] ** 2 for j in range(k)])
    for i in range(n):
        rows.append(q[i] * (dens[i] - n0[i]) / 2)
    size = n * k + k - 1 + n
    J = np.zeros((size, size))
    for j in range(k):
        for i in range(n):
            for l in range(n):
                J[j * n + i, j * n + l] = K[i, l]
            J[j * n + i, j * n + i] += q[i] * (pot[i] - e[j])
            if j < k - 1:
                J[j * n + i, n * k + j] = -q[i] * phi[i, j]
                J[n * k + j, j * n + i] = -q[i] * phi[i, j]
            J[j * n + i, n * k + k - 1 + i] = q[i] * phi[i, j]
            J[n * k + k - 1 + i, j * n + i] = q[i] * phi[i, j]
    return J, np.array(rows)[:, None]


def clause_equations():
    """the Newton system is the derivative and value of the stationarity conditions"""
    for n, k in ((2, 1), (3, 1), (2, 2), (2, 3)):
        v, g, log = setup(n, k, max_iter_invert=9)
        n0, v0, p0, e0 = guesses(n, k)
        before = len(solves())
        v.invert(n0, v0, p0, e0, 0)
        J, b, x = solves()[before]
        q = weight(g)
        phi = normal(columns_of(inp("phi0", n * k, 1)[:, 0], n, k), q, k)
        e = inp("e0", k)
        H = inp("H0", n, n)
        K = np.array([[2 * np.pi * g.hr * g.ha * g.wi[i] * H[i, l] for l in range(n)] for i in range(n)])
        wJ, wb = equations(phi, e - e[k - 1], inp("v0", n, 1)[:, 0] - e[k - 1], n0, q, K, n, k)
        # all but the last orbital's norm; the norms were just enforced
        tag = "points=%d orbitals=%d" % (n, k)
        check(tag + ": size", [J.shape, b.shape], [wJ.shape, wb.shape])
        for i in range(n * k + n + k - 1):
            check(tag + ": value %d" % i, b[i, 0], wb[i, 0])
            for l in range(n * k + n + k - 1):
                check(tag + ": derivative %d %d" % (i, l), J[i, l], wJ[i, l])


def numbers(k):
    """two points, unit weights: everything is a number"""
    H = np.array([[1.0, -0.5], [-0.5, 1.0]])
    p = [[1.0], [1.0]] if k == 1 else [[1.0], [1.0], [1.0], [-1.0]]
    return H, np.array(p), np.array([-1.0]) if k == 1 else np.array([-2.0, -1.0])


def clause_step():
    """a Newton step is added and the orbitals are normalised again"""
    for k in (1, 2):
        H, p0, e0 = numbers(k)
        n = 2
        v, g, log = setup(n, k, weights=np.ones(n), H=H, max_iter_invert=2, tol_invert=1e-9, res_factor=1e-3)
        n0 = np.array([1.5, 0.5]) * k
        v0 = np.array([[-2.0], [-1.75]])
        flag, out = v.invert(n0, v0, p0, e0, 0)
        q = np.ones(n)
        phi = normal(columns_of(p0[:, 0], n, k), q, k)
        J, b = equations(phi, e0 - e0[k - 1], v0[:, 0] - e0[k - 1], n0, q, H, n, k)
        d = np.linalg.solve(J, b)[:, 0]
        flat = np.array([phi[i, j] for j in range(k) for i in range(n)])
        phi = normal(columns_of(flat - d[:n * k], n, k), q, k)
        eig = [e0[j] - e0[k - 1] - d[n * k + j] for j in range(k - 1)] + [0]
        stored("orbitals=%d" % k, v, 0, n, k, phi, eig, v0[:, 0] - e0[k - 1] - d[n * k + k - 1:])
        check("orbitals=%d: evaluations" % k, out[0, 0].nfev, 2)
        check("orbitals=%d: no new diagonalisation" % k, len([x for x in log if x[0] == "orbitals"]), 0)


def clause_recalculated():
    """far from a solution of the orbital equations the orbitals are recalculated in the present potential"""
    for k in (1, 2):
        H, p0, e0 = numbers(k)
        n = 2
        v, g, log = setup(n, k, weights=np.ones(n), H=H, max_iter_invert=2, tol_invert=1e-9, res_factor=1e3)
        v0 = np.array([[-2.0], [-1.75]])
        flag, out = v.invert(np.array([1.5, 0.5]) * k, v0, p0, e0, 0)
        o = [x for x in log if x[0] == "orbitals"]
        check("orbitals=%d: one diagonalisation" % k, len(o), 1)
        check("orbitals=%d: in the present potential" % k, o[0][2], v0[:, 0] - e0[k - 1])
        e = inp("eig1", k)
        stored("orbitals=%d" % k, v, 0, n, k, normal(inp("phi1", n, k), np.ones(n), k), [e[j] - e[k - 1] for j in range(k)],
               v0[:, 0] - e0[k - 1] - e[k - 1])


def clause_ends():
    """success is reported exactly when the residual is below the tolerance"""
    H = np.array([[1.0, -0.5], [-0.5, 1.0]])
    for tag, dens, pot, limit, ok, count in (("solved", [1.0, 1.0], [-1.5, -1.5], 5, True, 1), ("density off", [1.25, 0.75], [-1.5, -1.5], 1, False, 1),
                                             ("potential off", [1.0, 1.0], [-1.25, -1.5], 1, False, 1)):
        v, g, log = setup(2, 1, weights=np.ones(2), H=H, max_iter_invert=limit, tol_invert=1e-3)
        flag, out = v.invert(np.array(dens), np.array([[pot[0]], [pot[1]]]), np.array([[1.0], [1.0]]), np.array([-1.0]), 0)
        check(tag + ": success", flag, ok)
        check(tag + ": evaluations", out[0, 0].nfev, count)
        check(tag + ": residual", out[0, 0].optimality, 0 if ok else max(abs(dens[0] - 1) / 2, abs(pot[0] + 1.5)))


def clause_goes_on():
    """neither a wrong density nor unsolved orbital equations are taken for a solution"""
    for tag, dens, pot in (("density off", [1.25, 0.75], [-1.5, -1.5]), ("second point off", [1.0, 0.75], [-1.5, -1.5]),
                           ("potential off", [1.0, 1.0], [-1.25, -1.5]), ("potential off elsewhere", [1.0, 1.0], [-1.5, -1.75])):
        for limit in (2,):
            v, g, log = setup(2, 1, weights=np.ones(2), H=np.array([[1.0, -0.5], [-0.5, 1.0]]), max_iter_invert=limit, tol_invert=1e-3)
            flag, out = v.invert(np.array(dens), np.array([[pot[0]], [pot[1]]]), np.array([[1.0], [1.0]]), np.array([-1.0]), 0)
            check(tag + ": second evaluation", out[0, 0].nfev, limit)


def clause_separate_reports():
    v, g, log = setup(2, 1, weights=np.ones(2), H=np.array([[1.0, -0.5], [-0.5, 1.0]]), max_iter_invert=1, tol_invert=1e-3)
    a = [np.array([[-1.0], [-1.5]]), np.array([[1.0], [1.0]]), np.array([-1.0]), 0]
    f1, o1 = v.invert(np.array([1.0, 1.0]), *a)
    r = o1[0, 0].optimality
    v.solver[0, 0].phi = None
    f2, o2 = v.invert(np.array([5.0, 1.0]), *a)
    check("first report kept", o1[0, 0].optimality, r)
    check("second report its own", o2[0, 0].optimality, 2)


def clause_continued():
    """with orbitals from an earlier inversion the solver's own state is the first guess"""
    for n, k in ((2, 1), (2, 2), (3, 2)):
        v, g, log = setup(n, k, max_iter_invert=1)
        s = v.solver[0, 0]
        setattrs(s, phi=inp("old", n, k), eig=inp("eig", k), veff=inp("veff", n))
        n0, v0, p0, e0 = guesses(n, k)
        v.invert(n0, v0, p0, e0, 0)
        e = inp("eig", k)
        tag = "points=%d orbitals=%d" % (n, k)
        check(tag + ": potential", v.vs[:, 0], inp("veff", n) - e[k - 1])
        phi = normal(inp("old", n, k), weight(g), k)
        for j in range(k):
            check(tag + ": density of orbital %d" % j, s.phi[:, j] ** 2, phi[:, j] ** 2)
            check(tag + ": eigenvalue %d" % j, s.eig[j][0] if len(s.eig.shape) == 2 else s.eig[j], e[j] - e[k - 1])


def clause_mirror_symmetric():
    """orbitals become even or odd, whichever they are closer to, and the potential even"""
    for p, want in (([3.0, 1.0], [1, 1]), ([3.0, -1.0], [1, -1])):
        v, g, log = setup(2, 1, weights=np.ones(2), H=np.array([[1.0, -0.5], [-0.5, 1.0]]), max_iter_invert=1, ab_sym=True)
        v.invert(np.array([1.0, 1.0]), np.array([[-2.0], [-1.0]]), np.array([[p[0]], [p[1]]]), np.array([-1.0]), 0)
        check("orbital %s" % p, v.solver[0, 0].phi[:, 0], np.array(want) * 1.0)
        check("potential %s" % p, v.vs[:, 0], np.array([-0.5, -0.5]))


def clause_mirror_symmetric_levels():
    """with mirror symmetry every orbital keeps to itself unless its level is degenerate"""
    H = np.array([[1.0, -0.5, 0.0], [-0.5, 1.0, -0.5], [0.0, -0.5, 1.0]])
    a, b = [2.0, 1.0, 1.0], [1.0, -1.0, 0.0]
    sa, sb = [3.0, 2.0, 3.0], [1.0, -2.0, 1.0]

    def unit(x):
        x = np.array(x)
        return x * np.sqrt(2 / np.sum(x**2))

    for tag, p, q, e, want in (("apart", a, b, [-2.0, -1.0], (sa, sb)), ("descending", a, b, [-1.0, -2.0], (sa, sb)),
                               ("even and odd", a, [1.0, 0.5, -2.0], [-2.0, -1.0], (sa, [1.0, 0.0, -1.0])),
                               ("nearly degenerate", a, b, [-1.0 - 1e-5, -1.0], (sa, sb)),
                               ("degenerate", a, b, [-1.0, -1.0], ([1.0, 0.0, 1.0], [1.0, 0.0, -1.0]))):
        v, g, log = setup(3, 2, weights=np.ones(3), H=H, max_iter_invert=1, ab_sym=True)
        v.invert(np.ones(3), np.array([[-2.0], [-1.0], [-2.0]]), np.array([[x] for x in p + q]), np.array(e), 0)
        for j in range(2):
            check("%s: orbital %d" % (tag, j), v.solver[0, 0].phi[:, j], unit(want[j]))
        check(tag + ": potential", v.vs[:, 0], np.array([-2.0, -1.0, -2.0]) - e[1])


def clause_partly_filled():
    """the highest orbital holds what is left over"""
    for n, k, pol, N, left in ((2, 1, 1, 1, 0.5), (2, 1, 1, 1.5, 0.75), (2, 2, 1, 3, 0.5), (3, 3, 1, 4.5, 0.25), (2, 1, 2, 0.5, 0.5), (2, 2, 2, 1.25, 0.25),
                               (2, 1, 1, 2 ** -20, 2 ** -21), (2, 2, 2, 2 - 2 ** -20, 1 - 2 ** -20)):
        v, g, log = setup(n, k, pol, max_iter_invert=1, electrons=N)
        n0, v0, p0, e0 = guesses(n, k)
        v.invert(n0, v0, p0, e0, 0)
        tag = "points=%d orbitals=%d spins=%d electrons=%s" % (n, k, pol, N)
        w = weight(g)
        raw = columns_of(inp("phi0", n * k, 1)[:, 0], n, k)
        phi = raw * np.sqrt(np.array([2.0] * (k - 1) + [2 * left]) / np.array([np.sum(w * raw[:, j] ** 2) for j in range(k)]))
        stored(tag, v, 0, n, k, phi, inp("e0", k) - inp("e0", k)[k - 1], inp("v0", n, 1)[:, 0] - inp("e0", k)[k - 1])
