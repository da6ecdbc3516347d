import numpy as np
from scipy.sparse import diags, bmat
from scipy.sparse.linalg import spsolve
from speclibsolver import *


def diagonalise(g, N, vals, sym=False, mirror_positive=True, **kw):
    k = len(vals)
    s = solver(g, N, 0, 2, Nmo=k, **kw)
    s.optSolver.sym = sym
    calls = []

    def eigs(A, k=6, **kw):
        calls.append((A, k, kw))
        return np.array(vals), inp("v", N, len(vals))
    stub("scipy.sparse.linalg.eigs", eigs)
    stub("numpy.isnan", lambda x: False * x)
    return s, calls


def clause_order():
    """eigenvalues ascending, every orbital next to its own eigenvalue"""
    g, N = basic_grid()
    for vals in ([-1, -3, -2], [-5, -4, -3], [1, 0.5, -7], [-2, -1, -3, 4]):
        s, calls = diagonalise(g, N, vals)
        s.calc_orbitals()
        order = np.argsort(np.array(vals))
        v = inp("v", N, len(vals))
        for i in range(len(vals)):
            check("eigenvalue %d" % i, s.eig[i], vals[order[i]])
            check("orbital %d" % i, s.phi[:, i], v[:, order[i]])


def clause_parallel():
    g, N = basic_grid()
    s, calls = diagonalise(g, N, [-1, -3])
    out = {}
    s.calc_orbitals(5, out)
    check("returned eigenvalues", out[5][0], s.eig)
    check("returned orbitals", out[5][1], s.phi)


def clause_empty():
    g, N = basic_grid()
    s = solver(g, N, 0, 2, Nmo=0)
    s.calc_orbitals()
    check("no orbital", s.eig[0], -1 / np.finfo(float).eps)
    s = solver(g, N, 0, 2, Nmo=0)
    s.iter_orbitals()
    check("no orbital, iterative", s.eig[0], -1 / np.finfo(float).eps)


def clause_repeated():
    """a diagonalisation that returned no numbers is repeated with a lower target and ordered likewise"""
    g, N = basic_grid()
    s = solver(g, N, 0, 2, Nmo=2)
    calls = []

    def eigs(A, k=6, **kw):
        calls.append((A, k, kw))
        vals = [-1, -3] if len(calls) == 1 else [-4, -2]
        return np.array(vals), inp("v%d" % len(calls), N, 2)
    stub("scipy.sparse.linalg.eigs", eigs)

    def isnan(x):
        return 0 * x + (1 if len(calls) == 1 else 0) > 0.5
    stub("numpy.isnan", isnan)
    s.calc_orbitals()
    check("attempts", len(calls), 2)
    check("same operator", calls[1][0], calls[0][0])
    check_true("lower target", calls[1][2]["sigma"] < calls[0][2]["sigma"])
    check("same number of states", calls[1][1], 2)
    check("eigenvalues", s.eig, np.array([-4, -2]))
    v = inp("v2", N, 2)
    check("orbital 0", s.phi[:, 0], v[:, 0])
    check("orbital 1", s.phi[:, 1], v[:, 1])


def clause_degenerate():
    """degenerate pairs are replaced by combinations of the pair with definite parity"""
    g, N = basic_grid()
    veff = inp("veff", N) + mirrored(inp("veff", N))
    s, calls = diagonalise(g, N, [-1, -1], veff=veff)
    stub("numpy.linalg.norm", lambda x: integral(x**2)**0.5)
    s.calc_orbitals()
    v = inp("v", N, 2)
    t = v[:, 0] + v[:, 1]
    even = t + mirrored(t)
    odd = t - mirrored(t)
    check("even combination", s.phi[:, 0] * integral(even**2)**0.5, even)
    check("odd combination", s.phi[:, 1] * integral(odd**2)**0.5, odd)
    check("mirror even", mirrored(s.phi[:, 0]), s.phi[:, 0])
    check("mirror odd", mirrored(s.phi[:, 1]), -s.phi[:, 1])
    s, calls = diagonalise(g, N, [-1, -1 + 1e-7], veff=veff)
    s.calc_orbitals()
    check("distinct levels kept 0", s.phi[:, 0], v[:, 0])
    check("distinct levels kept 1", s.phi[:, 1], v[:, 1])


def clause_degenerate_asymmetric():
    """the images of the orbitals are no eigenvectors if the potential has no mirror symmetry"""
    g, N = basic_grid()
    s, calls = diagonalise(g, N, [-1, -1])
    stub("numpy.linalg.norm", lambda x: integral(x**2)**0.5)
    s.calc_orbitals()
    v = inp("v", N, 2)
    t = v[:, 0] + v[:, 1]
    check_guarded("even combination only for a symmetric potential", s.phi[:, 0] * integral((t + mirrored(t))**2)**0.5, t + mirrored(t))
    check_guarded("odd combination only for a symmetric potential", s.phi[:, 1] * integral((t - mirrored(t))**2)**0.5, t - mirrored(t))


def clause_symmetrised():
    """with the symmetry option every orbital has definite parity"""
    g, N = basic_grid()
    stub("numpy.linalg.norm", lambda x: integral(x**2)**0.5)
    s, calls = diagonalise(g, N, [-3, -1], sym=True)
    s.calc_orbitals()
    v = inp("v", N, 2)
    for i in range(2):
        p = s.phi[:, i]
        check("definite parity %d" % i, mirrored(p)**2, p**2)
        check("own eigenvalue %d" % i, s.eig[i], [-3, -1][i])
        check_depends("own orbital %d" % i, p, "v[%d]" % i)
        check_depends("no other orbital %d" % i, p, "v[%d]" % (1 - i), False)
        q = v[:, i]
        even = q @ mirrored(q) > 0
        check("mostly even becomes even %d" % i, even * (mirrored(p) - p), 0 * q)
        check("mostly odd becomes odd %d" % i, (1 - even) * (mirrored(p) + p), 0 * q)


def correction(s, g, N, direct):
    s.optSolver.iter_lin_solver = not direct
    p = snap(s.phi)
    e = snap(s.eig)
    sols = []

    def solve(A, b, **kw):
        x = inp("x%d" % len(sols), N + 1)
        sols.append((A, b, x))
        return x
    stub("scipy.sparse.linalg.spsolve", solve)
    stub("scipy.sparse.linalg.bicgstab", lambda A, b, **kw: (solve(A, b), 0))
    stub("scipy.sparse.linalg.spilu", lambda A, *a, **kw: obj("ilu", solve=None))
    stub("scipy.sparse.linalg.LinearOperator", lambda *a, **kw: None)
    stub("i_solver.normalize_orbitals", lambda self: None)
    stub("numpy.amax", lambda x, axis=None: np.ones(s.Nmo))
    stub("numpy.max", lambda x, axis=None: np.ones(s.Nmo))
    s.optSolver.tol_orbital = 0.5
    s.iter_orbitals()
    return p, e, sols


def iterate(direct, m=0, pol=2, k=2, electrons=None):
    g, N = basic_grid()
    s = solver(g, N, m, pol, electrons=electrons, Nmo=k, phi=inp("phi", N, k), eig=inp("eig", k))
    p, e, sols = correction(s, g, N, direct)
    check("one system per orbital", len(sols), k)
    H = s.H0 + diags(g.w * s.veff)
    W = diags(g.w)
    for j in range(k):
        A, b, x = sols[j]
        q = p[:, j]
        c = W @ q
        want = bmat([[H - W * e[j], -c[:, None]], [-c[None], np.array([[-1e-12]])]])
        check("Newton matrix %d" % j, A, want)
        r = H @ q - W @ q * e[j]
        check("residual %d" % j, b, np.hstack((r, [0])))
        check("orbital update %d" % j, s.phi[:, j], q - x[:N])
        check("eigenvalue update %d" % j, s.eig[j], e[j] - x[N])


def clause_newton_iterative():
    iterate(False)


def clause_newton_direct():
    iterate(True)


def clause_newton_channels():
    """every channel and every number of orbitals, empty orbitals included"""
    for m, pol, k, e in ((0, 1, 3, 2), (1, 1, 2, 4), (2, 2, 3, 1), (5, 1, 1, 4), (4, 2, 2, 0)):
        iterate(True, m, pol, k, e)


def clause_some_converged():
    """only the orbitals that are not converged are corrected"""
    for pattern in ([1, 0, 1], [0, 1, 0], [0, 0, 1], [1, 0, 0]):
        for pol in (1, 2):
            g, N = basic_grid()
            s = solver(g, N, 0, pol, Nmo=3, phi=inp("phi", N, 3), eig=inp("eig", 3))
            s.optSolver.iter_lin_solver = False
            s.optSolver.tol_orbital = 0.5
            p = snap(s.phi)
            e = snap(s.eig)
            sols = []

            def solve(A, b, **kw):
                x = inp("x%d" % len(sols), N + 1)
                sols.append(x)
                return x
            stub("scipy.sparse.linalg.spsolve", solve)
            stub("i_solver.normalize_orbitals", lambda self: None)
            stub("numpy.amax", lambda x, axis=None: np.array(pattern))
            stub("numpy.max", lambda x, axis=None: np.array(pattern))
            s.iter_orbitals()
            check("number of corrections", len(sols), sum(pattern))
            k = 0
            for j in range(3):
                x = 0
                y = 0
                if pattern[j]:
                    x = sols[k][:N]
                    y = sols[k][N]
                    k = k + 1
                check("orbital %d" % j, s.phi[:, j], p[:, j] - x)
                check("eigenvalue %d" % j, s.eig[j], e[j] - y)


def clause_residual_decides():
    """an orbital is corrected exactly when the largest component of its own residual exceeds the tolerance"""
    for direct, m, pol in ((False, 0, 2), (True, 0, 2), (True, 1, 1), (True, 4, 1), (False, 3, 2)):
        g, N = basic_grid()
        s = solver(g, N, m, pol, Nmo=1, phi=inp("phi", N, 1), eig=inp("eig", 1))
        s.optSolver.iter_lin_solver = not direct
        tol = num("tol", pos=True)
        s.optSolver.tol_orbital = tol
        p = snap(s.phi)
        e = snap(s.eig)
        x = inp("x", N + 1)
        stub("scipy.sparse.linalg.spsolve", lambda A, b, **kw: x)
        stub("scipy.sparse.linalg.bicgstab", lambda A, b, **kw: (x, 0))
        stub("scipy.sparse.linalg.spilu", lambda A, *a, **kw: obj("ilu", solve=None))
        stub("scipy.sparse.linalg.LinearOperator", lambda *a, **kw: None)
        stub("i_solver.normalize_orbitals", lambda self: None)
        s.iter_orbitals()
        r = (s.H0 + diags(g.w * s.veff)) @ p[:, 0] - diags(g.w) @ p[:, 0] * e[0]
        off = np.max(np.abs(r)) > tol
        check("orbital", s.phi[:, 0], p[:, 0] - off * x[:N])
        check("eigenvalue", s.eig[0], e[0] - off * x[N])


def clause_solver_choice():
    """the option chooses between the direct solve and the preconditioned iteration"""
    for direct in (False, True):
        g, N = basic_grid()
        s = solver(g, N, 0, 2, Nmo=1, phi=inp("phi", N, 1), eig=inp("eig", 1))
        s.optSolver.iter_lin_solver = not direct
        s.optSolver.tol_orbital = 0.5
        seen = []
        stub("scipy.sparse.linalg.spsolve", lambda A, b, **kw: (seen.append(("direct", A)), inp("x", N + 1))[1])
        stub("scipy.sparse.linalg.bicgstab", lambda A, b, M=None, **kw: (seen.append(("iterative", A, M, kw)), (inp("x", N + 1), 0))[1])
        stub("scipy.sparse.linalg.spilu", lambda A, *a, **kw: obj("ilu", solve=("inverse of", A)))
        stub("scipy.sparse.linalg.LinearOperator", lambda shape, matvec=None, **kw: (shape, matvec))
        stub("i_solver.normalize_orbitals", lambda self: None)
        stub("numpy.amax", lambda x, axis=None: np.array([1]))
        stub("numpy.max", lambda x, axis=None: np.array([1]))
        s.iter_orbitals()
        check_true("one solve", len(seen) == 1)
        check_true("kind of solve", seen[0][0] == ("direct" if direct else "iterative"))
        if not direct:
            for k in ("tol", "rtol"):
                if k in seen[0][3]:
                    check_true("accuracy of the iteration", seen[0][3][k] <= 1e-8)
            if seen[0][2] is not None:
                check("preconditioner rows", seen[0][2][0][0], N + 1)
                check("preconditioner columns", seen[0][2][0][1], N + 1)
                check("preconditioner of the same matrix", seen[0][2][1][1], seen[0][1])


def clause_converged_pairs():
    """orbitals that need no correction keep their levels, ordered or not"""
    g, N = basic_grid()
    s = solver(g, N, 0, 2, Nmo=2, phi=inp("phi", N, 2), eig=np.array([-1.0, -3.0]))
    stub("numpy.amax", lambda x, axis=None: np.array([0, 0]))
    stub("numpy.max", lambda x, axis=None: np.array([0, 0]))
    s.optSolver.tol_orbital = 0.5
    s.iter_orbitals()
    a, b = (0, 1) if s.eig[0] < -2 else (1, 0)
    check("lower level", s.phi[:, a], inp("phi", N, 2)[:, 1])
    check("upper level", s.phi[:, b], inp("phi", N, 2)[:, 0])
    check("its energy", s.eig[a], -3)
    check("upper energy", s.eig[b], -1)


def clause_converged_kept():
    g, N = basic_grid()
    s = solver(g, N, 0, 2, Nmo=2, phi=inp("phi", N, 2), eig=inp("eig", 2))
    stub("numpy.amax", lambda x, axis=None: np.array([0, 0]))
    stub("numpy.max", lambda x, axis=None: np.array([0, 0]))
    s.optSolver.tol_orbital = 0.5
    p = snap(s.phi)
    e = snap(s.eig)
    s.iter_orbitals()
    check("orbitals", s.phi, p)
    check("eigenvalues", s.eig, e)
    out = {}
    s.iter_orbitals(3, out)
    check("returned eigenvalues", out[3][0], s.eig)
    check("returned orbitals", out[3][1], s.phi)


def clause_first_step():
    """an iterative update without orbitals or energies starts from a diagonalisation"""
    for missing in ({"phi": None, "eig": None}, {"phi": None}, {"eig": None}):
        g, N = basic_grid()
        s, calls = diagonalise(g, N, [-3, -1], **missing)
        stub("numpy.amax", lambda x, axis=None: np.array([0, 0]))
        stub("numpy.max", lambda x, axis=None: np.array([0, 0]))
        s.optSolver.tol_orbital = 0.5
        s.iter_orbitals()
        check("diagonalised", len(calls), 1)
        check("eigenvalues", s.eig, np.array([-3, -1]))
        check("orbitals", s.phi, inp("v", N, 2))


def clause_normalised():
    """a corrected orbital is handed back normalised"""
    g, N = basic_grid()
    s = solver(g, N, 0, 2, Nmo=1, phi=inp("phi", N, 1), eig=inp("eig", 1))
    s.optSolver.iter_lin_solver = False
    s.optSolver.tol_orbital = 0.5
    p = snap(s.phi)
    x = inp("x", N + 1)
    stub("scipy.sparse.linalg.spsolve", lambda A, b, **kw: x)
    stub("numpy.amax", lambda x, axis=None: np.array([1]))
    stub("numpy.max", lambda x, axis=None: np.array([1]))
    s.iter_orbitals()
    q = p[:, 0] - x[:N]
    check("norm", s.phi[:, 0] * integral(q**2)**0.5, q)
