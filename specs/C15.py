import numpy as np
from scipy.sparse import diags, bmat
from scipy.sparse.linalg import spsolve
from speclibsolver import *


def linear_response(s, g, N, full, nu):
    H = s.H0 + diags(g.w * s.veff)
    W = diags(g.w)
    tot = 0
    for j in range(full + (1 if nu is not None else 0)):
        p = s.phi[:, j] / integral(s.phi[:, j]**2)**0.5
        c = W @ p
        A = bmat([[W * s.eig[j] - H, c[:, None]], [c[None], np.zeros((1, 1))]])
        b = bmat([[W @ diags(p)], [np.zeros((1, N))]])
        x = spsolve(A, b)
        k = 1 if j < full else nu
        tot = tot + k * 2 * diags(p) @ x[0:N, 0:N]
    return tot


def response(m, pol, full):
    occ = occupancy(m, pol)
    g, N = basic_grid()
    s = solver(g, N, m, pol, electrons=occ * full, Nmo=full, eig=inp("eig", full), phi=inp("phi", N, full))
    s.calc_response()
    check("response m=%d spin=%d levels=%d" % (m, pol, full), s.chi, occ * linear_response(s, g, N, full, None))


def clause_filled():
    for m in range(3):
        for pol in (1, 2):
            response(m, pol, 1)
            response(m, pol, 2)
    response(0, 1, 3)
    response(0, 2, 4)
    response(2, 1, 3)


def clause_whole_with_fractions():
    """fractional occupation switched on but nothing left over"""
    for m in range(2):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            g, N = basic_grid()
            s = solver(g, N, m, pol, True, electrons=occ, Nmo=1, eig=inp("eig", 1), phi=inp("phi", N, 1))
            s.calc_response()
            check("response m=%d spin=%d" % (m, pol), s.chi, occ * linear_response(s, g, N, 1, None))


def clause_leftover_without_fractions():
    """fractional occupation switched off: only the filled levels respond"""
    for m in range(2):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            g, N = basic_grid()
            s = solver(g, N, m, pol, False, electrons=occ + occ / 4, Nmo=2, eig=inp("eig", 2), phi=inp("phi", N, 2))
            s.calc_response()
            check("response m=%d spin=%d" % (m, pol), s.chi, occ * linear_response(s, g, N, 1, None))


def clause_fractional_upper():
    """the partly filled level above several filled ones"""
    for m in range(2):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            g, N = basic_grid()
            s = solver(g, N, m, pol, True, electrons=2 * occ + occ * 0.75, Nmo=4, eig=inp("eig", 4), phi=inp("phi", N, 4))
            s.calc_response()
            check("response m=%d spin=%d" % (m, pol), s.chi, occ * linear_response(s, g, N, 2, 0.75))


def clause_fractional():
    for m in range(2):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            for part in (0.25, 2 ** -30, 1 - 2 ** -30):
                g, N = basic_grid()
                s = solver(g, N, m, pol, True, electrons=occ + occ * part, Nmo=2, eig=inp("eig", 2), phi=inp("phi", N, 2))
                s.calc_response()
                check("response m=%d spin=%d share=%s" % (m, pol, part), s.chi, occ * linear_response(s, g, N, 1, part))
