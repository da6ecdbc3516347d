import numpy as np
from speclibsolver import *


def clause_homo():
    for m in range(3):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            for k in range(4):
                g, N = basic_grid()
                s = solver(g, N, m, pol, electrons=occ * k, Nmo=5, eig=inp("eig", 5), phi=inp("phi", N, 5))
                h = s.get_homo()
                want = s.eig[k - 1] if k > 0 else -1 / np.finfo(float).eps
                check("filled m=%d spin=%d levels=%d" % (m, pol, k), h, want)
                check("kept m=%d spin=%d levels=%d" % (m, pol, k), s.homo, want)


def clause_homo_fractional():
    for m in range(3):
        for pol in (1, 2):
            occ = occupancy(m, pol)
            for k in range(3):
                for part in (1 / 4, 2 ** -30, 1 - 2 ** -30):
                    g, N = basic_grid()
                    s = solver(g, N, m, pol, True, electrons=occ * k + occ * part, Nmo=5, eig=inp("eig", 5), phi=inp("phi", N, 5))
                    check("partly filled m=%d spin=%d levels=%d share=%s" % (m, pol, k, part), s.get_homo(), s.eig[k])
