import numpy as np
from speclibpart import *


def prepare(pol, ens, ab=False, flip=False, nl=1, levels_b=None, orbs=1):
    p, g, N = partition(pol, ens, nl, levels_b=levels_b, ab_sym=ab, ens_spin_sym=flip)
    setattrs(g, wi=inp("wi", N, pos=True))
    stub("numpy.nan_to_num", lambda x, **kw: x)
    stub("i_solver.hamiltonian", lambda self: setattrs(self, H0=op("H%d" % self.m, N, N)))
    for t, k in both(p):
        setattrs(k, veff=inp("veff_" + t, N, pol), Q=inp("Q_" + t, N, pol), u=num("u_" + t))
        for i in range(k.solver.shape[0]):
            for j in range(pol):
                setattrs(k.solver[i, j], phi=inp("phi_%s%d%d" % (t, i, j), N, orbs), H0=op("H%d" % i, N, N))
    pencils = []

    def eig(a, b=None, **kw):
        n = a.shape[0]
        pencils.append([a, b])
        t = len(pencils) - 1
        # levels come in falling order
        return np.array([1.0 * (n - i) for i in range(n)]), inp("vec%d" % t, n, n)

    stub("scipy.linalg.eig", eig)
    stub("scipy.linalg.eigh", eig)
    return p, g, N, pencils


def average(p, N, pol, s):
    return sum([inp("veff_" + t, N, pol)[:, s] * inp("Q_" + t, N, pol)[:, s] for t, k in both(p)])


def clause_potential():
    """share weighted average of the fragments' potentials, per spin"""
    for pol, ens in ((1, False), (1, True), (2, False), (2, True)):
        p, g, N, pencils = prepare(pol, ens)
        for s in range(pol):
            phi, e, v = p.initialguessinvert(s)
            check("shape", v.shape, (N, 1))
            check("spin %d of %d ensemble=%s" % (s, pol, ens), v[:, 0], average(p, N, pol, s))
        for t, k in both(p):
            check("potential kept " + t, k.veff, inp("veff_" + t, N, pol))
            check("share kept " + t, k.Q, inp("Q_" + t, N, pol))


def clause_potential_mirror():
    for pol, ens in ((1, False), (2, True)):
        p, g, N, pencils = prepare(pol, ens, ab=True)
        x, y = parts(p)
        for s in range(pol):
            phi, e, v = p.initialguessinvert(s)
            h = sum([inp("veff_" + t, N, pol)[:, s] * inp("Q_" + t, N, pol)[:, s] for t, k in x])
            check("spin %d of %d ensemble=%s" % (s, pol, ens), v[:, 0], h + mirrored(h))


def inner(q, x, y):
    return np.sum(q * x * y)


def basis(names, N, i, s, orbs, q):
    out = []
    for t in names:
        f = inp("phi_%s%d%d" % (t, i, s), N, orbs)
        for j in range(orbs):
            out.append(f[:, j] / np.sqrt(inner(q, f[:, j], f[:, j])))
    return out


def orbitals(pol, ens, nl=1, levels_b=None, orbs=1, ab=False, flip=False):
    for s in range(pol):
        p, g, N, pencils = prepare(pol, ens, ab=ab, flip=flip, nl=nl, levels_b=levels_b, orbs=orbs)
        phi, e, v = p.initialguessinvert(s)
        q = 2 * np.pi * g.hr * g.ha * g.wi * g.w
        r = 2 * np.pi * g.hr * g.ha * g.wi
        x, y = parts(p)
        lb = nl if levels_b is None else levels_b
        tag = "spin %d of %d ensemble=%s levels=%d,%d orbitals=%d" % (s, pol, ens, nl, lb, orbs)
        check(tag + ": one problem per level", len(pencils), max(nl, lb))
        pot = v[:, 0] if ab or flip else average(p, N, pol, s)
        at = 0
        for i in range(max(nl, lb)):
            names = ([t for t, k in x] if i < nl else []) + ([t for t, k in y] if i < lb else [])
            if ab:
                names = [t for t, k in x]
            b = basis(names, N, i, s, orbs, q)
            if ab:
                b = b + [mirrored(f) / np.sqrt(inner(q, mirrored(f), mirrored(f))) for f in b]
            n = len(b)
            F, S = pencils[i]
            H = op("H%d" % i, N, N)
            for l in range(n):
                for m in range(n):
                    check(tag + ": overlap level %d" % i, S[l, m], inner(q, b[l], b[m]))
                    check(tag + ": energy level %d" % i, F[l, m], np.sum(r * b[l] * (H @ b[m])) + inner(q, b[l] * pot, b[m]))
            c = inp("vec%d" % i, n, n)
            for l in range(n):
                check(tag + ": level %d energies rise" % i, e[at + l], 1.0 * (l + 1))
                o = sum([b[m] * c[m, n - 1 - l] for m in range(n)])
                occ = (2 if i == 0 else 4) / (2 if flip else 1)
                check(tag + ": level %d orbital %d" % (i, l), phi[:, at + l], o * np.sqrt(occ / inner(q, o, o)))
            at = at + n
        check(tag + ": number of orbitals", phi.shape, (N, at))


def clause_orbitals():
    """combinations of the fragments' orbitals that diagonalise the Hamiltonian of that potential, normalised to their occupation"""
    orbitals(1, False)
    orbitals(2, False)
    orbitals(1, True)


def clause_orbitals_levels():
    orbitals(1, False, 2)
    orbitals(1, False, 1, 2)
    orbitals(1, False, 2, 1)


def clause_orbitals_mirror():
    """the second fragment's orbitals are the mirror images of the first one's"""
    orbitals(1, False, ab=True)
    orbitals(1, True, ab=True)


def clause_orbitals_spin_symmetric():
    orbitals(2, False, flip=True)
