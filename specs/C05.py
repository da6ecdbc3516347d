import numpy as np


def grid(Na, Nr):
    return blank("Psgrid", Na=Na, Nr=Nr, Nelem=Na * Nr)


def mir(f, Na, Nr):
    return np.array([f[j * Na + Na - 1 - i] for j in range(Nr) for i in range(Na)])


def one(Na, Nr):
    g = grid(Na, Nr)
    f = inp("f", Na * Nr)
    m = g.mirror(f)
    check("vector", m, mir(f, Na, Nr))
    check("involution", g.mirror(m), f)
    check("input kept", f, inp("f", Na * Nr))
    f1 = inp("c", Na * Nr, 1)
    check("one column", g.mirror(f1)[:, 0], mir(f1[:, 0], Na, Nr))
    check("one column keeps its shape", g.mirror(f1).shape, f1.shape)
    f2 = inp("s", Na * Nr, 2)
    m2 = g.mirror(f2)
    check("spin columns 0", m2[:, 0], mir(f2[:, 0], Na, Nr))
    check("spin columns 1", m2[:, 1], mir(f2[:, 1], Na, Nr))
    check("columns involution", g.mirror(m2), f2)
    sq = g.square(f2)
    for s in range(2):
        for j in range(Nr):
            for i in range(Na):
                check("square layout", sq[i, j, s], f2[j * Na + i, s])
    sf = g.spinflip(f2)
    check("spinflip first", sf[:, 0], f2[:, 1])
    check("spinflip second", sf[:, 1], f2[:, 0])
    check("spinflip involution", g.spinflip(sf), f2)
    check("spinflip and mirror commute", g.mirror(sf), g.spinflip(m2))
    check("input kept 2", f2, inp("s", Na * Nr, 2))
    check("single spin", g.spinflip(f1), f1)
    check("spinless vector", g.spinflip(f), f)


def clause_mesh_32():
    one(3, 2)


def clause_mesh_43():
    one(4, 3)


def clause_meshes():
    for Na, Nr in ((2, 1), (2, 2), (2, 5), (3, 1), (5, 2), (6, 1), (7, 3), (3, 8)):
        one(Na, Nr)


def clause_coordinates():
    """points and volume elements related by the mirror have opposite height and equal distance and weight"""
    stub("Psgrid.operators", lambda self: None)
    stub("Psgrid.finite_difference_1d", lambda self: None)
    stub("Psgrid.finite_difference_2d", lambda self: None)
    stub("Psgrid.factorize_laplacian", lambda self, d=None: None)
    g = cls("Psgrid")(3, [2, 3], num("a", pos=True), num("L", pos=True), np.array([-2, -1, 0, 1, 2]))
    g.initialize()
    check("height changes sign", g.mirror(g.Z), -g.Z)
    check("distance from the axis kept", g.mirror(g.Y), g.Y)
    check("volume element kept", g.mirror(g.w), g.w)
    check("quadrature weight kept", g.mirror(g.wi), g.wi)
    check("angular potential kept", g.mirror(g.f), g.f)
