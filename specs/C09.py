import numpy as np
from speclibphys import *


def library():
    def construct(fid, pol):
        return obj("library", name=fid, pol=pol, compute=lambda data: evaluate(fid, pol, data))

    def evaluate(fid, pol, data):
        rho = data["rho"]
        cols = [rho[:, k] for k in range(pol)]
        extra = []
        if "sigma" in data:
            s = data["sigma"]
            extra = [s[:, k] for k in range(s.shape[1])]
        name = fid + "/" + str(pol) + "/"
        out = {"zk": np.array([pointwise(name + "zk", *cols, *extra)]).T,
               "vrho": np.array([pointwise(name + "vrho%d" % k, *cols, *extra) for k in range(pol)]).T}
        if "sigma" in data:
            out["vsigma"] = np.array([pointwise(name + "vsigma%d" % k, *cols, *extra) for k in range(len(extra))]).T
        return out
    stub("pylibxc.LibXCFunctional", construct)


def sigma_(self, n):
    k = n.shape[1]
    if k == 1:
        return np.array([fun("sigma0", n[:, 0], n)]).T
    return np.array([fun("sigma%d" % j, n[:, 0], n) for j in range(3)]).T


def setup(pol, family, fid):
    g, N = basic_grid()
    library()
    stub("Psgrid.sigma", sigma_)
    n = inp("n", N, pol, pos=True)
    x = cls("Libxc")(g, family, fid)
    cols = [n[:, k] for k in range(pol)]
    s = sigma_(g, n)
    extra = [] if family == "lda" else [s[:, k] for k in range(s.shape[1])]

    def val(what):
        return pointwise(fid + "/" + str(pol) + "/" + what, *cols, *extra)
    return g, N, n, x, val


def lda(pol):
    g, N, n, x, val = setup(pol, "lda", "functional")
    e, v = x.get_xc(n)
    total = sum([n[:, k] for k in range(pol)])
    check("energy", e, integral(val("zk") * total))
    for k in range(pol):
        check("potential spin %d" % k, v[:, k], val("vrho%d" % k))
    e2, eps, v2 = x.get_xc(n, return_epsilon=True)
    check("energy per particle", eps[:, 0], val("zk"))
    check("same energy", e2, e)
    check("same potential", v2, v)
    check("density kept", n, inp("n", N, pol, pos=True))


def gga(pol):
    g, N, n, x, val = setup(pol, "gga", "functional")
    e, v = x.get_xc(n)
    total = sum([n[:, k] for k in range(pol)])
    check("energy", e, integral(val("zk") * total))
    ga = [g.grada @ n[:, k] for k in range(pol)]
    gr = [g.gradr @ n[:, k] for k in range(pol)]
    if pol == 1:
        vs = val("vsigma0")
        check("potential", v[:, 0], val("vrho0") - 2 * div(g, vs * ga[0], vs * gr[0]))
    else:
        m = val("vsigma1")
        for k in range(2):
            vs = val("vsigma%d" % (2 * k))
            o = 1 - k
            check("potential spin %d" % k, v[:, k],
                  val("vrho%d" % k) - 2 * div(g, vs * ga[k], vs * gr[k]) - div(g, m * ga[o], m * gr[o]))
    e2, eps, v2 = x.get_xc(n, return_epsilon=True)
    check("energy per particle", eps[:, 0], val("zk"))
    check("same potential", v2, v)
    check("density kept", n, inp("n", N, pol, pos=True))


def clause_lda_one():
    lda(1)


def clause_lda_two():
    lda(2)


def clause_gga_one():
    gga(1)


def clause_gga_two():
    gga(2)


def clause_other_family():
    g, N, n, x, val = setup(1, "mgga", "functional")
    check_true("unknown family refused", raises(x.get_xc, n))
