import numpy as np


def grid(Na, Nr):
    return blank("Psgrid", Na=Na, Nr=Nr, Nelem=Na * Nr, a=num("a", pos=True), Xa=inp("Xa", Na * Nr), Xr=inp("Xr", Na * Nr))


def plane(Na, Nr, col, **kw):
    g = grid(Na, Nr)
    f = inp("f", Na * Nr, 1) if col else inp("f", Na * Nr)
    s = kw.get("sym", 1)
    full, z, x = g.plotter(f, **kw)
    height = g.a * np.cosh(g.Xr) * np.cos(g.Xa)
    dist = g.a * np.sinh(g.Xr) * np.sin(g.Xa)
    for what, r in (("values", full), ("heights", z), ("distances", x)):
        check("%s cover both half planes" % what, r.shape, (Na + 2, 2 * Nr))
    for i in range(Na + 2):
        # the first and last row continue the outermost ones across the axis
        p = min(max(i, 1), Na) - 1
        across = i in (0, Na + 1)
        for j in range(2 * Nr):
            left = j < Nr
            q = Nr - 1 - j if left else j - Nr
            if across:
                left = not left
            k = q * Na + p
            sign = -1 if left else 1
            check("function value", full[i, j], (s if left else 1) * (f[k, 0] if col else f[k]))
            check("height of the value", z[i, j], height[k])
            check("signed distance of the value", x[i, j], sign * dist[k])
    check("input kept", f, inp("f", Na * Nr, 1) if col else inp("f", Na * Nr))


def clause_plane():
    plane(3, 2, False)


def clause_plane_column():
    plane(2, 4, True)


def clause_plane_odd():
    plane(3, 3, False, sym=-1)
    plane(2, 3, True, sym=num("s"))


def profile(Na, Nr):
    f = inp("f", Na * Nr)
    # heights of a mesh, falling within a shell and growing from shell to shell, mirror symmetric to the last digit
    step = [Na - 1 - 2 * i for i in range(Na)]
    Z = np.array([1.0 * (10 + j) * s for j in range(Nr) for s in step])
    g = blank("Psgrid", Na=Na, Nr=Nr, Nelem=Na * Nr, Z=Z)
    xs, ys = g.axis_plot(f)
    check("as many values as heights", len(xs), len(ys))
    seen = []
    for n in range(len(xs)):
        k = [k for k in range(Na * Nr) if Z[k] == xs[n]]
        check("height of a grid point", len(k), 1)
        check("value of that point", ys[n], f[k[0]])
        seen.append(k[0])
        if n:
            check_true("heights ascend", xs[n] >= xs[n - 1])
    for k in range(Na * Nr):
        i, j = k % Na, k // Na
        if j == 0 or i == 0 or (i == Na - 1 and j < Nr - 1):
            check_true("nearest points to the axis are shown", k in seen)
        elif i != Na - 1:
            check_true("points off the axis are not shown", k not in seen)
    check("input kept", f, inp("f", Na * Nr))


def clause_axis():
    profile(4, 3)


def clause_axis_long():
    profile(2, 4)
    profile(6, 2)
