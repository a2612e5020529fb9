"""Scenarios for igakit.plot (seeded; nothing is judged here)."""
import gen as G

WIRES = ["d_cwire", "d_kwire", "d_curve"]
ALL = ["d_cpoint", "d_cwire", "d_cwire", "d_kpoint", "d_kwire", "d_kwire", "d_ksurf", "d_ksurf", "d_curve", "d_curve",
       "d_surface", "d_surface", "d_volume", "d_plot", "d_cplot", "d_kplot"]


def draw(r, dim, mpl=0.35):
    op = r.choice(ALL)
    st = {"op": op, "self": "x", "res": [r.choice([2, 3, 5]), r.choice([2, 3])]}
    x = r.random()
    if x < mpl:
        st["backend"] = "mpl"
    elif x < mpl + 0.05:
        st["backend"] = "nul"
    if op in WIRES or (op == "d_plot" and dim == 1):
        x = r.random()
        if x < 0.25:
            st["mode"] = r.choice(["line", "tube"])
        elif x < 0.3:
            st["mode"] = "dots"
    if op in ("d_kwire", "d_ksurf") and r.random() < 0.6:
        x = r.random()
        if x < 0.4:
            st["axes"] = G.axis(r, dim)
        elif x < 0.9:
            st["axes"] = [G.axis(r, dim) for _ in range(r.choice([1, 2, 2, 3]))]
            st["tuple"] = r.random() < 0.5
        else:
            st["axes"] = r.choice([dim, -dim - 1, [0, dim]])
    if op in ("d_cpoint", "d_kpoint") and r.random() < 0.3:
        st["mode"] = r.choice(["sphere", "cube", "cone"] + (["point", "axes"] if st.get("backend") != "mpl" else []))
    st["kw"] = options(r, op, st.get("backend", "rec"))
    return st


def options(r, op, backend):
    """what callers say about the look; matplotlib is to overlook what only mayavi knows"""
    kw = {}
    if r.random() < 0.25:
        kw["color"] = r.choice([[1, 0, 0], [0, 0, 1], [0.25, 0.5, 1], [0, 1, 0]])
    elif r.random() < 0.08 and op in ("d_curve", "d_surface", "d_volume", "d_ksurf", "d_plot"):
        kw["color"] = None
    if r.random() < 0.3:
        both = [("name", "n1"), ("opacity", 0.5), ("colormap", "jet"), ("resolution", 8), ("line_width", 2.0)]
        if op in ("d_cpoint", "d_kpoint", "d_points"):
            both += [("scale_factor", 0.5), ("scale_mode", "none"), ("representation", "surface")]
        elif op in ("d_surface", "d_volume", "d_ksurf"):
            both += [("scale_factor", 0.5), ("scale_mode", "none"), ("tube_radius", 0.25), ("tube_sides", 6)]
        elif op in ("d_cplot", "d_kplot", "d_plot"):
            pass
        else:
            both += [("tube_radius", 0.25), ("tube_sides", 6)]
        if backend == "rec":
            both += [("extent", "e"), ("figure", "f")]
        for k, v in r.sample(both, r.choice([1, 1, 2, 3, len(both)])):
            kw[k] = v
    return kw


def scen(r):
    d = r.choice([1, 1, 2, 2, 2, 3, 3])
    g, dim = G.given(r, dim=d, ident=False, nf=r.choice([0, 0, 1]), total={1: 8, 2: 12, 3: 18}[d],
                     pmax=3, smax=3 if d < 3 else 2, extreme=0)
    g["net"]["dim"] = r.choice([dim, 3, 3])
    steps = [g]
    if r.random() < 0.2:
        steps.append(r.choice([lambda: G.c_insert(r, "x", dim), lambda: G.c_reverse(r, "x", dim),
                               lambda: G.c_remap(r, "x", dim), lambda: G.c_affine(r, "x"),
                               lambda: G.c_unclamp(r, "x", dim)])())
    for _ in range(r.choice([1, 2, 3])):
        steps.append(draw(r, dim))
    return steps


def points(r, backends):
    st = {"op": "d_points", "seed": r.randrange(10**6),
          "sh": r.choice([[2], [3], [1], [4, 1], [5, 2], [3, 3], [2, 3, 3], [2, 2, 2, 3], [2, 4], [4], [3, 2, 2]]),
          "how": r.choice(["array", "list", "F", "strided"]), "backend": r.choice(backends)}
    st["kw"] = options(r, "d_points", st["backend"])
    if r.random() < 0.3:
        st["mode"] = r.choice(["sphere", "cube", "cone"])
    return st


def quiver(r, backends):
    sh = r.choice([[3], [2], [4, 3], [4, 2], [2, 3, 3], [2, 3, 2], [3, 4]])
    v = sh[:-1] + [r.choice([sh[-1], 2, 3])] if len(sh) > 1 else sh
    st = {"op": "d_quiver", "seed": r.randrange(10**6), "sh": sh, "vsh": v,
          "how": r.choice(["array", "list", "F", "strided"]), "backend": r.choice(backends)}
    if r.random() < 0.4:
        st["kw"] = {"color": [0, 0, 1], "scale_factor": 2}
    if r.random() < 0.3:
        st["mode"] = r.choice(["2darrow", "cone"])
    return st


NAMES = ["matplotlib", "mpl", "mayavi", "myv", "null", "none", "nul"]
BAD = ["gnuplot", "", "Mpl", "plot", "MPL"]


def loose(r):
    """points, arrows"""
    return [points(r, ["rec", "rec", "mpl", "nul"]) if r.random() < 0.6 else quiver(r, ["rec", "rec", "rec", "nul"])
            for _ in range(3)]


def plotters(r):
    """several plotters, each with its own back end, used in turn"""
    if r.random() < 0.06:
        return [{"op": "d_fresh", "module": r.random() < 0.5,
                 "names": [r.choice(NAMES + BAD[:1]) for _ in range(r.choice([0, 1, 2, 3]))]}]
    d = r.choice([1, 1, 2])
    g, dim = G.given(r, dim=d, ident=False, nf=0, total={1: 6, 2: 9}[d], pmax=2, smax=2, extreme=0)
    g["net"]["dim"] = 3
    steps, ps = [g], []
    for k in range(r.choice([1, 2, 2, 3])):
        st = {"op": "d_plotter", "out": "p%d" % k}
        if k == 0 and r.random() < 0.4:
            st.update(module=True, name=r.choice(NAMES))
        elif r.random() < 0.4:
            st["name"] = r.choice(NAMES + BAD[:1])
        steps.append(st)
        ps.append(st["out"])
    for _ in range(r.choice([3, 4, 5, 6])):
        p, x = r.choice(ps), r.random()
        if x < 0.35:
            steps.append({"op": "d_use", "self": p, "name": r.choice(NAMES + BAD if r.random() < 0.4 else NAMES),
                          "prop": r.random() < 0.5})
        elif x < 0.5:
            steps.append({"op": "d_attr", "self": p, "name": r.choice(["points3d", "line3d", "surf3d"])})
        else:
            st = draw(r, dim, mpl=0) if x < 0.9 else points(r, ["rec"])
            if r.random() < 0.3 and st.get("self"):
                st["op"] = r.choice(["d_plot", "d_cplot", "d_kplot"])
                for k in ("mode", "axes", "tuple"):
                    st.pop(k, None)
                st["kw"] = {}
            st.pop("backend", None)
            for k in ("extent", "figure"):
                st.get("kw", {}).pop(k, None)
            if st.get("mode") in ("point", "axes"):
                st.pop("mode")
            steps.append(dict(st, plotter=p))
    return steps
