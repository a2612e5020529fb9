"""igakit.plot: what is handed to, or drawn by, a back end.

A recording module stands in for the mayavi back end (mayavi is not
installed); matplotlib is the real one on its non-interactive canvas, and what
it drew is read off the axes afterwards.
"""
import sys
import types

import interp
from interp import tok, toks, arr
from interp_ops import reg


def register(OPS):
    np = interp.np
    rec = types.ModuleType("igakit.plot_myv")
    drawn = []

    class Bag(object):
        """what mayavi's points3d returns, as far as it is used"""

    def show(kw, k):
        """an option: "" not given, or what it is"""
        if k not in kw:
            return ""
        v = kw[k]
        if isinstance(v, (list, tuple, np.ndarray)):
            return " ".join(tok(x) for x in v)
        return tok(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v)

    def look(kw):
        named = ("mode", "color", "representation", "tube_radius")
        d = dict((k, show(kw, n)) for k, n in zip(("mode", "color", "rep", "tube"), named))
        d["rest"] = sorted("%s=%s" % (k, show(kw, k)) for k in kw if k not in named)
        return d

    def item(kind, kw, *xyz):
        """natural order: back ends get transposed coordinate arrays"""
        a = np.stack([np.asarray(c, dtype="d").T for c in xyz], axis=-1)
        bag = Bag()
        bag.glyph = Bag()
        bag.glyph.glyph = Bag()
        bag.glyph.glyph.scale_factor = 1.0
        drawn.append((dict(kind=kind, sh=[int(n) for n in a.shape[:-1]], A=toks(a), look=look(kw)), bag))
        return bag
    rec.points3d = lambda x, y, z, **kw: item("points", kw, x, y, z)
    rec.quiver3d = lambda x, y, z, u, v, w, **kw: item("quiver", kw, x, y, z, u, v, w)

    def line3d(lines, **kw):
        for xyz in lines:
            item("lines", kw, *xyz)
    rec.line3d = line3d

    def surf3d(surfs=(), **kw):
        for xyz in surfs:
            item("surf", kw, *xyz)
    rec.surf3d = surf3d
    rec._resolution = {1: 5, 2: 3}
    sys.modules["igakit.plot_myv"] = rec
    interp.igakit.plot_myv = rec
    state = {}

    def plotter(name):
        if name not in state:
            import igakit.plot
            if name == "mpl":
                import matplotlib
                matplotlib.use("agg")
            state[name] = igakit.plot.Plotter({"rec": "mayavi", "mpl": "matplotlib", "nul": "null"}[name])
            state[name].backend
        return state[name]

    def mpl():
        return sys.modules.get("igakit.plot_mpl")

    def start(name, P, res):
        """Everything blank; -> the resolutions the back end now has."""
        del drawn[:]
        if name == "mpl":
            P.backend
        rec._resolution.update({1: res[0], 2: res[1]})
        if mpl() is not None:
            mpl()._resolution.update({1: res[0], 2: res[1]})
            if name == "mpl" or figures():
                mpl().clf()
        return [int(k) for k in res]

    def figures():
        import matplotlib.pyplot as mp
        return mp.get_fignums()

    def finish():
        """-> what has been drawn, by whom"""
        out = []
        for d, bag in drawn:
            out.append(dict(d, look=dict(d["look"], scale=tok(bag.glyph.glyph.scale_factor))))
        on = ["rec"] if out else []
        if mpl() is None or not figures():
            return dict(items=out, on=on, axes=0)
        import matplotlib.pyplot as mp
        from matplotlib.colors import to_rgb
        from matplotlib.markers import MarkerStyle

        def rgb(c):
            try:
                return " ".join(tok(float(x)) for x in to_rgb(c))
            except Exception:
                return "?"

        def marker(c):
            v = np.asarray(c.get_paths()[0].vertices)
            for m in "os^":
                q = MarkerStyle(m)
                w = q.get_path().transformed(q.get_transform()).vertices
                if w.shape == v.shape and np.allclose(v, w):
                    return m
            return "?"
        blank = dict(mode="", color="", rep="", tube="", rest=[], scale="1")
        add = lambda kind, sh, A, **lk: mine.append(dict(kind=kind, sh=sh, A=A, look=dict(blank, **lk)))
        mine = []
        for ax in mp.gcf().axes:
            for l in ax.lines:
                a = np.stack([np.asarray(c, dtype="d") for c in l.get_data_3d()], axis=-1)
                add("lines", [len(a)], toks(a), color=rgb(l.get_color()))
            for c in ax.collections:
                if type(c).__name__ == "Path3DCollection":
                    a = np.stack([np.ma.getdata(np.ma.asarray(x, dtype="d")) for x in c._offsets3d], axis=-1)
                    add("points", [len(a)], toks(a), color=rgb(np.asarray(c.get_facecolor())[0][:3]), mode=marker(c))
                elif type(c).__name__ == "Line3DCollection":
                    for s in c._segments3d:
                        add("lines", [len(s)], toks(s), color=rgb(np.asarray(c.get_edgecolor())[0][:3]))
                elif type(c).__name__ == "Poly3DCollection":
                    f = np.asarray(c._faces, dtype="d")
                    if f.ndim != 3 or f.shape[1:] != (4, 3):
                        add("quiver", [], [])
                    else:
                        add("faces", [len(f)], toks(f), mode="plain" if c.get_array() is None else "mapped")
                else:
                    add("quiver", [], [])
        axes = len(mp.gcf().axes)
        mp.clf()
        return dict(items=out + mine, on=on + (["mpl"] if mine else []), axes=axes)

    def given(st):
        """the options of a call -> (them, as logged)"""
        kw = dict(st.get("kw", {}))
        lk = look(kw)
        if "mode" in st:
            kw["mode"] = st["mode"]
        return kw, dict(color=lk["color"], rep=lk["rep"], tube=lk["tube"], rest=lk["rest"],
                        scaled="scale_factor" in kw)

    def chosen(env, st):
        """the plotter of a step -> (it, its name in the session, back end known to the driver)"""
        if "plotter" in st:
            return env.heap[st["plotter"]], st["plotter"], ""
        name = st.get("backend", "rec")
        return plotter(name), "", name

    NONE = dict(items=[], on=[], axes=0)

    def drawing(op):
        meth = op[2:]

        @reg(OPS, op)
        def _(env, st):
            o = env.heap[st["self"]]
            P, pl, name = chosen(env, st)
            kw, opts = given(st)
            axes = []
            if "axes" in st:
                v = st["axes"]
                axes = [v if isinstance(v, list) else [v]]
                kw["axes"] = tuple(v) if isinstance(v, list) and st.get("tuple") else v
            res = start(name, P, st.get("res", [5, 3]))
            f = getattr(P, meth)
            if id(P) in behind and meth in ("plot", "cplot", "kplot"):
                f = getattr(interp.igakit.plot, meth)

            def call():
                f(o, **kw)
                touched(P)
                return finish()
            return dict(a=dict(backend=name, plotter=pl, mode=st.get("mode", ""), kw=opts, axes=axes,
                               res1=res[0], res2=res[1]),
                        call=call, log=lambda v: v, noval=NONE)
    for op in ("cpoint", "cwire", "kpoint", "kwire", "ksurf", "curve", "surface", "volume", "plot", "cplot", "kplot"):
        drawing("d_" + op)

    def array(seed, sh):
        rng = interp.random.Random(seed)
        return interp.fine(np.array([rng.randint(-64, 64) / 8 for _ in range(int(np.prod(sh)))]).reshape(sh), seed)

    @reg(OPS, "d_points")
    def _(env, st):
        P, pl, name = chosen(env, st)
        X = array(st["seed"], st["sh"])
        kw, opts = given(st)
        start(name, P, [5, 3])
        g = env.give(X, st.get("how", "array"))

        def call():
            P.points(g, **kw)
            touched(P)
            return finish()
        return dict(a=dict(backend=name, plotter=pl, mode=st.get("mode", ""), kw=opts, axes=[], res1=5, res2=3, P=arr(X)),
                    call=call, log=lambda v: v, noval=NONE)

    @reg(OPS, "d_quiver")
    def _(env, st):
        P, pl, name = chosen(env, st)
        X, V = array(st["seed"], st["sh"]), array(st["seed"] + 1, st["vsh"])
        kw, opts = given(st)
        start(name, P, [5, 3])
        g, h = env.give(X, st.get("how", "array")), env.give(V, st.get("how", "array"))

        def call():
            P.quiver(g, h, **kw)
            touched(P)
            return finish()
        return dict(a=dict(backend=name, plotter=pl, mode=st.get("mode", ""), kw=opts, axes=[], res1=5, res2=3,
                           P=arr(X), V=arr(V)), call=call, log=lambda v: v, noval=NONE)

    # --- plotters and the back ends they use ---
    def short(m):
        return "rec" if m is rec else m.__name__.rsplit("_", 1)[-1]

    used, behind = {}, {}               # plotters that have a back end; that igakit.plot's functions use

    def touched(P):
        used[id(P)] = P

    def back(P):
        """shown in the heap: asking a plotter not used so far would make it choose"""
        return short(P.backend) if id(P) in used else ""
    interp.plotters = (lambda x: isinstance(x, interp.igakit.plot.Plotter), lambda x: {"B": back(x)})

    @reg(OPS, "d_plotter")
    def _(env, st):
        import igakit.plot
        import matplotlib
        matplotlib.use("agg")

        def call():
            if st.get("module"):        # the one behind igakit.plot's own functions, put into a known state
                P = igakit.plot.plt
                igakit.plot.use(st["name"])
                behind[id(P)] = P
            else:
                P = igakit.plot.Plotter(st["name"]) if "name" in st else igakit.plot.Plotter()
            if "name" in st:
                touched(P)
            return P
        return dict(a=dict(name=[st["name"]] if "name" in st else []), kind="object", call=call, out=[st["out"]])

    @reg(OPS, "d_use")
    def _(env, st):
        P = env.heap[st["self"]]

        def call():
            if st.get("prop"):
                P.backend = st["name"]
            elif id(P) in behind:
                interp.igakit.plot.use(st["name"])
            else:
                P.use(st["name"])
            touched(P)
        return dict(a=dict(name=st["name"]), call=call, noval=dict(none=0), log=lambda m: dict(none=0))

    @reg(OPS, "d_attr")
    def _(env, st):                     # what is not a plotter's own is the back end's
        P = env.heap[st["self"]]

        def call():
            f = getattr(P, st["name"])
            touched(P)
            return f

        def log(f):
            for m in (rec, sys.modules.get("igakit.plot_mpl"), sys.modules.get("igakit.plot_nul")):
                if m is not None and f is getattr(m, st["name"], None):
                    return dict(got=short(m))
            return dict(got="other")
        return dict(a=dict(name=st["name"]), call=call, noval=dict(got=""), log=log)

    @reg(OPS, "d_fresh")
    def _(env, st):                     # a process without mayavi
        import json
        import os
        import subprocess
        code = """
import sys, json
sys.path.insert(0, %r)
import igaload
ig = igaload.load()
import igakit.plot as pl
sys.modules["igakit.plot_myv"] = None
P = pl.plt if %r else pl.Plotter()
out = []
for n in %r:
    try:
        P.use(n)
        out.append("ok")
    except Exception as e:
        out.append("refused")
out.append(P.backend.__name__.rsplit("_", 1)[-1])
print(json.dumps(out))
""" % (os.path.dirname(os.path.abspath(__file__)), bool(st.get("module")), st["names"])

        def call():
            p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            return json.loads(p.stdout.decode())
        return dict(a=dict(names=st["names"]), call=call, noval=dict(got=[]), log=lambda v: dict(got=v))
