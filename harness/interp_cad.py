"""igakit.cad: constructions."""
import interp
from interp import tok, toks, arr
from interp_ops import reg, opt


def register(OPS):
    np = interp.np
    cad = interp.igakit.cad

    def vec(env, v, how=None):
        """a number or a short vector -> (log, the thing to pass)"""
        if isinstance(v, (list, tuple)):
            return dict(nd=1, x=[tok(x) for x in v]), (env.give(v, how) if how else v)
        return dict(nd=0, x=[tok(v)]), v

    def objs(env, st):
        """the objects named, or None when one was never made"""
        if any(n not in env.heap for n in st["objs"]):
            return None
        return [env.heap[n] for n in st["objs"]]

    def new(st, names, a, call):
        return dict(a=dict(a, objs=names), kind="object", out=[st["out"]], call=call)

    def angle(v):
        """-> (log, kwargs)"""
        if v is None:
            return [], {}
        if isinstance(v, (list, tuple)):
            return [opt(v[0], tok), opt(v[1], tok)], {"angle": v}
        return [[], [tok(v)]], {"angle": v}

    @reg(OPS, "c_line")
    def _(env, st):
        kw, a = {}, {}
        for k, dflt in (("p0", [0.0, 0.0]), ("p1", [1.0, 0.0])):
            if k in st:
                a[k], kw[k] = vec(env, st[k], st.get("how"))
            else:
                a[k] = dict(nd=1, x=[tok(x) for x in dflt])
        return new(st, [], a, lambda: cad.line(**kw))

    @reg(OPS, "c_circle")
    def _(env, st):
        a = dict(radius=tok(st.get("radius", 1)), center=[])
        a["angle"], kw = angle(st.get("angle"))
        if "radius" in st:
            kw["radius"] = st["radius"]
        if st.get("center") is not None:
            c, kw["center"] = vec(env, st["center"], st.get("how"))
            a["center"] = [c]
        return new(st, [], a, lambda: cad.circle(**kw))

    @reg(OPS, "c_linear")
    def _(env, st):
        d = st["dim"]
        f = {1: cad.linear, 2: cad.bilinear, 3: cad.trilinear}[d]
        if "points" not in st:
            return new(st, [], dict(dim=d, points=[]), lambda: f())
        rng = interp.random.Random(st["points"]["seed"])
        sh = tuple(st["points"]["sh"])
        P = np.array([rng.randint(1, 40) / 8 for _ in range(int(np.prod(sh)))]).reshape(sh)
        if sh[-1] < 4:
            P = P - 2.5
        g = env.give(P, st.get("how", "array"))
        return new(st, [], dict(dim=d, points=[arr(P)]), lambda: f(g))

    @reg(OPS, "c_grid")
    def _(env, st):
        def iv(v):
            return dict(nd=1, x=[int(x) for x in v]) if isinstance(v, (list, tuple)) else dict(nd=0, x=[int(v)])
        how = st.get("how")

        def give(v):
            if how == "array" and isinstance(v, (list, tuple)):
                g = np.array(v)
                env.own.append(g)
                return g
            return v
        kw = {}
        a = dict(shape=iv(st["shape"]), degree=iv(st.get("degree", 2)), continuity=[],
                 limits=dict(nd=1, x=["0", "1"]), wrap=dict(nd=0, x=[False]))
        if "degree" in st:
            kw["degree"] = give(st["degree"])
        if st.get("continuity") is not None:
            a["continuity"] = [iv(st["continuity"])]
            kw["continuity"] = give(st["continuity"])
        if "limits" in st:
            L = st["limits"]
            kw["limits"] = give(L)
            if isinstance(L[0], (list, tuple)):
                a["limits"] = dict(nd=2, x=[[tok(x) for x in q] for q in L])
            else:
                a["limits"] = dict(nd=1, x=[tok(x) for x in L])
        if "wrap" in st:
            w = st["wrap"]
            kw["wrap"] = give(w)
            a["wrap"] = dict(nd=1, x=w) if isinstance(w, list) else dict(nd=0, x=[w])
        s = give(st["shape"])
        return new(st, [], a, lambda: cad.grid(s, **kw))

    @reg(OPS, "c_compat")
    def _(env, st):
        os = objs(env, st)
        if os is None:
            return None
        kw = {}
        a = dict(objs=st["objs"], axes=[])
        if "axes" in st:
            x = st["axes"]
            kw["axes"] = x
            a["axes"] = [x if isinstance(x, list) else [x]]
        if st.get("aslist"):
            call = lambda: cad.compat(os, **kw)
        else:
            call = lambda: cad.compat(*os, **kw)
        return dict(a=a, kind="objects", out=["%s%d" % (st["out"], i + 1) for i in range(len(os))], call=call)

    @reg(OPS, "c_extrude")
    def _(env, st):
        os = objs(env, st)
        if os is None:
            return None
        d, g = vec(env, st["d"], st.get("how"))
        ax = opt(st.get("axis"))
        kw = {"axis": st["axis"]} if "axis" in st else {}
        return new(st, st["objs"], dict(d=d, axis=ax), lambda: cad.extrude(os[0], g, **kw))

    @reg(OPS, "c_revolve")
    def _(env, st):
        os = objs(env, st)
        if os is None:
            return None
        p, gp = vec(env, st["point"], st.get("how"))
        a = dict(point=p)
        kw = {}
        if "axis" in st:
            if isinstance(st["axis"], (list, tuple)):
                a["axis"], kw["axis"] = vec(env, st["axis"], st.get("how"))
            else:
                a["axis"], kw["axis"] = dict(nd=0, x=[st["axis"]]), st["axis"]
        else:
            a["axis"] = dict(nd=0, x=[2])
        a["angle"], k2 = angle(st.get("angle"))
        kw.update(k2)
        return new(st, st["objs"], a, lambda: cad.revolve(os[0], gp, **kw))

    def plain(name, f):
        @reg(OPS, name)
        def _(env, st):
            os = objs(env, st)
            if os is None:
                return None
            return new(st, st["objs"], {}, lambda: f(*os))
    plain("c_ruled", cad.ruled)
    plain("c_sweep", cad.sweep)
    plain("c_coons", lambda a, b, c, d: cad.coons([(a, b), (c, d)]))

    @reg(OPS, "c_join")
    def _(env, st):
        os = objs(env, st)
        if os is None:
            return None
        return new(st, st["objs"], dict(axis=st["axis"]), lambda: cad.join(os[0], os[1], st["axis"]))

    @reg(OPS, "c_refine")
    def _(env, st):
        os = objs(env, st)
        if os is None:
            return None
        o = os[0]
        kw, a = {}, dict(degree=[], continuity=[], factor=[])
        for k in ("degree", "continuity"):
            if st.get(k) is not None:
                v = st[k]
                a[k] = [dict(nd=1, x=[opt(x) for x in v]) if isinstance(v, list) else dict(nd=0, x=[[v]])]
                kw[k] = v

        def count(f, i):
            if isinstance(f, dict):         # one count per span of this axis
                n = len(o.breaks(i)) - 1 + f.get("off", 0)
                return [f["spans"][j % len(f["spans"])] for j in range(n)]
            return f

        def cl(f):
            return dict(nd=1, x=f) if isinstance(f, list) else dict(nd=0, x=[f])
        if st.get("factor") is not None:
            v = st["factor"]
            if isinstance(v, list):
                v = [count(f, i) if i < o.dim else f if not isinstance(f, dict) else 1 for i, f in enumerate(v)]
                a["factor"] = [dict(nd=1, x=[opt(f, cl) for f in v])]
                if st.get("how") == "array" and all(isinstance(f, int) for f in v):
                    v = np.array(v)
                    env.own.append(v)
            else:
                a["factor"] = [dict(nd=0, x=[[cl(v)]])]
            kw["factor"] = v
        return new(st, st["objs"], a, lambda: cad.refine(o, **kw))
