"""Modelling operations and affine maps."""
import interp
from interp import tok, toks


def opt(x, f=lambda v: v):
    return [] if x is None else [f(x)]


def reg(OPS, name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


MISSING = "missing"


def arg(st, key, default):
    """Value to log, and kwargs to pass: leave it out when the step does."""
    if key in st:
        return st[key], {key: st[key]}
    return default, {}


def axis_ok(o, ax):
    return -o.dim <= ax < o.dim


def register(OPS):
    np = interp.np

    def obj_of(env, st):
        return env.heap[st["self"]]

    def num(env, st, key):
        o = obj_of(env, st)
        ax = st.get("axis", 0)
        v = st.get(key)
        if isinstance(v, dict) and not axis_ok(o, ax):
            return 0.5
        return env.num(v, o, ax % o.dim if o.dim and axis_ok(o, ax) else 0)

    @reg(OPS, "insert")
    def _(env, st):
        o = obj_of(env, st)
        v = num(env, st, "value")
        t, kw = arg(st, "times", 1)
        if isinstance(t, dict):             # {"room": d}: degree - multiplicity + d
            t = t["room"]
            if axis_ok(o, st["axis"]):
                p = o.degree[st["axis"]]
                t += p - min(p, int(np.sum(np.asarray(o.knots[st["axis"]]) == v)))
            kw = {"times": t}
        return dict(a=dict(axis=st["axis"], value=tok(v), times=opt(t)), kind="object",
                    call=lambda: o.insert(st["axis"], v, **kw))

    @reg(OPS, "remove")
    def _(env, st):
        o = obj_of(env, st)
        v = num(env, st, "value")
        t, kw = arg(st, "times", 1)
        d, kd = arg(st, "deviation", 1e-9)
        kw.update(kd)
        return dict(a=dict(axis=st["axis"], value=tok(v), times=opt(t), deviation=tok(d)),
                    kind="object", call=lambda: o.remove(st["axis"], v, **kw))

    @reg(OPS, "refine")
    def _(env, st):
        o = obj_of(env, st)
        ax = st["axis"]
        if st["values"] is None:
            vals, g = None, None
        else:
            vals = [env.num(x, o, ax % o.dim if axis_ok(o, ax) else 0) for x in st["values"]]
            g = env.give(vals, st.get("how", "array"))
            if st.get("scalar"):
                g = vals[0]
        return dict(a=dict(axis=ax, values=[] if vals is None else [[tok(x) for x in vals]]),
                    kind="object", call=lambda: o.refine(ax, g))

    @reg(OPS, "elevate")
    def _(env, st):
        o = obj_of(env, st)
        t, kw = arg(st, "times", 1)
        return dict(a=dict(axis=st["axis"], times=opt(t)), kind="object",
                    call=lambda: o.elevate(st["axis"], **kw))

    @reg(OPS, "clamp")
    def _(env, st):
        o = obj_of(env, st)
        s, kw = arg(st, "side", None)
        return dict(a=dict(axis=st["axis"], side=opt(s)), kind="object",
                    call=lambda: o.clamp(st["axis"], **kw))

    @reg(OPS, "unclamp")
    def _(env, st):
        o = obj_of(env, st)
        s, kw = arg(st, "side", None)
        c, kc = arg(st, "continuity", None)
        kw.update(kc)
        return dict(a=dict(axis=st["axis"], side=opt(s), continuity=opt(c)), kind="object",
                    call=lambda: o.unclamp(st["axis"], **kw))

    @reg(OPS, "slice")
    def _(env, st):
        o = obj_of(env, st)
        a, b = num(env, st, "start"), num(env, st, "end")
        return dict(a=dict(axis=st["axis"], start=opt(a, tok), end=opt(b, tok)), kind="object",
                    out=[st["out"]], call=lambda: o.slice(st["axis"], a, b))

    @reg(OPS, "extract")
    def _(env, st):
        o = obj_of(env, st)
        v = num(env, st, "value")
        return dict(a=dict(axis=st["axis"], value=tok(v)), kind="object", out=[st["out"]],
                    call=lambda: o.extract(st["axis"], v))

    @reg(OPS, "boundary")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis=st["axis"], side=st["side"]), kind="object", out=[st["out"]],
                    call=lambda: o.boundary(st["axis"], st["side"]))

    @reg(OPS, "copy")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis=0), kind="object", out=[st["out"]], call=lambda: o.copy())

    @reg(OPS, "clone")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis=0), kind="object", out=[st["out"]], call=lambda: o.clone())

    @reg(OPS, "transpose")
    def _(env, st):
        o = obj_of(env, st)
        ax, kw = arg(st, "axes", None)
        if ax is not None and st.get("how") == "array":
            kw = {"axes": np.array(ax)}
        return dict(a=dict(axes=opt(ax)), kind="object", call=lambda: o.transpose(**kw))

    @reg(OPS, "swap")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis1=st["axis1"], axis2=st["axis2"]), kind="object",
                    call=lambda: o.swap(st["axis1"], st["axis2"]))

    @reg(OPS, "reverse")
    def _(env, st):
        o = obj_of(env, st)
        ax = st.get("axes", [])
        return dict(a=dict(axes=ax), kind="object", call=lambda: o.reverse(*ax))

    @reg(OPS, "remap")
    def _(env, st):
        o = obj_of(env, st)
        a, b = num(env, st, "start"), num(env, st, "end")
        return dict(a=dict(axis=st["axis"], start=opt(a, tok), end=opt(b, tok)), kind="object",
                    call=lambda: o.remap(st["axis"], a, b))

    # --- affine maps ------------------------------------------------------
    def small(env, v, how="array"):
        """A number or a short vector: ([nd, x] to log, value to pass)."""
        if isinstance(v, list):
            x = [float(env.num(e)) for e in v]
            return dict(nd=1, x=[tok(e) for e in x]), env.give(x, how)
        x = env.num(v)
        return dict(nd=0, x=[tok(x)]), x

    def axis_arg(env, st, default):
        if "axis" not in st:
            return default, {}
        ax = st["axis"]
        return ax, {"axis": ax}

    def displ(name, method, target):
        @reg(OPS, name)
        def _(env, st):
            o = obj_of(env, st)
            d, v = small(env, st["d"], st.get("how", "array"))
            ax, kw = axis_arg(env, st, None)
            return dict(a=dict(d=d, axis=opt(ax)), kind="object",
                        call=lambda: getattr(o, method)(v, **kw))

    def rot(name):
        @reg(OPS, name)
        def _(env, st):
            o = obj_of(env, st)
            ang = float(env.num(st["angle"]))
            if "ax" in st:
                a, v = small(env, st["ax"], st.get("how", "array"))
                kw = {"axis": v}
                if a["nd"] == 0:
                    a = dict(nd=0, x=[int(v)])
            else:
                a, kw = dict(nd=0, x=[2]), {}
            return dict(a=dict(angle=tok(ang), ax=a), kind="object",
                        call=lambda: o.rotate(ang, **kw))

    for pre in ("", "t_"):
        for m in ("translate", "move", "scale"):
            displ(pre + m, m, pre)
        rot(pre + "rotate")

    T = interp.igakit.transform.transform

    @reg(OPS, "transform")
    def _(env, st):
        o = obj_of(env, st)
        if "T" in st:
            v = env.heap[st["T"]]
            M = toks(v.matrix)
        else:
            x = [float(env.num(e)) for e in st["M"]]
            M = [tok(e) for e in x]
            n = 4 if len(x) == 16 else 3
            v = env.give(np.array(x).reshape(n, n), st.get("how", "array"))
        return dict(a=dict(M=M), kind="object", call=lambda: o.transform(v))

    @reg(OPS, "t_new")
    def _(env, st):
        if "T" in st:
            v = env.heap[st["T"]]
            M = [toks(v.matrix)]
            c = lambda: T(v)
        elif "M" in st:
            x = [float(env.num(e)) for e in st["M"]]
            M = [[tok(e) for e in x]]
            n = 4 if len(x) == 16 else 3
            v = env.give(np.array(x).reshape(n, n))
            c = lambda: T(v)
        else:
            M = []
            c = lambda: T()
        return dict(a=dict(M=M), kind="object", out=[st["out"]], call=c)

    @reg(OPS, "t_compose")
    def _(env, st):
        o = obj_of(env, st)
        if "T" in st:
            v = env.heap[st["T"]]
            M = toks(v.matrix)
        else:
            x = [float(env.num(e)) for e in st["M"]]
            M = [tok(e) for e in x]
            n = 4 if len(x) == 16 else 3
            v = env.give(np.array(x).reshape(n, n))
        return dict(a=dict(M=M), kind="object", call=lambda: o.compose(v))

    @reg(OPS, "t_invert")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis=0), kind="object", call=lambda: o.invert())

    for nm in ("inverse", "copy", "clone"):
        def mk(nm):
            @reg(OPS, "t_" + nm)
            def _(env, st):
                o = obj_of(env, st)
                return dict(a=dict(axis=0), kind="object", out=[st["out"]],
                            call=lambda: getattr(o, nm)())
        mk(nm)

    @reg(OPS, "t_array")
    def _(env, st):
        o = obj_of(env, st)
        return dict(a=dict(axis=0), kind="value", call=lambda: np.array(o), log=lambda r: [interp.arr(r)])

    @reg(OPS, "t_apply")
    def _(env, st):
        o = obj_of(env, st)
        x = np.array([[float(env.num(e)) for e in r] for r in st["X"]])
        if st.get("flat"):
            x = x[0]
        v = env.give(x)
        return dict(a=dict(X=interp.arr(x)), call=lambda: o(v), log=lambda r: [interp.arr(r)],
                    noval=[])
