"""Evaluation and the other read-only calls; the constructor; aliasing writes."""
import interp
from interp import tok, toks, arr
from interp_ops import reg, opt, arg


def register(OPS):
    np = interp.np
    bsp = interp.igakit.igalib.bsp
    iga = interp.igakit.igalib.iga

    def params(env, o, st):
        """-> (logged list of optional parameters, kwargs)"""
        log, kw = [], {}
        us = st.get("u", [None] * o.dim)
        for i, (nm, v) in enumerate(zip("uvw", us)):
            if i >= o.dim:
                break
            if v is None:
                log.append([])
            elif isinstance(v, list):
                x = [env.num(e, o, i) for e in v]
                log.append([dict(nd=1, x=[tok(e) for e in x])])
                kw[nm] = env.give(x, st.get("how", "array"))
            else:
                x = env.num(v, o, i)
                log.append([dict(nd=0, x=[tok(x)])])
                kw[nm] = x
        log += [[]] * (o.dim - len(log))
        return log, kw

    def field(env, o, f, how):
        """f: {"seed":, "nf": k or 0 (no component axis)} or {"ident": True} or {"sh","A"}"""
        if "A" in f:
            a = np.array([float(x) for x in f["A"]]).reshape(f["sh"])
        elif f.get("ident"):
            n = int(np.prod(o.shape))
            a = np.eye(n).reshape(tuple(o.shape) + (n,))
        else:
            rng = interp.random.Random(f["seed"])
            sh = tuple(o.shape) + ((f["nf"],) if f["nf"] else ())
            a = np.array([rng.randint(-32, 32) / 8 for _ in range(int(np.prod(sh)))]).reshape(sh)
            a = interp.fine(a, f["seed"], how)
            if f.get("badshape"):
                a = a[..., None, None]
        return arr(a), env.give(a, how)

    @reg(OPS, "call")
    def _(env, st):
        o = env.heap[st["self"]]
        log, kw = params(env, o, st)
        f = st.get("fields", "no")
        F = dict(sh=[], A=[])
        if f == "own":
            kw["fields"] = True
        elif f != "no":
            F, kw["fields"] = field(env, o, f, st.get("fhow", "array"))
            f = "given"

        def lg(r):
            return [arr(x) for x in r] if isinstance(r, tuple) else [arr(r)]
        if st.get("positional"):
            args = [kw.pop(n) for n in "uvw" if n in kw]
            return dict(a=dict(u=log, fields=f, F=F), call=lambda: o(*args, **kw), log=lg, noval=[])
        return dict(a=dict(u=log, fields=f, F=F), call=lambda: o(**kw), log=lg, noval=[])

    def fieldop(name):
        @reg(OPS, name)
        def _(env, st):
            o = env.heap[st["self"]]
            log, kw = params(env, o, st)
            a = dict(u=log, fields=[], mapped=bool(st.get("mapped", False)), order=st.get("order", 0))
            if st.get("fields"):
                F, kw["fields"] = field(env, o, st["fields"], st.get("fhow", "array"))
                a["fields"] = [F]
            if name != "evaluate" and "mapped" in st:
                kw["mapped"] = st["mapped"]
            args = [st["order"]] if name == "derivative" else []
            if st.get("positional"):
                args += [kw.pop("fields", None)] + [kw.pop(n, None) for n in "uvw"]
                if "mapped" in kw:
                    args.append(kw.pop("mapped"))
            return dict(a=a, call=lambda: getattr(o, name)(*args, **kw),
                        log=lambda r: [arr(r)], noval=[])
    for n in ("evaluate", "gradient", "hessian", "derivative"):
        fieldop(n)

    def abscissae(name):
        @reg(OPS, name)
        def _(env, st):
            o = env.heap[st["self"]]
            ax, kw = arg(st, "axis", None)
            m = bool(st.get("mults", False))
            if name == "breaks" and "mults" in st:
                kw["mults"] = m

            def lg(r):
                rs = [r] if ax is not None else list(r)
                if name == "breaks" and m:
                    return dict(u=[toks(x[0]) for x in rs], s=[toks(x[1]) for x in rs])
                return dict(u=[toks(x) for x in rs], s=[])
            return dict(a=dict(axis=opt(ax), mults=m),
                        call=lambda: getattr(o, name)(**kw), log=lg)
    for n in ("breaks", "spans", "greville", "lagrange", "lobatto"):
        abscissae(n)

    @reg(OPS, "attrs")
    def _(env, st):
        o = env.heap[st["self"]]

        def call():
            f = o.fields
            return dict(dim=int(o.dim), degree=[int(x) for x in o.degree],
                        shape=[int(x) for x in o.shape], knots=[toks(k) for k in o.knots],
                        array=arr(o.array), control=arr(o.control), weights=arr(o.weights),
                        points=arr(o.points), fields=[] if f is None else [arr(f)])
        return dict(a=dict(axis=[]), call=call, log=lambda r: r)

    # --- the constructor --------------------------------------------------
    @reg(OPS, "new")
    def _(env, st):
        knots = [env.give([env.num(x) for x in U], st.get("khow", "list")) for U in st["knots"]]
        a = dict(knots=[[tok(env.num(x)) for x in U] for U in st["knots"]],
                 control=[], weights=[], fields=[])
        args, kw = [knots], {}

        def full(s, weights=False):
            if "A" in s:
                return np.array([float(x) for x in s["A"]]).reshape(s["sh"])
            rng = interp.random.Random(s["seed"])
            n = int(np.prod(s["sh"])) if s["sh"] else 1
            lo, hi = s.get("range", [-32, 32])
            a = np.array([rng.randint(lo, hi) / 8 for _ in range(n)]).reshape(s["sh"])
            return a if weights else interp.fine(a, s["seed"], st.get("how", "array"))
        C = W = F = None
        if st.get("control") is not None:
            C = full(st["control"])
            a["control"] = [arr(C)]
            C = env.give(C, st.get("how", "array"))
        if st.get("weights") is not None:
            W = full(st["weights"], True)
            a["weights"] = [arr(W)]
            W = env.give(W, st.get("how", "array"))
        if st.get("fields") is not None:
            F = full(st["fields"])
            a["fields"] = [arr(F)]
            F = env.give(F, st.get("how", "array"))
        if st.get("tuple") and W is not None:
            kw["control"] = (C, W)
        else:
            if C is not None:
                kw["control"] = C
            if W is not None:
                kw["weights"] = W
        if F is not None:
            kw["fields"] = F
        return dict(a=a, kind="object", out=[st["out"]], call=lambda: interp.NURBS(*args, **kw))

    # --- writing through an object's own buffers ---------------------------
    @reg(OPS, "write")
    def _(env, st):
        """Add delta to one entry of the net or of a knot vector, in place."""
        o = env.heap[st["self"]]
        a = dict(where=st["where"], index=st["index"], axis=st.get("axis", 0) + 1,
                 delta=tok(st["delta"]))

        def call():
            if st["where"] == "net":
                b = o.array
                ix = np.unravel_index(st["index"] % b.size, b.shape)
                a["index"] = int(st["index"] % b.size) + 1
                b[ix] += st["delta"]
            elif st["where"] == "control":
                b = o.control
                ix = np.unravel_index(st["index"] % b.size, b.shape)
                j = int(np.ravel_multi_index(ix, o.array.shape))
                a["index"] = j + 1
                b[ix] += st["delta"]
            else:
                U = o.knots[st.get("axis", 0)]
                i = st["index"] % len(U)
                a["index"] = int(i) + 1
                U[i] += st["delta"]
        return dict(a=a, call=call, log=lambda r: {})

    # --- the compiled kernels directly --------------------------------------
    def kernel(name, fn, names, log):
        @reg(OPS, name)
        def _(env, st):
            U = [env.num(x) for x in st["U"]]
            a = dict(p=st["p"], U=[tok(x) for x in U])
            g = env.give(U)
            kw = {}
            args = [st["p"], g]
            for n in names:
                if n == "X":
                    x = [env.num(e) for e in st["X"]]
                    a["X"] = [tok(e) for e in x]
                    args.append(env.give(x))
                elif n == "u":
                    x = env.num(st["u"])
                    a["u"] = tok(x)
                    args.append(x)
                elif n.endswith("?"):
                    v = st.get(n[:-1])
                    a[n[:-1]] = opt(v)
                    if v is not None:
                        kw[n[:-1]] = v
                else:
                    a[n] = st[n]
                    args.append(st[n])
            return dict(a=a, call=lambda: fn(*args, **kw), log=log)
    kernel("FindSpan", bsp.FindSpan, ["u"], lambda r: dict(k=int(r)))
    kernel("FindMult", bsp.FindMult, ["u"], lambda r: dict(s=int(r)))
    kernel("FindSpanMult", bsp.FindSpanMult, ["u"], lambda r: dict(k=int(r[0]), s=int(r[1])))
    kernel("EvalBasisFuns", bsp.EvalBasisFuns, ["u", "span?"], arr)
    kernel("EvalBasisFunsDers", bsp.EvalBasisFunsDers, ["u", "d?", "span?"], arr)
    kernel("SpanIndex", bsp.SpanIndex, [], lambda r: dict(k=interp.itoks(r)))
    kernel("Greville", bsp.Greville, [], arr)
    kernel("igaGreville", iga.Greville, [], arr)

    def bdata(r):
        q = len(np.ravel(r[2]))         # the rule itself, to compare the tables with
        return dict(O=interp.itoks(r[0]), J=toks(r[1]), W=toks(r[2]), X=arr(r[3]), N=arr(r[4]),
                    Xg=toks(iga.GaussLegendreRule(q)[0]))
    kernel("BasisData", iga.BasisData, ["d?", "q?"], bdata)
    kernel("BasisDataCol", iga.BasisDataCol, ["X", "d?"],
           lambda r: dict(O=interp.itoks(r[0]), N=arr(r[1])))

    @reg(OPS, "KnotVector")
    def _(env, st):
        kw = {}
        E, p = st["E"], st["p"]
        a = dict(E=E, p=p, C=opt(st.get("C")), Ui=opt(st.get("Ui"), tok), Uf=opt(st.get("Uf"), tok),
                 wrap=bool(st.get("wrap", False)))
        for k in ("C", "Ui", "Uf", "wrap"):
            if st.get(k) is not None:
                kw[k] = st[k]
        return dict(a=a, call=lambda: iga.KnotVector(E, p, **kw), log=arr)

    def rule(name, fn):
        @reg(OPS, name)
        def _(env, st):
            return dict(a=dict(q=st["q"]), call=lambda: fn(st["q"]),
                        log=lambda r: dict(X=toks(r[0]), W=toks(r[1])))
    rule("GaussLegendreRule", iga.GaussLegendreRule)
    rule("GaussLobattoRule", iga.GaussLobattoRule)
