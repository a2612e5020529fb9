"""Per property: scenarios (quick / thorough) and which specification-level
models are explored and replayed."""
import random
import gen as G
import gen_cad as K
import gen_io as IO
import gen_plot as PL


def nsteps(r, *w):
    return r.choice(w)


def c01(r, n):
    """evaluation on arbitrary spaces, grids, scalars, fields"""
    for i in range(n):
        if i % 6 == 5:                  # the same question before and after changes
            g, dim = G.given(r, ident=False, smax=3, pmax=3, total=14)
            yield G.steady(r, [g] + G.changes(r, "x", dim, r.choice([1, 2])), ("call", "own", "evaluate"))
            continue
        if i % 60 == 4:                 # many parameters at once, in any order
            g, dim = G.given(r, dim=r.choice([1, 1, 2]), ident=False, smax=4, total=20)
            us = [[G.pos(r) for _ in range(k)] for k in r.choice([[r.choice([70, 130]), 1], [2, 70]])[:dim]]
            yield [g, {"op": "call", "self": "x", "u": us}]
            continue
        g, dim = G.given(r, ident=r.random() < 0.4, smax=4 if r.random() < 0.8 else 6)
        steps = [g]
        for _ in range(r.choice([1, 2])):
            steps.append(G.c_call(r, "x", dim) if r.random() < 0.75 else G.c_evaluate(r, "x", dim))
        yield steps


CUBIC = {"op": "given", "name": "x", "p": [3], "knots": [[0, 0, 0, 0, 1, 1, 1, 1]],
         "net": {"kind": "array", "A": [0, 0, 0, 1, 1, 2, 0, 1, 2, -1, 0, 1, 3, 0, 0, 1]}}


def c02(r, n):
    # always there: the listed finding shows on this one
    yield [CUBIC] + [{"op": "derivative", "self": "x", "u": [[0.0, 0.25, 1.0]], "order": k} for k in (1, 2, 3, 4)]
    for i in range(n):
        if i % 8 == 7:
            g, dim = G.given(r, dim=r.choice([1, 1, 2]), ident=False, smax=2, pmax=3, total=10)
            yield G.steady(r, [g] + G.changes(r, "x", dim, 1), ("der",))
            continue
        dim = r.choice([1, 1, 1, 2, 2, 3])
        mapped = r.random() < 0.3
        g, dim = G.given(r, dim=dim, ident=False, nf=r.choice([0, 1, 2]),
                         total={1: 12, 2: 20, 3: 30}[dim])
        if mapped:
            g["net"]["mono"] = True
        steps = [g] + [G.c_der(r, "x", dim, mapped=mapped) for _ in range(r.choice([1, 2]))]
        for st in steps[1:]:        # mostly say where
            st["u"] = [G.pos(r) if u is None and r.random() < 0.7 else u for u in st["u"]]
        yield steps


def c04(r, n):
    for i in range(n):
        g, dim = G.given(r, near=0.1)
        steps = [g]
        for _ in range(r.choice([1, 1, 2])):
            steps.append(r.choice([G.c_insert, G.c_refine])(r, "x", dim))
        yield steps


def c05(r, n):
    for i in range(n):
        if i % 150 == 0:                # to a high degree
            p = r.choice([1, 1, 2])
            g, dim = G.given(r, dim=1, ident=True, p=p, smax=2)
            yield [g, {"op": "elevate", "self": "x", "axis": 0, "times": r.randint(27, 33)}]
            continue
        g, dim = G.given(r, near=0.1)
        steps = [g, G.c_elevate(r, "x", dim)]
        if r.random() < 0.25:
            steps.append(G.c_elevate(r, "x", dim, tmax=1))
        yield steps


def c06(r, n):
    """remove after insert/refine (exactly removable), and plain removal"""
    for i in range(n):
        dim = r.choice([1, 1, 1, 2])
        g, dim = G.given(r, dim=dim, ident=r.random() < 0.5, smax=3, total=12 if dim == 1 else 16)
        steps = [g]
        ax = r.randrange(dim)
        v = {"mid": r.randrange(4), "at": r.choice([0.5, 0.25, 0.7])} if r.random() < 0.6 else {"inner": r.randrange(4)}
        k = r.choice([0, 1, 2, 3])
        if r.random() < 0.15:               # large coordinates or fields, exactly removable
            g["net"].update(kind="rand", nf=r.choice([0, 1, 2]), unit=r.choice([1.0, 1024.0, 2.0 ** 20]),
                            funit=r.choice([1.0, 1024.0, 2.0 ** 30]))
        near = r.random() < 0.5            # a copy that is nearly but not exactly superfluous
        if near:
            g["net"].update(kind="rand", nf=0, rational=r.random() < 0.8, unit=r.choice([1.0, 1 / 128, 1 / 128, 32.0]),
                            w=r.choice([None, [0.001, 1.0], [0.001, 1.0, 1.0], [1.0, 1.0, 1024.0], [1.0, 1024.0], [0.125, 8.0],
                                        [1 / 1024, 1 / 512]]))
            lo = min(g["net"]["w"] or [0.5])
            comps = r.choice([[3], [0, 1, 2], [0, 1, 2, 3]])
        steps.append({"op": "mark", "self": "x", "axis": ax, "value": v, "as": "t"})
        if near:
            e = r.randint(-24, -8)
            steps.append({"op": "insert", "self": "x", "axis": ax, "value": {"mark": "t"}, "times": r.choice([1, 1, None])})
            for _ in range(r.choice([1, 2, 3])):
                steps.append({"op": "write", "self": "x", "where": "net", "index": 4 * r.randrange(50) + r.choice(comps), "axis": 0,
                              "delta": r.choice([1, -1, 0.75]) * 2.0 ** e * lo})
            steps.append({"op": "remove", "self": "x", "axis": ax, "value": {"mark": "t"}, "times": r.choice([1, 1, 2, None]),
                          "deviation": 2.0 ** (e + r.choice([r.randint(-9, 0), r.randint(-3, 12)]))})
        elif k:
            steps.append({"op": "insert", "self": "x", "axis": ax, "value": {"mark": "t"},
                          "times": {"room": -r.choice([0, 0, 1])}})
        for _ in range(r.choice([1, 1, 2])):
            st = G.c_remove(r, "x", dim)
            if r.random() < 0.8:
                st["axis"], st["value"] = ax, {"mark": "t"}
            steps.append(st)
        yield steps


def c07(r, n):
    for i in range(n):
        g, dim = G.given(r, ends=r.choice(["clamped", "free", "mixed", "left", "right", "periodic"]))
        yield [g] + [r.choice([G.c_clamp, G.c_unclamp])(r, "x", dim) for _ in range(r.choice([1, 1, 2, 3]))]


def c08(r, n):
    for i in range(n):
        g, dim = G.given(r, near=0.1)
        x = r.random()
        if x < 0.5:
            st = [G.c_slice(r, "x", dim, "y")]
            if r.random() < 0.3:
                st.append(G.c_slice(r, "y", dim, "z"))
        elif x < 0.8 or dim == 0:
            st = [G.c_extract(r, "x", dim, "y")]
        else:
            st = [G.c_boundary(r, "x", dim, "y")]
            if dim > 1:
                st.append(G.c_boundary(r, "y", dim - 1, "z"))
        if i % 4 == 0:                  # then something done to the result, and to the source
            d = dim if st[0]["op"] == "slice" else dim - 1
            if d:
                st = st[:1] + G.changes(r, "y", d, r.choice([1, 2]))
            st += G.changes(r, "x", dim, 1)
        yield [g] + st


def c09(r, n):
    for i in range(n):
        g, dim = G.given(r, near=0.1)
        steps = [g]
        for _ in range(r.choice([1, 2, 3])):
            steps.append(r.choice([lambda: G.c_transpose(r, "x", dim), lambda: G.c_swap(r, "x", dim),
                                   lambda: G.c_reverse(r, "x", dim), lambda: G.c_remap(r, "x", dim)])())
        yield steps


def c10(r, n):
    for i in range(n):
        g, dim = G.given(r, total=12, ident=False, nf=r.choice([0, 0, 2]))
        st, names = G.t_session(r, r.choice([1, 2, 3, 4]))
        x = r.random()
        if x < 0.5:
            yield [g] + [G.c_affine(r, "x") for _ in range(r.choice([1, 2, 3]))]
        elif x < 0.65:
            yield [g] + st + [{"op": "transform", "self": "x", "T": r.choice(names)}]
        else:
            yield st


def c11(r, n):
    """independence: copies written to, kin operated on, arrays handed over"""
    for i in range(n):
        x = r.random()
        if x < 0.35:                    # copies are independent, down to their buffers
            st, dim = G.construct(r) if r.random() < 0.5 else G.given(r, total=12, ident=False, smax=2)
            steps, names = [st], ["x"]
            for k in range(r.choice([2, 3, 4, 5])):
                o = r.choice(names)
                y = r.random()
                if y < 0.4 or len(names) == 1:
                    nm = "y%d" % k
                    steps.append({"op": "copy", "self": o, "out": nm})
                    names.append(nm)
                elif y < 0.8:
                    if o == "x" and st["op"] == "new":      # may share the caller's arrays
                        o = names[-1]
                    steps.append({"op": "write", "self": o, "where": r.choice(["net", "control", "knots"]),
                                  "index": r.randrange(40), "axis": r.randrange(dim), "delta": 0.5})
                    if steps[-1]["where"] == "knots":
                        steps[-1]["index"] = -1
                else:
                    steps.append(r.choice([G.c_insert, G.c_elevate, G.c_refine])(r, o, dim))
            yield steps
        elif x < 0.6:                   # arrays handed to the constructor, then operations
            st, dim = G.construct(r)
            st["how"] = st["khow"] = "array"
            steps = [st]
            for k in range(r.choice([1, 2, 3])):
                steps.append(r.choice([lambda: G.c_affine(r, "x"), lambda: G.c_reverse(r, "x", dim),
                                       lambda: G.c_remap(r, "x", dim), lambda: G.c_insert(r, "x", dim),
                                       lambda: G.c_clamp(r, "x", dim), lambda: G.c_unclamp(r, "x", dim),
                                       lambda: G.c_refine(r, "x", dim), lambda: G.c_elevate(r, "x", dim),
                                       lambda: G.c_remove(r, "x", dim), lambda: G.c_transpose(r, "x", dim),
                                       lambda: G.c_call(r, "x", dim), lambda: G.c_evaluate(r, "x", dim)])())
            yield steps
        else:
            h = G.history(r, r.choice([3, 4, 5, 6]))
            yield G.steady(r, h[:5], often=0.5) if i % 4 == 3 else h


def c12(r, n):
    for i in range(n):
        st, dim = G.construct(r)
        steps = [st, {"op": "attrs", "self": "x"}]
        x = r.random()
        if x < 0.3:
            steps += [G.c_call(r, "x", dim)]
        elif x < 0.4:
            steps = G.steady(r, [st] + G.changes(r, "x", dim, r.choice([1, 2])), ("attrs", "attrs", "own"))
        elif x < 0.6:
            steps += [r.choice([G.c_insert, G.c_elevate, G.c_clamp])(r, "x", dim), {"op": "attrs", "self": "x"}]
        yield steps


def c13(r, n):
    for i in range(n):
        if i % 5 == 4:
            g, dim = G.given(r, ident=False, smax=3, pmax=4, total=14)
            yield G.steady(r, [g] + G.changes(r, "x", dim, r.choice([1, 2])), ("list",))
            continue
        g, dim = G.given(r, total={1: 18}.get(1) * 3, ident=False)
        g["net"] = {"kind": "rand", "seed": 1}
        steps = [g]
        for op in ("breaks", "spans", "greville", "lagrange", "lobatto", "breaks"):
            st = {"op": op, "self": "x"}
            if r.random() < 0.6:
                st["axis"] = G.axis(r, dim)
            if op == "breaks" and r.random() < 0.5:
                st["mults"] = True
            steps.append(st)
        yield steps


def c25(r, n):
    """histories over several objects"""
    for i in range(n):
        h = G.history(r, r.choice([3, 4, 5, 6, 8]))
        yield G.steady(r, h[:7], often=0.7) if i % 2 else h


def c03(r, n):
    """every kernel on every kind of space; all rules"""
    for q in range(-1, 12):
        yield [{"op": "GaussLegendreRule", "q": q}, {"op": "GaussLobattoRule", "q": q}]
    for i in range(n):
        p, U = G.space(r, smax=5, ragged=r.random() < 0.1)
        near = r.random() < 0.15
        if near:
            U = G.nearly(r, [U], [p])[0]
        yield G.kernels(r, p, U, force=not near)
        if i % 4 == 0:
            yield [G.knotvector(r) for _ in range(4)]


def c14(r, n):
    for i in range(n):
        yield K.compat(r)


def c15(r, n):
    for i in range(n):
        x = r.random()
        if x < 0.45:
            yield [K.circle(r, "x"), K.circle(r, "y")]
        elif x < 0.55:
            yield [K.line(r, "x"), K.line(r, "y")]
        elif x < 0.7:
            yield [K.linear(r, "x"), K.linear(r, "y")]
        else:
            yield [K.grid(r, "x")]


def c16(r, n):
    for i in range(n):
        x = r.random()
        if x < 0.2:
            s, d = K.profile(r, "a")
            yield s + [K.extrude(r, "a", "y", d)]
        elif x < 0.45:
            yield K.ruled(r)
        elif x < 0.6:
            yield K.sweep(r)
        elif x < 0.92:
            yield K.coons(r)
        else:
            yield K.chain(r)


def c17(r, n):
    for i in range(n):
        yield K.revolve(r)


def c18(r, n):
    for i in range(n):
        yield K.join(r)


def c19(r, n):
    for i in range(n):
        if i % 4 == 0:
            yield [G.knotvector(r) for _ in range(4)]
        else:
            d = r.choice([1, 1, 1, 2, 2, 3])
            yield [K.obj(r, "x", d, total={1: 7, 2: 9, 3: 8}[d], nf=r.choice([0, 0, 1])), K.refine(r, "x", "y", d)]


def c20(r, n):
    for i in range(n):
        yield IO.roundtrip(r)


def c21(r, n):
    for i in range(n):
        yield IO.damaged(r, i)


def c22(r, n):
    for i in range(n):
        yield IO.vtk_scen(r)


def c23(r, n):
    for i in range(n):
        yield PL.loose(r) if i % 8 == 0 else PL.plotters(r) if i % 8 in (1, 2) else PL.scen(r)


PROPS = {
    "C23": dict(gen=c23, quick=250*3, thorough=4000),
    "C20": dict(gen=c20, quick=300*3, thorough=5000),
    "C21": dict(gen=c21, quick=240*3, thorough=4000),
    "C22": dict(gen=c22, quick=200*3, thorough=3000),
    "C14": dict(gen=c14, quick=200*3, thorough=3000),
    "C15": dict(gen=c15, quick=300*3, thorough=5000),
    "C16": dict(gen=c16, quick=200*3, thorough=3000),
    "C17": dict(gen=c17, quick=650, thorough=2500),
    "C18": dict(gen=c18, quick=200*3, thorough=3000),
    "C19": dict(gen=c19, quick=250*3, thorough=4000),
    "C01": dict(gen=c01, quick=300*3, thorough=5000),
    "C02": dict(gen=c02, quick=200*3, thorough=3000),
    "C03": dict(gen=c03, quick=150*3, thorough=4000),
    "C04": dict(gen=c04, quick=250*3, thorough=4000),
    "C05": dict(gen=c05, quick=200*3, thorough=3000),
    "C06": dict(gen=c06, quick=1100, thorough=4000),
    "C07": dict(gen=c07, quick=250*3, thorough=4000),
    "C08": dict(gen=c08, quick=250*3, thorough=4000),
    "C09": dict(gen=c09, quick=250*3, thorough=4000),
    "C10": dict(gen=c10, quick=250*3, thorough=4000),
    "C12": dict(gen=c12, quick=300*3, thorough=5000),
    "C11": dict(gen=c11, quick=1200, thorough=4000),
    "C13": dict(gen=c13, quick=250*3, thorough=4000),
    "C25": dict(gen=c25, quick=850, thorough=4000),
}
