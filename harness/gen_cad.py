"""Scenarios for igakit.cad (seeded; nothing is judged here)."""
import math
import gen as G

PI = math.pi
VAL = [0.5, -1.25, 2.0, 0.1, 3.0, -0.7, 1.0, -4.0, 0.3]
POOLS = ["dyadic", "tenths", "thirds", "neg", "ints"]


def vec(r, lens=(1, 2, 3, 3)):
    v = [r.choice(VAL) for _ in range(r.choice(lens))]
    return v


def angle(r):
    """None, a number, or a pair; a nonzero sweep of at most a turn"""
    sw = lambda: r.choice([1, -1]) * r.choice([0.1, 0.7, 1.0, PI / 2, PI / 3, 2.0, PI, 2.5, 3.0, 3 * PI / 2,
                                               4.0, 5.0, 6.0, 2 * PI, PI / 2 + 1e-9, 1.57, 1e-3, 6.28])
    x = r.random()
    if x < 0.15:
        return None
    if x < 0.5:
        return sw()
    a = r.choice([0.0, 0.3, -1.0, PI / 4, -PI / 2, PI, 7.0, -5.0, 2.0])
    if x < 0.6:
        return r.choice([[None, sw()], [r.choice([0.5, 1.0, PI, 4.0, PI / 2]), None], [None, None]])
    b = a + sw()
    return (a, b) if r.random() < 0.7 else [a, b]


def bad_angle(r):
    return r.choice([0, 0.0, [1.0, 1.0], 7.5, -9.0, (0.0, 20.0), (3.0, -6.0)])


def circle(r, out, bad=0.08):
    st = {"op": "c_circle", "out": out}
    if r.random() < 0.7:
        st["radius"] = r.choice([1, 2, 0.5, 0.1, 3.7, 1e-3, 250.0])
    if r.random() < 0.6:
        st["center"] = vec(r) if r.random() < 0.8 else r.choice(VAL)
        st["how"] = r.choice([None, "array", "strided"])
    if r.random() < 0.85:
        st["angle"] = angle(r)
    if r.random() < bad:
        k = r.random()
        if k < 0.4:
            st["angle"] = bad_angle(r)
        elif k < 0.7:
            st["center"] = [1.0, 2.0, 3.0, 4.0]
        else:
            st["radius"] = r.choice([0, -1.0])
    return st


def line(r, out):
    st = {"op": "c_line", "out": out}
    for k in ("p0", "p1"):
        if r.random() < 0.85:
            st[k] = vec(r)
    if r.random() < 0.06:
        st["p1"] = [1.0, 2.0, 3.0, 4.0]
    st["how"] = r.choice([None, "array", "list"])
    return st


def linear(r, out, d=None):
    d = d or r.choice([1, 2, 3])
    st = {"op": "c_linear", "dim": d, "out": out}
    if r.random() < 0.85:
        sh = [2] * d + [r.choice([2, 3, 3, 4])]
        if r.random() < 0.12:
            sh = r.choice([[2] * (d + 1) + [3], [2] * (d - 1) + [3], [3] + [2] * (d - 1) + [3], [2] * d + [r.choice([1, 5])]])
        st["points"] = {"sh": sh, "seed": r.randint(0, 10**6)}
        st["how"] = r.choice(["array", "list", "F", "strided", "negstrided", "array"])
    return st


def grid(r, out, bad=0.15):
    d = r.choice([1, 2, 2, 3])
    N = [r.choice([1, 2, 3, 4][: 5 - d]) for _ in range(d)]
    st = {"op": "c_grid", "out": out, "shape": N if d > 1 or r.random() < 0.5 else N[0],
          "how": r.choice([None, "array"])}
    deg = [2] * d
    x = r.random()
    if x < 0.4:
        st["degree"] = deg = [r.choice([1, 2, 3]) for _ in range(d)]
    elif x < 0.7:
        p = r.choice([1, 2, 3])
        deg = [p] * d
        st["degree"] = p
    x = r.random()
    if x < 0.35:
        st["continuity"] = [r.randrange(p) if r.random() < 0.7 else -r.randint(1, p) for p in deg]
    elif x < 0.6:
        st["continuity"] = r.choice([0, -1, min(deg) - 1])
    x = r.random()
    lim = lambda: r.choice([[0.0, 1.0], [-1.0, 1.0], [0.1, 0.8], [2.0, 7.5], [-3.0, -1.0]])
    if x < 0.3:
        st["limits"] = lim()
    elif x < 0.6:
        st["limits"] = [lim() for _ in range(d)]
    x = r.random()
    if x < 0.2:
        st["wrap"] = True
    elif x < 0.45:
        st["wrap"] = [r.random() < 0.5 for _ in range(d)]
    if r.random() < bad:
        k = r.choice(["shape0", "shape4", "deg0", "degn", "cont", "contn", "limn", "limr", "wrapn"])
        if k == "shape0":
            st["shape"] = [0] + N[1:]
        elif k == "shape4":
            st["shape"] = r.choice([[1, 1, 1, 1], []])
        elif k == "deg0":
            st["degree"] = r.choice([0, -1])
            st["continuity"] = None
        elif k == "degn":
            st["degree"] = [2] * (d + 1)
        elif k == "cont":
            st["continuity"] = r.choice([max(deg), -min(deg) - 1])
        elif k == "contn":
            st["continuity"] = [0] * (d + 1)
        elif k == "limn":
            st["limits"] = r.choice([[0.0, 1.0, 2.0], [[0.0, 1.0]] * (d + 1)])
        elif k == "limr":
            st["limits"] = r.choice([[1.0, 0.0], [1.0, 1.0]])
        elif k == "wrapn":
            st["wrap"] = [True] * (d + 1)
    return st


def obj(r, name, dim, **kw):
    """an object to build with; nothing extreme"""
    kw.setdefault("pool", r.choice(POOLS))
    kw.setdefault("total", {0: 1, 1: 8, 2: 16, 3: 18}[dim])
    kw.setdefault("smax", 3 if dim == 1 else 2)
    kw.setdefault("pmax", 3 if dim == 1 else 2)
    g, d = G.given(r, name=name, dim=dim, ident=False, extreme=0.0, **kw)
    return g


def variant(r, nm, d, n=1, remap=True, only=None):
    """steps that rewrite an object without changing its points"""
    out = []
    for _ in range(n):
        ops = [lambda: dict(G.c_insert(r, nm, d, bad=0), value={"mid": r.randrange(4), "at": 0.5}, times=1),
               lambda: {"op": "elevate", "self": nm, "axis": r.randrange(d)},
               lambda: G.c_unclamp(r, nm, d, bad=0),
               lambda: G.c_clamp(r, nm, d, bad=0)]
        if remap:
            ops.append(lambda: {"op": "remap", "self": nm, "axis": r.randrange(d),
                                "start": r.choice([0.0, -1.0, 0.1]), "end": r.choice([1.0, 0.7, 3.0])})
        st = r.choice(ops)()
        if st["op"] == "unclamp" and "continuity" in st:
            st["continuity"] = 0
        if only is not None:
            st["axis"] = r.choice(only)
        out.append(st)
    return out


# --- compat -------------------------------------------------------------------
def shared(r):
    """objects over the same breaks, each with its own degrees, knots and multiplicities"""
    dim = r.choice([1, 1, 1, 1, 2])
    n = r.choice([2, 3, 3, 4]) if dim == 1 else r.choice([2, 3])
    brk = [sorted(r.sample(G.KNOTPOOL[r.choice(["dyadic", "tenths", "neg", "ints"])], r.choice([3, 4] if dim == 1 else [3])))
           for _ in range(dim)]
    nf = r.choice([0, 0, 1])
    steps = []
    near = r.random() < 0.1             # elevation is unstable next to ulp-narrow spans
    deg = [r.choice([2, 3, 3]) for b in brk]
    for i in range(n):
        ps, ks = [], []
        for k, b in enumerate(brk):
            p = deg[k] if near else r.choice([2, 3, 3, 4] if dim == 1 else [1, 2, 3])
            U = [b[0]] * (p + 1)
            for x in b[1:-1]:
                U += [x] * r.choice([0, 1, 1, 2, 3, p][: 4 if dim > 1 else 6] if p > 2 else [0, 1, p])
            ps.append(p)
            ks.append(U + [b[-1]] * (p + 1))
        if near:
            ks = G.nearly(r, ks, ps)
        steps.append({"op": "given", "name": "x%d" % i, "p": ps, "knots": ks,
                      "net": {"kind": "rand", "seed": r.randint(0, 10**6), "rational": r.random() < 0.5, "nf": nf}})
    return steps, ["x%d" % i for i in range(n)], dim


def compat(r):
    if r.random() < 0.3:
        steps, names, dim = shared(r)
        return steps + [{"op": "c_compat", "objs": names, "out": "y"}]
    dim = r.choice([1, 1, 1, 2, 2, 3])
    n = r.choice([2, 2, 2, 3]) if dim < 3 else 2
    pool = r.choice(POOLS + [None])
    names = ["x%d" % i for i in range(n)]
    steps = []
    nf = r.choice([0, 0, 1])
    for nm in names:
        kw = {"pool": pool} if pool else {}
        g = obj(r, nm, dim, nf=nf if r.random() < 0.8 else 2, total={1: 8, 2: 12, 3: 12}[dim], **kw)
        steps.append(g)
    x = r.random()
    if x < 0.35:                        # same range: the union of knots is what matters
        for nm in names:
            for a in range(dim):
                steps.append({"op": "remap", "self": nm, "axis": a, "start": 0.0, "end": 1.0})
    elif x < 0.5:                       # one rewritten several ways
        steps = [steps[0]]
        for nm in names[1:]:
            steps.append({"op": "copy", "self": names[0], "out": nm})
            steps += variant(r, nm, dim, r.choice([1, 2]))
    st = {"op": "c_compat", "objs": names, "out": "y"}
    if r.random() < 0.3:
        st["axes"] = r.choice([0, dim - 1, -1, -dim, r.randrange(-dim, dim), [0], [dim - 1], [r.randrange(-dim, dim)], [],
                                list(range(dim)), list(range(-dim, 0)), [-1, 0][:dim]])
    if r.random() < 0.3:
        st["aslist"] = True
    if r.random() < 0.05:
        st["objs"] = names[:1]
    if r.random() < 0.05:
        steps.append(obj(r, "w", r.choice([d for d in (1, 2, 3) if d != dim])))
        st["objs"] = [names[0], "w"]
    if r.random() < 0.04:
        st["axes"] = r.choice([dim, -dim - 1])
    steps.append(st)
    if r.random() < 0.15:
        steps.append({"op": "c_compat", "objs": ["y1", "y2"], "out": "z"})
    return steps


# --- combinations -----------------------------------------------------------------
def profile(r, name, dims=(1, 1, 1, 2, 2, 3)):
    d = r.choice(dims)
    x = r.random()
    if x < 0.15 and d == 1:
        return [circle(r, name, bad=0)], 1
    if x < 0.25 and d == 1:
        return [{"op": "c_line", "p0": vec(r), "p1": vec(r), "out": name}], 1
    if x < 0.3 and d == 2:
        return [{"op": "c_linear", "dim": 2, "out": name}], 2
    g = [obj(r, name, d, total={1: 7, 2: 9, 3: 8}[d])]
    if r.random() < 0.2:
        g += variant(r, name, d)
    return g, d


def extrude(r, nm, out, d):
    st = {"op": "c_extrude", "objs": [nm], "out": out}
    if r.random() < 0.5:
        st["d"] = vec(r)
        st["how"] = r.choice([None, "array"])
        if len(st["d"]) > 1 and r.random() < 0.05:
            st["axis"] = 1
    else:
        st["d"] = r.choice(VAL)
        if r.random() < 0.8:
            st["axis"] = r.choice([0, 1, 2, -1, -2, -3])
    if r.random() < 0.04:
        st["d"], st["axis"] = r.choice([([1.0] * 4, None), (1.0, 3), (1.0, -4)])
        if st["axis"] is None:
            del st["axis"]
    return st


def ruled(r):
    d = r.choice([1, 1, 2, 2, 3])
    steps, d1 = profile(r, "a", (d,))
    if r.random() < 0.93:
        s2, d2 = profile(r, "b", (d,))
    else:
        s2, d2 = profile(r, "b", (1, 2, 3))
    return steps + s2 + [{"op": "c_ruled", "objs": ["a", "b"], "out": "y"}]


def sweep(r):
    s1, d1 = profile(r, "a", (1, 1, 2, 2, 3))
    s2, d2 = profile(r, "b", (1, 1, 1, 1, 1, 1, 1, 2))
    return s1 + s2 + [{"op": "c_sweep", "objs": ["a", "b"], "out": "y"}]


def net_curve(r, name, p, U, first, last, rational):
    """a clamped curve between two homogeneous points"""
    n = len(U) - p - 1
    A = []
    for i in range(n):
        if i == 0:
            A += first
        elif i == n - 1:
            A += last
        else:
            w = r.choice([0.5, 0.75, 1.25, 2.0]) if rational else 1.0
            A += [r.randint(-32, 32) / 8 * w for _ in range(3)] + [w]
    return {"op": "given", "name": name, "p": [p], "knots": [U], "net": {"kind": "array", "A": A}}


def coons(r):
    x = r.random()
    names = ["c00", "c01", "c10", "c11"]
    y = {"op": "c_coons", "objs": names, "out": "y"}
    if x < 0.3:                         # the four boundaries of a surface
        steps = [obj(r, "s", 2, total=16)]
        for nm, ax, sd in (("c00", 0, 0), ("c01", 0, 1), ("c10", 1, 0), ("c11", 1, 1)):
            steps.append({"op": "boundary", "self": "s", "axis": ax, "side": sd, "out": nm})
            if r.random() < 0.3:
                steps += variant(r, nm, 1)
        return steps + [y]
    w = (lambda: r.choice([0.5, 1.0, 2.0])) if r.random() < 0.5 else (lambda: 1.0)
    corner = {}
    for i in (0, 1):
        for j in (0, 1):
            c = w()
            corner[i, j] = [r.randint(-32, 32) / 8 * c for _ in range(3)] + [c]
    steps = []
    ends = {"c00": ((0, 0), (0, 1)), "c01": ((1, 0), (1, 1)), "c10": ((0, 0), (1, 0)), "c11": ((0, 1), (1, 1))}
    rat = r.random() < 0.6
    same = r.random() < 0.5
    for nm in names:
        p, U = G.space(r, ends="clamped", smax=3, pmax=3, extreme=0, pool="dyadic" if same else r.choice(POOLS))
        if same:
            U = [(u - U[0]) / (U[-1] - U[0]) for u in U] if r.random() < 0.5 else U
        a, b = ends[nm]
        steps.append(net_curve(r, nm, p, U, corner[a], corner[b], rat))
        if r.random() < 0.3:
            steps += variant(r, nm, 1)
    if r.random() < 0.12:               # do not meet
        k = r.choice(["net", "reverse", "surface", "weight", "weight"])
        nm = r.choice(names)
        if k == "weight":               # the same points with other weights
            g = next(s for s in steps if s.get("name") == nm)
            m = r.choice([0.5, 2.0, 3.0])
            g["net"]["A"] = [x * m for x in g["net"]["A"]]
        elif k == "net":
            steps.append({"op": "write", "self": nm, "where": "net", "index": r.choice([0, 1, 3]), "axis": 0, "delta": 0.5})
        elif k == "reverse":
            steps.append({"op": "reverse", "self": nm, "axes": [0]})
        else:
            steps.append(obj(r, nm, 2))
    return steps + [y]


def poles(r):
    """a profile in the plane of the axis, some of its points on the axis"""
    p, U = G.space(r, ends="clamped", smax=2, pmax=3, extreme=0, pool=r.choice(POOLS))
    z = r.choice([0.0, 0.0, 0.5, -1.25])
    A = []
    for i in range(len(U) - p - 1):
        w = r.choice([0.5, 0.75, 1.0, 1.25, 2.0])
        x, y = (0.0, 0.0) if r.random() < 0.4 else (r.randint(-16, 16) / 4, r.choice([0.0, 0.0, 1.5, -2.0]))
        A += [x * w, y * w, r.randint(-16, 16) / 4 * w, w]
    st = {"op": "c_revolve", "objs": ["a"], "out": "y", "point": [0.0, 0.0, z], "axis": r.choice([2, -1, [0.0, 0.0, 2.0], [0.0, 0.0, -1.0]])}
    k = r.choice([0, 1, 2])
    if k < 2:                           # the same about another axis
        for i in range(0, len(A), 4):
            A[i], A[i + 1], A[i + 2] = [(A[i + 2], A[i], A[i + 1]), (A[i + 1], A[i + 2], A[i])][k]
        q = [[z, 0.0, 0.0], [0.0, z, 0.0]][k]
        st["point"], st["axis"] = q, r.choice([k, k - 3])
    if r.random() < 0.85:
        st["angle"] = angle(r)
    return [{"op": "given", "name": "a", "p": [p], "knots": [U], "net": {"kind": "array", "A": A}}, st]


def revolve(r):
    if r.random() < 0.2:
        return poles(r)
    s, d = profile(r, "a", (1, 1, 1, 2, 2, 3) if r.random() < 0.2 else (1, 1, 1, 2))
    st = {"op": "c_revolve", "objs": ["a"], "out": "y"}
    st["point"] = vec(r) if r.random() < 0.8 else r.choice(VAL + [0.0])
    if r.random() < 0.15:
        st["point"] = [0.0, 0.0, 0.0]
    x = r.random()
    if x < 0.4:
        st["axis"] = r.choice([0, 1, 2, -1, -2, -3])
    elif x < 0.9:
        st["axis"] = r.choice([vec(r), [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, -2.0], [1.0, 1.0, 1.0],
                               [-1.0, 0.0, 0.0], [1e-9, 0.0, 1.0], [0.0, 1e-3, -1.0], [1.0]])
    if r.random() < 0.85:
        st["angle"] = angle(r)
    st["how"] = r.choice([None, "array"])
    if r.random() < 0.07:
        k = r.choice(["axis", "axis", "point", "angle"])
        st[k] = {"axis": r.choice([3, -4, [0.0, 0.0, 0.0], [1.0] * 4]), "point": [1.0] * 4,
                 "angle": bad_angle(r)}[k]
    return s + [st]


# --- join -----------------------------------------------------------------------
def join(r):
    d = r.choice([1, 1, 1, 2, 2, 3])
    ax = r.randrange(d)
    y = {"op": "c_join", "objs": ["a", "b"], "axis": ax, "out": "y"}
    x = r.random()
    others = [i for i in range(d) if i != ax]
    if x < 0.4:                         # two pieces of one object
        steps = [obj(r, "o", d, total={1: 9, 2: 16, 3: 18}[d])]
        steps.append({"op": "mark", "self": "o", "axis": ax, "as": "t",
                      "value": {"mid": r.randrange(3), "at": 0.5} if r.random() < 0.6 else {"inner": r.randrange(3)}})
        steps.append({"op": "slice", "self": "o", "axis": ax, "start": None, "end": {"mark": "t"}, "out": "a"})
        steps.append({"op": "slice", "self": "o", "axis": ax, "start": {"mark": "t"}, "end": None, "out": "b"})
    elif x < 0.65:                      # there and back
        steps = [obj(r, "a", d, total={1: 8, 2: 12, 3: 12}[d]), {"op": "copy", "self": "a", "out": "b"},
                 {"op": "reverse", "self": "b", "axes": [ax]}]
    else:                               # one shared face, nothing else
        nf = r.choice([0, 0, 1])
        ks, ps = [], []
        for i in range(d):
            p, U = G.space(r, ends="clamped" if i == ax else None, smax=2, pmax=2 if d > 1 else 3, extreme=0,
                           pool=r.choice(POOLS))
            ks.append(U)
            ps.append(p)
        p2, U2 = G.space(r, ends="clamped", smax=2, pmax=2 if d > 1 else 3, extreme=0, pool=r.choice(POOLS))
        sh1 = [len(U) - p - 1 for p, U in zip(ps, ks)]
        sh2 = list(sh1)
        sh2[ax] = len(U2) - p2 - 1

        def net(sh):
            A = {}
            def rec(ix):
                if len(ix) == d:
                    w = r.choice([0.5, 1.0, 1.0, 2.0])
                    A[ix] = [r.randint(-32, 32) / 8 * w for _ in range(3)] + [w] + [r.randint(-16, 16) / 8 * w for _ in range(nf)]
                    return
                for k in range(sh[len(ix)]):
                    rec(ix + (k,))
            rec(())
            return A
        A, B = net(sh1), net(sh2)
        for ix in B:
            if ix[ax] == 0:
                jx = ix[:ax] + (sh1[ax] - 1,) + ix[ax + 1:]
                B[ix] = list(A[jx])
        flat = lambda N: [v for k in sorted(N) for v in N[k]]
        steps = [{"op": "given", "name": "a", "p": ps, "knots": ks, "net": {"kind": "array", "A": flat(A)}},
                 {"op": "given", "name": "b", "p": ps[:ax] + [p2] + ps[ax + 1:], "knots": ks[:ax] + [U2] + ks[ax + 1:],
                  "net": {"kind": "array", "A": flat(B)}}]
    for nm in ("a", "b"):
        if r.random() < 0.45:
            steps += variant(r, nm, d, 1, remap=False)
        if r.random() < 0.3:
            steps.append({"op": "remap", "self": nm, "axis": ax, "start": r.choice([0.0, -1.0, 0.1, 2.5]),
                          "end": r.choice([3.0, 4.5, 7.0])})
    if others and r.random() < 0.2:
        a = r.choice(others)
        for nm in ("a", "b"):
            steps.append({"op": "remap", "self": nm, "axis": a, "start": 0.0, "end": 1.0 if nm == "a" else 1.5})
    z = r.random()
    if z < 0.04:
        y["axis"] = r.choice([d, -1])
    elif z < 0.07:
        steps.append(obj(r, "b", r.choice([k for k in (1, 2, 3) if k != d])))
    elif z < 0.12:                      # do not meet
        steps.append({"op": "write", "self": "b", "where": "net", "index": r.randrange(6), "axis": 0, "delta": 0.5})
    return steps + [y]


# --- refine ---------------------------------------------------------------------
def refine(r, nm, out, d, small=True):
    st = {"op": "c_refine", "objs": [nm], "out": out}
    f = lambda: r.choice([1, 2, 2, 3] if d == 1 else [1, 2])
    x = r.random()
    per = lambda: {"spans": [r.choice([1, 2, 3] if d == 1 else [1, 2]) for _ in range(3)]}
    if x < 0.3:
        st["factor"] = f()
    elif x < 0.45:
        st["factor"] = [f() for _ in range(d)]
        st["how"] = r.choice([None, "array"])
    elif x < 0.8:
        st["factor"] = [r.choice([f, per, per, lambda: None])() for _ in range(d)]
    x = r.random()
    g = lambda: r.choice([1, 2, 3] if d < 3 else [1, 2])
    if x < 0.25:
        st["degree"] = g()
    elif x < 0.55:
        st["degree"] = [g() if r.random() < 0.8 else None for _ in range(d)]
    x = r.random()
    c = lambda: r.choice([0, 0, -1, 1, -2])
    if x < 0.25:
        st["continuity"] = c()
    elif x < 0.5:
        st["continuity"] = [c() if r.random() < 0.8 else None for _ in range(d)]
    if r.random() < 0.08:
        k = r.choice(["factor", "degree", "continuity", "span"])
        if k == "span":
            st["factor"] = [{"spans": [1, 2], "off": r.choice([1, -1])} if i == 0 else 1 for i in range(d)]
        else:
            st[k] = {"factor": r.choice([0, -1, [1] * (d + 1)]), "degree": r.choice([0, -1, [2] * (d + 1)]),
                     "continuity": r.choice([5, -6, [0] * (d + 1)])}[k]
    return st


# --- chains ------------------------------------------------------------------------
def chain(r):
    """constructions on constructions"""
    steps = [circle(r, "o0", bad=0) if r.random() < 0.5 else obj(r, "o0", 1, total=5)]
    d, nm = 1, "o0"
    for k in range(r.choice([2, 3])):
        out = "o%d" % (k + 1)
        x = r.random()
        if d < 3 and x < 0.35:
            steps.append(dict(extrude(r, nm, out, d)))
            d += 1
        elif d < 2 and x < 0.55:
            steps.append({"op": "c_revolve", "objs": [nm], "point": vec(r), "axis": r.choice([0, 1, 2]),
                          "angle": r.choice([0.7, PI / 2, -1.0, 4.0]), "out": out})
            d += 1
        elif d < 3 and x < 0.7:
            steps.append({"op": "copy", "self": nm, "out": nm + "c"})
            steps.append(G.c_affine(r, nm + "c"))
            steps.append({"op": "c_ruled", "objs": [nm, nm + "c"], "out": out})
            d += 1
        elif x < 0.85:
            st = {"op": "c_refine", "objs": [nm], "out": out}
            if d == 1:
                st["factor"] = 2
            elif r.random() < 0.5:
                st["continuity"] = 0
            steps.append(st)
        else:
            ax = r.randrange(d)
            steps.append({"op": "copy", "self": nm, "out": nm + "c"})
            steps.append({"op": "reverse", "self": nm + "c", "axes": [ax]})
            steps.append({"op": "c_join", "objs": [nm, nm + "c"], "axis": ax, "out": out})
        nm = out
    return steps
