"""Scenario generation: seeded random scenarios, as data.

Everything here only proposes calls; nothing is judged here."""
import math
import random

KNOTPOOL = {
    "dyadic": [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0],
    "tenths": [i / 10.0 for i in range(11)],
    "thirds": [i / 3.0 for i in range(4)],
    "wide": [-3.0, -1.5, 0.0, 0.1, 0.7, 2.0, 5.0, 12.25, 40.0],
    "ints": [float(i) for i in range(9)],
    "neg": [-2.0, -1.75, -1.0, -0.9, -0.3, 0.0, 0.4, 0.5, 1.5],
    "tiny": [0.0, 1e-7, 3e-7, 1e-6, 2.5e-6, 1e-5, 1.1e-5],
    "nano": [0.0, 1e-10, 3e-10, 1e-9, 2.5e-9, 7e-9],
    "huge": [1e5, 1.5e5, 2e5, 3.25e5, 7e5, 1e6],
}
POOLS = ["dyadic", "tenths", "thirds", "wide", "ints", "neg", "dyadic", "tenths"]
EXTREME = ["tiny", "huge", "nano"]


def space(r, p=None, spans=None, ends=None, pool=None, pmax=4, smax=4, extreme=0.08, ragged=None, high=0.0):
    """A degree and a valid knot vector.  ends: clamped | free | mixed | periodic"""
    if p is None:
        if high and r.random() < high:
            p, smax = r.choice([4, 5, 5, 6, 7]), min(smax, 2)
        else:
            p = min(r.choice([1, 1, 2, 2, 2, 3, 3, 3, 4][: 3 * pmax]), pmax)
    if spans is None:
        spans = r.randint(1, smax)
    if ends is None:
        ends = r.choice(["clamped"] * 5 + ["free", "mixed", "periodic", "left", "right"])
    if pool is None:
        pool = r.choice(EXTREME) if r.random() < extreme else r.choice(POOLS)
    vals = KNOTPOOL[pool]
    spans = min(spans, len(vals) - 1)
    brk = sorted(r.sample(vals, spans + 1))
    inner = []
    for b in brk[1:-1]:
        inner += [b] * r.choice([1, 1, 1, min(2, p), p, r.randint(1, p)])
    h = (brk[-1] - brk[0])
    a, b = brk[0], brk[-1]

    def outside(side, m):
        """p knots beyond/at the end; m of them equal to it"""
        m = min(m, p)
        out, x = [], (a if side == 0 else b)
        for i in range(p):
            if i >= m:
                step = h * r.choice([0.125, 0.25, 0.5, 0.0 if i > m else 0.25])
                x = x - step if side == 0 else x + step
            out.append(x)
        return out

    def periodic(side):
        ks = [a] + inner + [b]
        out, per = [], h
        if side == 0:
            seq = ([x - per for x in ks[:-1]])[::-1]
        else:
            seq = [x + per for x in ks[1:]]
        i = 0
        base = seq
        while len(out) < p:
            out.append(base[i % len(base)] + (per if side else -per) * (i // len(base)))
            i += 1
        return out
    L = {"clamped": p, "right": r.randint(0, p - 1), "left": p, "free": 0,
         "mixed": r.randint(0, p - 1), "periodic": None}[ends]
    R = {"clamped": p, "left": r.randint(0, p - 1), "right": p, "free": 0,
         "mixed": r.randint(0, p - 1), "periodic": None}[ends]
    # an end span may be empty: the end repeated inside, no more than p copies in all
    if ragged is None:
        ragged = r.random() < 0.3
    if ragged and L is not None and L < p - 1:
        inner = [a] * r.randint(1, p - 1 - L) + inner
    if ragged and R is not None and R < p - 1 and r.random() < 0.7:
        inner = inner + [b] * r.randint(1, p - 1 - R)
    lo = periodic(0) if L is None else outside(0, L)
    hi = periodic(1) if R is None else outside(1, R)
    U = lo[::-1] + [a] + inner + [b] + hi
    return p, U


def spaces(r, dim, total=80, **kw):
    """dim spaces with at most total control points."""
    while True:
        s = [space(r, **kw) for _ in range(dim)]
        n = 1
        for p, U in s:
            n *= len(U) - p - 1
        if n <= total:
            return s


LIMIT = {1: 20, 2: 36, 3: 48}


def nearly(r, knots, ps):
    """some interior knots become one ulp larger or smaller"""
    out = []
    for p, U in zip(ps, knots):
        U = list(U)
        for i in range(p + 1, len(U) - p - 1):
            if U[p] < U[i] < U[-p - 1] and r.random() < 0.5:
                s = r.choice([-1, 1])
                U[i] = math.nextafter(U[i], s * 9e300) if U[i] else s * 1e-30
        out.append(sorted(U))
    return out


def given(r, name="x", dim=None, ident=None, nf=None, rational=None, total=None, near=0.0, **kw):
    if dim is None:
        dim = r.choice([1, 1, 2, 2, 3])
    if dim == 3:
        kw.setdefault("pmax", 3)
        kw.setdefault("smax", 2)
    elif dim == 2:
        kw.setdefault("smax", 3)
        if "pmax" not in kw:
            kw.setdefault("high", 0.05)
    elif "pmax" not in kw:
        kw.setdefault("high", 0.15)
    s = spaces(r, dim, total=total or LIMIT[dim], **kw)
    if ident is None:
        ident = dim < 3 or r.random() < 0.3
    if rational is None:
        rational = r.random() < 0.5
    net = {"kind": "ident" if ident else "rand", "seed": r.randint(0, 10**6),
           "rational": rational}
    if not ident:
        net["nf"] = r.choice([0, 0, 1, 2]) if nf is None else nf
    knots = [U for p, U in s]
    if near and r.random() < near:
        knots = nearly(r, knots, [p for p, U in s])
    return {"op": "given", "name": name, "p": [p for p, U in s],
            "knots": knots, "net": net}, dim


def axis(r, dim):
    return r.randrange(dim) - (dim if r.random() < 0.25 else 0)


def pos(r, out=0.0):
    """A symbolic parameter."""
    x = r.random()
    if x < out:
        return {"out": r.choice([-0.25, 0.25, -1e-6, 1e-6, 3.0])}
    x = r.random()
    if x < 0.45:
        return {"mid": r.randrange(8), "at": r.choice([0.5, 0.25, 0.1, 0.875, 0.3])}
    if x < 0.7:
        return {"inner": r.randrange(8)}
    if x < 0.8:
        return {"frac": 0}
    if x < 0.9:
        return {"frac": 1}
    return {"frac": r.choice([0.3, 0.7, 1 / 3, 0.5])}


# --- single calls -----------------------------------------------------------
def c_insert(r, o, dim, bad=0.1):
    st = {"op": "insert", "self": o, "axis": axis(r, dim), "value": pos(r, bad / 2)}
    x = r.random()
    if x < 0.25:
        pass
    elif x < 0.45:
        st["times"] = None
    elif x < 0.8:
        st["times"] = {"room": -r.randint(0, 3)}
        if r.random() < bad:
            st["times"] = {"room": r.randint(1, 2)}
    else:
        st["times"] = r.choice([0, 1, 1, 2])
    if r.random() < bad / 4:
        st["times"] = -1
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_refine(r, o, dim, bad=0.1):
    st = {"op": "refine", "self": o, "axis": axis(r, dim)}
    x = r.random()
    if x < 0.04:
        st["values"] = None
    elif x < 0.08:
        st["values"] = []
    else:
        n = r.choice([1, 1, 2, 2, 3, 4])
        st["values"] = [pos(r, bad / 4) for _ in range(n)]
        if r.random() < 0.25:
            st["values"] += [st["values"][0]]
        st["how"] = r.choice(["array", "array", "list", "tuple", "strided", "negstrided", "F"])
        if len(st["values"]) == 1 and r.random() < 0.5:
            st["scalar"] = True
            st["how"] = "list"
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_elevate(r, o, dim, bad=0.1, tmax=3):
    st = {"op": "elevate", "self": o, "axis": axis(r, dim)}
    x = r.random()
    if x < 0.3:
        pass
    else:
        st["times"] = r.choice([0, 1, 1, 1, 2, 2, 3, 4][: 3 * tmax - 1])
    if r.random() < bad / 3:
        st["times"] = -1
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_clamp(r, o, dim, bad=0.1):
    st = {"op": "clamp", "self": o, "axis": axis(r, dim)}
    x = r.random()
    if x < 0.6:
        st["side"] = r.choice([0, 1])
    elif x < 0.7:
        st["side"] = None
    if r.random() < bad / 3:
        st["side"] = r.choice([2, -1])
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_unclamp(r, o, dim, bad=0.1):
    st = c_clamp(r, o, dim, bad)
    st["op"] = "unclamp"
    x = r.random()
    if x < 0.6:
        st["continuity"] = r.choice([0, 0, 1, 1, 2, 3])
    elif x < 0.7:
        st["continuity"] = None
    if r.random() < bad / 4:
        st["continuity"] = r.choice([-1, 9])
    return st


def c_remove(r, o, dim, bad=0.1):
    st = {"op": "remove", "self": o, "axis": axis(r, dim), "value": pos(r, bad / 2)}
    x = r.random()
    if x < 0.4:
        st["times"] = r.choice([0, 1, 1, 2, 3])
    elif x < 0.55:
        st["times"] = None
    x = r.random()
    if x < 0.3:
        st["deviation"] = r.choice([1e-6, 1e-3, 0.5, 1e6])
    return st


def c_slice(r, o, dim, out, bad=0.1):
    st = {"op": "slice", "self": o, "axis": axis(r, dim), "out": out}
    a, b = pos(r, bad / 2), pos(r, bad / 2)
    x = r.random()
    if x < 0.12:
        a = None
    elif x < 0.24:
        b = None
    elif x < 0.5:
        i = r.randint(0, 3)
        a, b = {"break": i}, {"break": i + r.randint(1, 2)}
    elif x < 0.7:
        a = {"frac": r.choice([0, 0.1, 0.25, 1 / 3])}
        b = {"frac": r.choice([0.5, 0.75, 0.9, 1])}
    st["start"], st["end"] = a, b
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_extract(r, o, dim, out, bad=0.1):
    st = {"op": "extract", "self": o, "axis": axis(r, dim), "out": out, "value": pos(r, bad / 2)}
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_boundary(r, o, dim, out, bad=0.1):
    st = {"op": "boundary", "self": o, "axis": axis(r, dim), "out": out, "side": r.choice([0, 1])}
    if r.random() < bad / 3:
        st["side"] = r.choice([2, -1])
    return st


def c_transpose(r, o, dim):
    st = {"op": "transpose", "self": o}
    if r.random() < 0.7:
        ax = list(range(dim))
        r.shuffle(ax)
        ax = [a - dim if r.random() < 0.3 else a for a in ax]
        st["axes"] = ax
        st["how"] = r.choice(["list", "array"])
    return st


def c_swap(r, o, dim):
    return {"op": "swap", "self": o, "axis1": axis(r, dim), "axis2": axis(r, dim)}


def c_reverse(r, o, dim):
    st = {"op": "reverse", "self": o}
    if r.random() < 0.75:
        st["axes"] = [axis(r, dim) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return st


def c_remap(r, o, dim, bad=0.1):
    st = {"op": "remap", "self": o, "axis": axis(r, dim), "start": None, "end": None}
    a, b = r.choice([(0.0, 1.0), (-1.0, 1.0), (0.1, 0.7), (2.0, 7.0), (-0.3, 0.0), (1e-3, 2e-3), (0.0, 1e-9), (2e-9, 3e-9)])
    x = r.random()
    if x < 0.7:
        st["start"], st["end"] = a, b
    elif x < 0.8:
        st["start"] = {"out": -0.5}
    elif x < 0.87:
        st["end"] = {"out": 0.3}
    elif x < 0.94:                      # nearly the interval it has
        e = r.choice([1e-5, 1e-6, 1e-9, 1e-12])
        st["start"] = r.choice([None, {"out": -e}])
        st["end"] = {"out": e}
    if r.random() < bad / 2:
        st["start"], st["end"] = r.choice([(1.0, 1.0), (2.0, -1.0)])
    if r.random() < bad / 4:
        st["axis"] = r.choice([dim, -dim - 1])
    return st


def c_affine(r, o):
    m = r.choice(["translate", "move", "scale", "rotate", "rotate", "transform"])
    num = lambda: r.choice([0.5, -1.25, 2.0, 0.1, 3.0, -0.7, 0.0, 1.0])
    st = {"op": m, "self": o}
    if m in ("translate", "move", "scale"):
        if r.random() < 0.5:
            st["d"] = [num() for _ in range(r.choice([1, 2, 3, 3]))]
        else:
            st["d"] = num()
            if r.random() < 0.6:
                st["axis"] = r.choice([0, 1, 2, -1, -2, -3])
    elif m == "rotate":
        st["angle"] = r.choice([0.0, 0.3, -1.1, 1.5707963267948966, 3.141592653589793,
                                -2.5, 6.0, 1e-3, 10.0])
        x = r.random()
        if x < 0.4:
            st["ax"] = r.choice([0, 1, 2, -1, -2, -3])
        elif x < 0.9:
            st["ax"] = r.choice([[1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 1, 1], [0.3, -2, 0.5],
                                 [1, 2], [0, 3], [2]])
            st["ax"] = [float(v) for v in st["ax"]]
    else:
        n = r.choice([3, 4])
        M = [r.randint(-8, 8) / 4 for _ in range(n * n)]
        if n == 4:
            M[12:] = [0.0, 0.0, 0.0, 1.0]
        st["M"] = M
    if r.random() < 0.3:
        st["how"] = r.choice(["list", "tuple", "F"]) if m != "transform" else r.choice(["F", "strided"])
    return st


def matrix(r, affine=True, n=None, regular=False):
    n = n or r.choice([3, 4, 4])
    while True:
        M = [r.randint(-8, 8) / 4 for _ in range(n * n)]
        if n == 4 and affine:
            M[12:] = [0.0, 0.0, 0.0, 1.0]
        if regular:                      # strictly diagonally dominant
            for i in range(n):
                M[i * n + i] = sum(abs(M[i * n + j]) for j in range(n) if j != i) + r.choice([0.5, 1.0, 2.0])
            if n == 4 and affine:
                M[12:] = [0.0, 0.0, 0.0, 1.0]
        return M


def t_session(r, length):
    """a history of the transform class, over several transforms"""
    names = ["t0"]
    steps = [{"op": "t_new", "out": "t0"} if r.random() < 0.3 else
             {"op": "t_new", "out": "t0", "M": matrix(r, affine=r.random() < 0.8, n=4, regular=r.random() < 0.7)}]
    for k in range(length):
        o = r.choice(names)
        x = r.random()
        if x < 0.4:
            while True:
                st = c_affine(r, o)
                if st["op"] != "transform":
                    break
            st["op"] = "t_" + st["op"]
            if r.random() < 0.04:
                bad = r.choice([0, 1])
                if bad and "axis" in st:
                    st["axis"] = r.choice([3, -4])
                elif st["op"] == "t_rotate":
                    st["ax"] = r.choice([3, -4, [0.0, 0.0, 0.0], [1.0, 2.0, 3.0, 4.0]])
                elif isinstance(st["d"], list):
                    st["d"] = [1.0, 2.0, 3.0, 4.0]
            steps.append(st)
        elif x < 0.6:
            st = {"op": "t_compose", "self": o}
            if r.random() < 0.4:
                st["T"] = r.choice(names)
            else:
                st["M"] = matrix(r, regular=r.random() < 0.6)
            steps.append(st)
        elif x < 0.7:
            steps.append({"op": "t_invert", "self": o})
        elif x < 0.9:
            nm = "t%d" % len(names)
            op = r.choice(["t_inverse", "t_copy", "t_clone", "t_new"])
            st = {"op": op, "out": nm}
            if op == "t_new":
                st["T"] = o
            else:
                st["self"] = o
            names.append(nm)
            steps.append(st)
        else:
            if r.random() < 0.3:
                steps.append({"op": "t_array", "self": o, "scribble": r.random() < 0.5})
                continue
            n = r.choice([0, 1, 2, 3])
            X = [[r.randint(-16, 16) / 4 for _ in range(4)] for _ in range(n or 1)]
            steps.append({"op": "t_apply", "self": o, "X": X, "flat": n == 0})
    return steps, names


# --- kernels ------------------------------------------------------------------
def kernels(r, p, U, force=True):
    """calls of every compiled kernel on one space"""
    lo, hi = U[p], U[-p - 1]
    brk = sorted(set(x for x in U if lo <= x <= hi))

    def par():
        x = r.random()
        if x < 0.3:
            return r.choice(brk)
        if x < 0.5:
            return r.choice([lo, hi])
        if x < 0.55:
            return r.choice([lo - 0.5, hi + 0.5])
        i = r.randrange(len(brk) - 1)
        return brk[i] + r.choice([0.5, 0.25, 0.1, 0.875]) * (brk[i + 1] - brk[i])

    def d():
        x = r.random()
        return None if x < 0.3 else r.randint(0, p) if x < 0.93 else r.choice([-1, p + 1])
    ops = []
    for op in ("FindSpan", "FindMult", "FindSpanMult", "EvalBasisFuns", "EvalBasisFunsDers"):
        for _ in range(2):
            st = {"op": op, "p": p, "U": U, "u": par()}
            if op == "EvalBasisFunsDers":
                st["d"] = d()
            if op.startswith("Eval") and force and r.random() < 0.2:
                ks = [k for k in range(p, len(U) - p - 1) if U[k] < U[k + 1]]
                st["span"] = r.choice(ks + [-1])
            ops.append(st)
    ops.append({"op": "SpanIndex", "p": p, "U": U})
    ops.append({"op": r.choice(["Greville", "igaGreville"]), "p": p, "U": U})
    ops.append({"op": "BasisData", "p": p, "U": U, "d": d(),
                "q": r.choice([None, 1, 2, 3, 4, 5]) if r.random() < 0.9 else r.choice([0, 10, 11, 7])})
    ops.append({"op": "BasisDataCol", "p": p, "U": U, "d": d(),
                "X": [par() for _ in range(r.choice([0, 1, 2, 4, 6] if r.random() < 0.2 else [1, 3, 5]))]})
    if r.random() < 0.05:
        st = dict(r.choice(ops))
        st["p"] = r.choice([0, -1, p + 3])
        ops.append(st)
    r.shuffle(ops)
    return ops


def knotvector(r):
    p = r.choice([1, 1, 2, 2, 3, 3, 4])
    st = {"op": "KnotVector", "E": r.choice([1, 2, 3, 4, 5, 7]), "p": p}
    if r.random() < 0.6:
        st["C"] = r.randint(0, p - 1)
    if r.random() < 0.5:
        st["Ui"] = r.choice([0.0, -1.0, 0.1, 2.0, -3.5])
    if r.random() < 0.5:
        st["Uf"] = st.get("Ui", 0.0) + r.choice([1.0, 0.7, 3.0, 0.1])
    if "Ui" in st and "Uf" not in st and st["Ui"] >= 1:
        st["Uf"] = st["Ui"] + 1.5
    if r.random() < 0.4:
        st["wrap"] = True
    if r.random() < 0.06:
        k = r.choice(["E", "p", "C"])
        st[k] = {"E": 0, "p": 0, "C": r.choice([-1, p])}[k]
    return st


# --- the constructor -----------------------------------------------------------
def construct(r, out="x"):
    dim = r.choice([1, 1, 2, 2, 3])
    s = spaces(r, dim, total=24, pmax=3, smax=2)
    x = r.random()
    st = {"op": "new", "out": out, "knots": [U for p, U in s],
          "khow": r.choice(["list", "array", "tuple", "F", "strided"])}
    sh = [len(U) - p - 1 for p, U in s]
    if x < 0.15:                         # the identity: clamped knots only
        s = spaces(r, dim, total=24, pmax=3, smax=2, ends="clamped" if r.random() < 0.8 else None)
        st["knots"] = [U for p, U in s]
        sh = [len(U) - p - 1 for p, U in s]
    else:
        sd = r.choice([2, 2, 3, 3, 4, 4])
        st["control"] = {"sh": sh + [sd], "seed": r.randint(0, 10**6)}
        if sd == 4:
            st["control"]["range"] = [1, 32]
        if sd < 4 and r.random() < 0.6:
            st["weights"] = {"sh": sh, "seed": r.randint(0, 10**6), "range": [1, 24]}
            st["tuple"] = r.random() < 0.4
        st["how"] = r.choice(["array", "array", "list", "F", "strided", "negstrided", "float32"] +
                             (["tuple"] if sh[0] != 2 else []))
    if r.random() < 0.5:
        st["fields"] = {"sh": sh + r.choice([[], [1], [2], [3]]), "seed": r.randint(0, 10**6)}
    if r.random() < 0.25:                # break something
        k = r.choice(["knots", "control", "weights", "fields", "nknots", "short", "order", "sdim", "rank", "extraw"])
        if k == "knots":
            U = st["knots"][r.randrange(dim)]
            if r.random() < 0.5:
                U.pop(r.randrange(len(U)))
            else:
                U.append(U[-1])
        elif k == "control" and "control" in st:
            st["control"]["sh"] = [n + (r.random() < 0.5) for n in sh] + [st["control"]["sh"][-1]]
        elif k == "weights" and "weights" in st:
            st["weights"]["sh"] = r.choice([sh + [1], [n + 1 for n in sh], sh[:-1] or [1], [1] * len(sh)])
        elif k == "fields":
            st["fields"] = {"sh": r.choice([sh + [1, 1], [n + 1 for n in sh], sh[1:], sh[::-1], [1] * len(sh) + [2]]),
                            "seed": 1}
        elif k == "nknots":
            st["knots"] = (st["knots"] + st["knots"] + st["knots"])[: r.choice([0, dim - 1, dim + 1, 4])]
        elif k == "short":
            st["knots"][0] = [0.0, 0.0, 1.0][: r.choice([0, 2, 3])]
        elif k == "order":
            U = st["knots"][0]
            i = r.randrange(len(U))
            U[i] += r.choice([-9.0, 9.0])
        elif k == "sdim" and "control" in st:
            st["control"]["sh"][-1] = r.choice([1, 5, 0])
        elif k == "rank" and "control" in st:
            st["control"]["sh"] = r.choice([st["control"]["sh"] + [2], st["control"]["sh"][:-1]])
        elif k == "extraw":
            if "control" in st:
                st["control"]["sh"][-1] = 4
                st["control"]["range"] = [1, 32]
            st["weights"] = {"sh": sh, "seed": 3, "range": [1, 24]}
    return st, dim


# --- queries ------------------------------------------------------------------
def params(r, dim, out=0.03, nmax=4):
    us = []
    for a in range(dim):
        x = r.random()
        if x < 0.2:
            us.append(None)
        elif x < 0.5:
            us.append(pos(r, out))
        elif x < 0.62:                  # close to each other, or to a knot
            i = r.randrange(8)
            at = r.choice([0.5, 0.3, 0.0])
            k = r.sample([at, at + 1e-7, at + 1e-6, at + 1e-5, at + 1e-3], r.choice([2, 3][: max(1, nmax - 2)]))
            us.append([{"mid": i, "at": a} if r.random() < 0.9 else {"ulp": i + 1, "up": False} for a in k])
        else:
            us.append([pos(r, out) for _ in range(r.choice([0, 1, 2, 3, nmax][1 if r.random() < .95 else 0:]))])
    return us


HOW = ["array", "array", "list", "tuple", "strided", "negstrided", "float32"]


def c_call(r, o, dim):
    st = {"op": "call", "self": o, "u": params(r, dim), "how": r.choice(HOW[:6])}
    x = r.random()
    if x < 0.2:
        st["fields"] = "own"
    elif x < 0.4:
        st["fields"] = {"seed": r.randint(0, 10**6), "nf": r.choice([0, 1, 2, 3])}
        st["fhow"] = r.choice(["array", "F", "strided", "negstrided", "list"])
        if r.random() < 0.05:
            st["fields"]["badshape"] = True
    if None not in st["u"] and r.random() < 0.3:
        st["positional"] = True
    return st


def c_evaluate(r, o, dim):
    st = {"op": "evaluate", "self": o, "u": params(r, dim), "how": r.choice(HOW[:6])}
    if r.random() < 0.6:
        st["fields"] = {"seed": r.randint(0, 10**6), "nf": r.choice([0, 1, 2, 3])}
        st["fhow"] = r.choice(["array", "F", "strided", "negstrided", "list"])
    if r.random() < 0.25:
        st["positional"] = True
    return st


def c_der(r, o, dim, mapped=False):
    op = r.choice(["gradient", "hessian", "derivative", "derivative"])
    st = {"op": op, "self": o, "u": params(r, dim, nmax=3)}
    if op == "derivative":
        st["order"] = r.choice([1, 2, 3, 4, 4])
        if r.random() < 0.04:
            st["order"] = r.choice([0, 5, -1])
    if mapped:
        st["mapped"] = True
        if r.random() < 0.8:
            st["op"] = r.choice(["gradient", "derivative"])
            st["order"] = 1
    if dim == 3 and st.get("order", 2) > 2:
        st["u"] = [u if u is not None and not isinstance(u, list) else pos(r) for u in st["u"]]
    if r.random() < 0.5:
        st["fields"] = {"seed": r.randint(0, 10**6), "nf": r.choice([0, 1, 2])}
        st["fhow"] = r.choice(["array", "F", "strided", "list"])
    if r.random() < 0.25:
        st["positional"] = True
    if r.random() < 0.5:
        st["how"] = r.choice(HOW[:6])
    return st


# --- histories over several objects ----------------------------------------------
class H:
    """Keeps rough track of names, dimensions and sizes while proposing calls."""

    def __init__(self, r):
        self.r = r
        self.dim = {}
        self.n = 0

    def new(self, dim):
        self.n += 1
        nm = "o%d" % self.n
        self.dim[nm] = dim
        return nm


def history(r, length, queries=True):
    h = H(r)
    steps = []
    big = {}
    for _ in range(r.choice([1, 1, 2])):
        nm = h.new(0)
        g, d = given(r, name=nm, ident=False, nf=r.choice([0, 0, 1, 2]), total={1: 10, 2: 16, 3: 18}[r.choice([1, 2, 3])],
                     smax=2, pmax=3)
        h.dim[nm] = d
        big[nm] = 0
        steps.append(g)
    while len(steps) < length + 1:
        o = r.choice(list(h.dim))
        d = h.dim[o]
        x = r.random()
        if x < 0.12:
            nm = h.new(d)
            steps.append({"op": r.choice(["copy", "clone"]), "self": o, "out": nm})
            big[nm] = big[o]
            continue
        if x < 0.17 and d:
            steps.append({"op": "write", "self": o, "where": r.choice(["net", "control"]), "index": r.randrange(60),
                          "axis": 0, "delta": 0.5})
            continue
        if d == 0:
            if queries:
                steps.append({"op": "attrs", "self": o})
            else:
                steps.append({"op": "copy", "self": o, "out": h.new(0)})
            continue
        if x < 0.5:
            grow = big[o] < 4
            if grow:
                st = r.choice([c_insert, c_insert, c_refine, c_elevate, c_clamp, c_unclamp, c_remove])(r, o, d)
                if st["op"] == "elevate" and st.get("times", 1) > 1:
                    st["times"] = 1
                big[o] += {"elevate": 3, "refine": 2, "insert": 1}.get(st["op"], 0)
            else:
                st = r.choice([c_clamp, c_unclamp, c_remove])(r, o, d)
        elif x < 0.68:
            st = r.choice([lambda: c_transpose(r, o, d), lambda: c_swap(r, o, d),
                           lambda: c_reverse(r, o, d), lambda: c_remap(r, o, d)])()
        elif x < 0.76:
            st = c_affine(r, o)
        elif x < 0.9:
            k = r.choice(["slice", "extract", "boundary"])
            if k == "slice":
                nm = h.new(d)
                st = c_slice(r, o, d, nm, bad=0)
                st["axis"] %= d
                if st["start"] is not None or st["end"] is not None:
                    st["start"], st["end"] = {"frac": r.choice([0, 0.1, 0.25])}, {"frac": r.choice([0.5, 0.75, 1])}
            elif k == "extract":
                nm = h.new(d - 1)
                st = c_extract(r, o, d, nm, bad=0)
            else:
                nm = h.new(d - 1)
                st = c_boundary(r, o, d, nm, bad=0)
            big[nm] = big[o]
        elif queries:
            st = r.choice([lambda: c_call(r, o, d), lambda: {"op": "attrs", "self": o},
                           lambda: {"op": r.choice(["breaks", "spans", "greville"]), "self": o}])()
        else:
            continue
        steps.append(st)
    return steps


# --- the same question again ----------------------------------------------------
def question(r, o, dim, kinds=("call", "own", "evaluate", "der", "list", "attrs")):
    """a query that can be put again, whatever happened to the object"""
    k = r.choice(kinds)
    if k == "attrs":
        return {"op": "attrs", "self": o}
    if k == "list":
        st = {"op": r.choice(["breaks", "breaks", "spans", "greville", "lagrange", "lobatto"]), "self": o}
        if st["op"] == "breaks" and r.random() < 0.5:
            st["mults"] = True
        if r.random() < 0.3:
            st["axis"] = r.randrange(dim)
    else:
        # default, fixed, or at fractions of the domain
        one = r.choice([None, None, None, None, {"frac": r.choice([0, 0.3, 0.5, 1])}, [{"frac": 0}, {"frac": 0.4}, {"frac": 1}]])
        us = [one if r.random() < 0.85 else {"frac": 0.5} for _ in range(dim)]
        if k == "der":
            st = {"op": r.choice(["gradient", "hessian", "derivative"]), "self": o, "u": us}
            if st["op"] == "derivative":
                st["order"] = r.choice([1, 2, 3])
            if dim == 3:
                st["u"] = [u if isinstance(u, dict) else {"frac": 0.5} for u in us]
        else:
            st = {"op": "evaluate" if k == "evaluate" else "call", "self": o, "u": us}
            if k == "own":
                st["fields"] = "own"
    if r.random() < 0.3:
        st["scribble"] = True
    return st


def steady(r, steps, kinds=("call", "own", "evaluate", "der", "list", "attrs"), often=0.8):
    """the same question before and after every call of a history"""
    dims = {}
    q = {}
    out = []
    for st in steps:
        out.append(st)
        if st["op"] == "given":
            dims[st["name"]] = len(st["p"])
        elif st["op"] == "new" and "knots" in st:
            dims[st["out"]] = len(st["knots"])
        elif "out" in st and st.get("self") in dims and st["op"] in ("copy", "clone", "slice"):
            dims[st["out"]] = dims[st["self"]]
            if st["self"] in q:
                q[st["out"]] = [dict(x, self=st["out"]) for x in q[st["self"]]]
        for o in [st.get("name"), st.get("self"), st.get("out")]:
            if o in dims and r.random() < often and st["op"] not in ("attrs",):
                if o not in q:
                    q[o] = [question(r, o, dims[o], kinds) for _ in range(r.choice([1, 2]))]
                out += [dict(x) for x in q[o]]
    return out


def changes(r, o, dim, n):
    """n calls that change the object's space or net"""
    grow, steps = 0, []
    for _ in range(n):
        st = r.choice([c_insert, c_refine, c_elevate, c_remove, c_clamp, c_unclamp][2 if grow > 2 else 0:] +
                      [c_reverse, c_remap, c_remap, c_transpose, lambda r, o, d: c_affine(r, o)])(r, o, dim)
        if st["op"] == "elevate":
            st["times"] = 1
        grow += st["op"] in ("insert", "refine", "elevate")
        steps.append(st)
    return steps
