"""The specification-level models: constants per tier, and how an emitted
behaviour becomes scenarios for the real code."""
import json


def fl(t):
    """A token of the specification as a double."""
    t = str(t)
    if "/" in t:
        n, d = t.split("/")
        return int(n) / int(d)
    return float(t)


def lift(x):
    return {"tok": x}


def opt(v, f=lambda x: x):
    return f(v[0]) if v else None


# --- MC_Spline: calls ---------------------------------------------------------
def start(j, r):
    p, U = j["start"]["p"], [[fl(x) for x in u] for u in j["start"]["U"]]
    net = {"kind": "ident", "seed": r.randint(0, 10**6), "rational": r.random() < 0.5}
    if len(p) > 1:
        net.update(kind="rand", nf=r.choice([0, 0, 1]))
    return {"op": "given", "name": "x", "p": p, "knots": U, "net": net}


def spline(j, r):
    steps, me, dim = [start(j, r)], "x", len(j["start"]["p"])
    neg = lambda a: a - dim if r.random() < 0.2 and 0 <= a < dim else a
    for i, c in enumerate(j["calls"]):
        op, a = c["op"], c["a"]
        st = {"op": op, "self": me}
        if "axis" in a and op not in ("transpose", "swap", "reverse"):
            st["axis"] = neg(a["axis"])
        if op in ("insert", "remove"):
            st["value"], st["times"] = lift(a["value"]), opt(a["times"])
            if op == "remove":
                st["deviation"] = fl(a["deviation"])
        elif op == "refine":
            st["values"] = [lift(x) for x in a["values"][0]]
        elif op == "elevate":
            st["times"] = opt(a["times"])
        elif op in ("clamp", "unclamp"):
            st["side"] = opt(a["side"])
            if op == "unclamp":
                st["continuity"] = opt(a["continuity"])
        elif op == "slice":
            st["start"], st["end"] = opt(a["start"], lift), opt(a["end"], lift)
        elif op == "extract":
            st["value"] = lift(a["value"])
        elif op == "boundary":
            st["side"] = a["side"]
        elif op == "transpose":
            if a["axes"]:
                st["axes"] = [neg(x) for x in a["axes"][0]]
        elif op == "swap":
            st["axis1"], st["axis2"] = neg(a["axis1"]), neg(a["axis2"])
        elif op == "reverse":
            if a["axes"]:
                st["axes"] = [neg(x) for x in a["axes"]]
        elif op == "remap":
            st["start"], st["end"] = opt(a["start"], lift), opt(a["end"], lift)
        if op in ("slice", "extract", "boundary"):
            st["out"] = "y%d" % i
        steps.append(st)
        if op in ("slice", "extract", "boundary") and j["ok"]:
            me = st["out"]
        if op in ("extract", "boundary"):
            dim -= 1
    return [steps]


def S(ops, quick, thorough):
    """MC_Spline with the calls `ops`; lists of (constants, replays)"""
    out = []
    base = {"Ops": "{%s}" % ", ".join('"%s"' % o for o in ops), "Ends": '"all"', "Dims": 1, "Depth": 1,
            "LawDepth": 0, "Args": '"many"', "MaxSpans": 2}
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Spline", "inv": ["Valid", "Same", "Laws"], "replay": spline}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            if i < len(lst):
                m[tier] = {"consts": dict(base, **lst[i][0]), "replays": lst[i][1]}
            else:
                m[tier] = None
        out.append(m)
    return out


def J(ops, inv=("Accepting", "Rejecting")):
    """the judge accepts ideal events of these calls and no others"""
    base = {"Ops": "{%s}" % ", ".join('"%s"' % o for o in ops), "Depth": 0, "LawDepth": 0, "Args": '"few"'}
    mk = lambda **k: {"consts": dict(base, **k)}
    return [{"module": "MC_Judge", "inv": list(inv), "quick": mk(Degrees="{1, 2}", MaxSpans=2, Ends='"two"', Dims=1),
             "thorough": mk(Degrees="{1, 2, 3}", MaxSpans=2, Ends='"all"', Dims=1, Args='"many"')},
            {"module": "MC_Judge", "inv": list(inv), "quick": None,
             "thorough": mk(Degrees="{1, 2}", MaxSpans=1, Ends='"two"', Dims=2)}]


# --- MC_Basis: spaces ------------------------------------------------------------
def knots_of(j):
    return j["p"], [fl(x) for x in j["U"]]


def brk(p, U):
    return sorted(set(x for x in U if U[p] <= x <= U[-p - 1]))


def points(p, U):
    b = brk(p, U)
    return b + [b[i] + t * (b[i + 1] - b[i]) for i in range(len(b) - 1) for t in (0.5, 0.125)]


def basis_eval(j, r):
    """every basis function at all breaks and inside every span"""
    p, U = knots_of(j)
    X = points(p, U)
    g = {"op": "given", "name": "x", "p": [p], "knots": [U],
         "net": {"kind": "ident", "seed": r.randint(0, 10**6), "rational": r.random() < 0.5}}
    return [[g, {"op": "call", "self": "x", "u": [X], "fields": "own"}, {"op": "call", "self": "x", "u": [None]},
             {"op": "call", "self": "x", "u": [r.choice(X)]},
             {"op": "call", "self": "x", "u": [{"out": r.choice([-0.25, 0.25])}]}]]


def basis_ders(j, r):
    p, U = knots_of(j)
    X = points(p, U)
    g = {"op": "given", "name": "x", "p": [p], "knots": [U],
         "net": {"kind": "rand", "seed": r.randint(0, 10**6), "rational": r.random() < 0.5}}
    return [[g] + [{"op": "derivative", "self": "x", "u": [X], "order": k} for k in (1, 2, 3)] +
            [{"op": "gradient", "self": "x", "u": [X]}, {"op": "hessian", "self": "x", "u": [X]}]]


def basis_kernels(j, r):
    p, U = knots_of(j)
    X = points(p, U)
    st = [{"op": "SpanIndex", "p": p, "U": U}, {"op": "Greville", "p": p, "U": U}, {"op": "igaGreville", "p": p, "U": U},
          {"op": "BasisData", "p": p, "U": U, "d": p, "q": None},
          {"op": "BasisDataCol", "p": p, "U": U, "d": p, "X": X}]
    for x in X:
        st += [{"op": "FindSpan", "p": p, "U": U, "u": x}, {"op": "FindMult", "p": p, "U": U, "u": x},
               {"op": "FindSpanMult", "p": p, "U": U, "u": x}, {"op": "EvalBasisFuns", "p": p, "U": U, "u": x},
               {"op": "EvalBasisFunsDers", "p": p, "U": U, "u": x, "d": None}]
    return [st]


def basis_queries(j, r):
    p, U = knots_of(j)
    g = {"op": "given", "name": "x", "p": [p], "knots": [U], "net": {"kind": "rand", "seed": 1}}
    return [[g] + [{"op": op, "self": "x", "axis": a} for op in ("spans", "greville", "lagrange", "lobatto")
                   for a in (0, -1)] +
            [{"op": "breaks", "self": "x", "axis": 0, "mults": True}, {"op": "breaks", "self": "x"},
             {"op": "spans", "self": "x"}, {"op": "attrs", "self": "x"}]]


BASIS_INV = ["ValidU", "BlossomIsCoxDeBoor", "DerivativesAgree", "PartitionOfUnity", "GrevilleIdentity",
             "Continuity", "SpanRight"]


def B(replay, k, kt):
    c = lambda D, s, e: {"Degrees": D, "MaxSpans": s, "Ends": '"%s"' % e, "Told": "TRUE"}
    return [{"module": "MC_Basis", "inv": BASIS_INV, "replay": replay,
             "quick": {"consts": c("{1, 2, 3}", 3, "all"), "replays": k},
             "thorough": {"consts": c("{1, 2, 3, 4}", 3, "all"), "replays": kt}},
            {"module": "MC_Basis", "inv": BASIS_INV, "replay": replay,
             "quick": None,
             "thorough": {"consts": c("{5, 6, 7}", 2, "two"), "replays": kt}}]


# --- MC_Cad: constructions ----------------------------------------------------
def cad(j, r):
    names = ["x%d" % i for i in range(len(j["os"]))]
    steps, lo = [], []
    for nm, o in zip(names, j["os"]):
        U = [[fl(x) for x in u] for u in o["U"]]
        lo.append(U[0][o["p"][0]])
        steps.append({"op": "given", "name": nm, "p": o["p"], "knots": U,
                      "net": {"kind": "array", "A": [fl(x) for x in o["A"]]}})
    for v in j["path"]:
        i = v["i"] - 1
        st = {"op": {"range": "remap", "unit": "remap"}.get(v["v"], v["v"]), "self": names[i], "axis": 0}
        if v["v"] == "elevate":
            st["times"] = 1
        elif v["v"] == "insert":
            st.update(value={"frac": 0.5}, times=1)
        elif v["v"] == "unclamp":
            st.update(side=None, continuity=None)
        elif v["v"] == "range":
            lo[i] -= 0.5
            st.update(start=lo[i], end=None)
        elif v["v"] == "unit":
            lo[i] = 0.0
            st.update(start=0.0, end=1.0)
        steps.append(st)
    st = {"op": "c_" + j["what"], "objs": names, "out": "y"}
    if j["what"] == "join":
        st["axis"] = 0
    return [steps + [st]]


def given(name, o):
    return {"op": "given", "name": name, "p": o["p"], "knots": [[fl(x) for x in u] for u in o["U"]],
            "net": {"kind": "array", "A": [fl(x) for x in o["A"]]}}


def make(j, r):
    """MC_Make: one construction with its arguments"""
    a, w = j["arg"], j["what"]
    num = lambda v: [fl(x) for x in v["x"]] if v["nd"] else fl(v["x"][0])
    ints = lambda v: list(v["x"]) if v["nd"] else v["x"][0]
    ang = lambda g: None if not g else ([opt(g[0], fl), opt(g[1], fl)] if g[0] else fl(g[1][0]))
    steps, names = [], []
    for nm in "ot":
        if j[nm]["p"]:
            steps.append(given(nm, j[nm]))
            names.append(nm)
    st = {"op": "c_" + w, "out": "y"}
    if names:
        st["objs"] = names
    if w == "grid":
        st["shape"], st["degree"], st["wrap"] = ints(a["shape"]), ints(a["degree"]), ints(a["wrap"])
        if a["continuity"]:
            st["continuity"] = ints(a["continuity"][0])
        L = a["limits"]
        st["limits"] = [fl(x) for x in L["x"]] if L["nd"] == 1 else [[fl(x) for x in q] for q in L["x"]]
        st["how"] = r.choice([None, "array"])
    elif w == "circle":
        st["radius"], st["angle"] = fl(a["radius"]), ang(a["angle"])
        if a["center"]:
            st["center"] = num(a["center"][0])
    elif w == "revolve":
        st["point"], st["angle"] = num(a["point"]), ang(a["angle"])
        st["axis"] = num(a["axis"]) if a["axis"]["nd"] else int(a["axis"]["x"][0])
    elif w == "extrude":
        st["d"] = num(a["d"])
        if a["axis"]:
            st["axis"] = int(a["axis"][0])
    elif w == "refine":
        per = lambda v: v[0]["x"][0][0] if v[0]["nd"] == 0 else [opt(x) for x in v[0]["x"]]
        cnt = lambda f: f["x"] if f["nd"] else f["x"][0]
        for k in ("degree", "continuity"):
            if a[k]:
                st[k] = per(a[k])
        if a["factor"]:
            f = a["factor"][0]
            st["factor"] = cnt(f["x"][0][0]) if f["nd"] == 0 else [opt(x, cnt) for x in f["x"]]
    return [steps + [st]]


def construct(j, r):
    """MC_Construct: one way of giving the data, then the object at work"""
    a = j["a"]
    st = {"op": "new", "out": "y", "knots": [[fl(x) for x in u] for u in a["knots"]],
          "khow": r.choice(["list", "array", "tuple", "F", "strided"])}
    for k in ("control", "weights", "fields"):
        if a[k]:
            st[k] = {"sh": a[k][0]["sh"], "A": [fl(x) for x in a[k][0]["A"]]}
    if a["control"]:
        st["how"] = r.choice(["array", "list", "F", "strided", "negstrided"] + (["tuple"] if a["control"][0]["sh"][0] != 2 else []))
    if "weights" in st and a["control"] and a["control"][0]["sh"][-1:] < [4]:
        st["tuple"] = r.random() < 0.4
    steps = [st, {"op": "attrs", "self": "y"}]
    if j["ok"]:
        d = len(a["knots"])
        steps.append({"op": "call", "self": "y", "u": [None for _ in range(d)],
                      "fields": "own" if a["fields"] else "no"})
        steps.append({"op": "elevate", "self": "y", "axis": d - 1, "times": 1})
    return [steps]


def alias(j, r):
    """MC_Alias: a history of calls and writes over related objects"""
    import gen as G
    sp = G.spaces(r, 2, total=16, smax=2, pmax=2)
    steps = [{"op": "given", "name": "x", "p": [p for p, U in sp], "knots": [U for p, U in sp],
              "net": {"kind": "rand", "seed": r.randint(0, 10**6), "rational": True, "nf": r.choice([0, 1])}}]
    dim = {"x": 2}
    for c in j:
        op, me, out, a = c["op"], c["self"], c["out"], c["a"] - 1
        if op == "write":
            steps.append({"op": "write", "self": me, "where": r.choice(["net", "control"]) if out == "net" else "knots",
                          "index": r.randrange(60) if out == "net" else -1, "axis": max(a, 0), "delta": 0.5})
            continue
        st = {"op": op, "self": me}
        if op in ("clone", "copy", "slice", "extract"):
            st["out"] = out
            dim[out] = dim[me] - (op == "extract")
            if op == "slice":
                st.update(axis=a, start={"frac": r.choice([0, 0.25])}, end={"frac": r.choice([0.75, 1])})
            elif op == "extract":
                st.update(axis=a, value={"frac": r.choice([0, 0.5, 1])})
                if r.random() < 0.4:
                    st = {"op": "boundary", "self": me, "out": out, "axis": a, "side": r.choice([0, 1])}
        elif op == "along":
            st = r.choice([{"op": "insert", "axis": a, "value": {"mid": r.randrange(3), "at": 0.25}, "times": 1},
                           {"op": "refine", "axis": a, "values": [{"mid": r.randrange(3), "at": 0.75}]},
                           {"op": "elevate", "axis": a, "times": 1}, {"op": "clamp", "axis": a}, {"op": "unclamp", "axis": a},
                           {"op": "reverse", "axes": [a]}, {"op": "remap", "axis": a, "start": 2.0, "end": 5.0}])
            st = dict(st, self=me)
        elif op == "affine":
            st = dict(G.c_affine(r, me), self=me)
        elif op == "swap":
            st = r.choice([{"op": "transpose"}, {"op": "swap", "axis1": 0, "axis2": 1}])
            st = dict(st, self=me)
        elif op == "idle":
            st = r.choice([{"op": "insert", "axis": 0, "value": {"mid": 0, "at": 0.5}, "times": 0}, {"op": "refine", "axis": 0, "values": []},
                           {"op": "elevate", "axis": 0, "times": 0}, {"op": "attrs"}, {"op": "transpose", "axes": list(range(dim[me]))},
                           {"op": "remove", "axis": 0, "value": {"mid": 0, "at": 0.5}, "times": 1}])
            st = dict(st, self=me)
        steps.append(st)
    return [steps]


def affine(j, r):
    """MC_Affine: a word on transforms, and the same word on an object itself"""
    import gen as G
    def args(c):
        op, a, st = c["op"], c["a"], {}
        if op in ("translate", "scale"):
            d = [fl(x) for x in a["d"]["x"]]
            st["d"] = d if a["d"]["nd"] == 1 else d[0]
            if a["axis"]:
                st["axis"] = a["axis"][0]
        elif op == "rotate":
            st["angle"] = fl(a["angle"])
            x = [fl(v) for v in a["ax"]["x"]]
            st["ax"] = x if a["ax"]["nd"] == 1 else int(x[0])
        elif op == "shear":
            st["M"] = [1, 0.5, 0, 0, 0, 1, 0, 0, -1, -0.5, 1, 0, 0, 0, 0, 1]
            if r.random() < 0.5:
                st["M"] = [1, 0.5, 0, 0, 1, 0, -1, -0.5, 1]
        return st
    word, names = [{"op": "t_new", "out": "t0"}], ["t0"]
    for c in j:
        if r.random() < 0.3:            # something that must not notice
            nm = "k%d" % len(names)
            word.append({"op": r.choice(["t_copy", "t_clone", "t_clone"]), "self": c["self"], "out": nm})
            names.append(nm)
        st = dict(args(c), self=c["self"])
        st["op"] = "t_" + {"shear": "compose", "translate": r.choice(["translate", "move"])}.get(c["op"], c["op"])
        if c["op"] == "compose":
            st["T"] = c["a"]["T"]
        if c["out"]:
            st["out"] = c["out"]
            names.append(c["out"])
            if c["op"] == "copy":
                st["op"] = r.choice(["t_copy", "t_clone", "t_new"])
            if st["op"] == "t_new":
                st.pop("self")
                if c["op"] == "copy":
                    st["T"] = c["self"]
        word.append(st)
    for n in names:
        word.append({"op": "t_array", "self": n})
        word.append({"op": "t_apply", "self": n, "X": [[1.0, 0, 0, 1], [0, -3.0, 0.5, 1], [2.0, 0.25, 4.0, 0.5], [1.0, 2.0, 3.0, 0]]})
    g, dim = G.given(r, total=12, ident=False, nf=r.choice([0, 2]))
    out = [word + [g, {"op": "transform", "self": "x", "T": r.choice(names)}]]
    direct = [dict(args(c), op="transform" if c["op"] == "shear" else c["op"], self="x") for c in j
              if c["op"] in ("translate", "scale", "rotate", "shear")]
    if direct:
        out.append([g] + direct)
    return out


def files(mode):
    """MC_Io: a file written, read back ("whole"), stopped at and spoilt ("part")"""
    def replay(j, r):
        job = j["job"]
        f, kind = job["f"], job["kind"]
        out = []
        if kind == "mat":
            craft = [["i", 1211216], ["i", len(job["rows"])], ["i", 4], ["i", sum(map(len, job["rows"]))]]
            craft += [["i", len(x)] for x in job["rows"]] + [["i", c] for x in job["rows"] for c in x]
            craft += [["s", r.randint(-80, 80) / 8, r.randint(-8, 8) / 8] for x in job["rows"] for c in x]
            src = {"fmt": f, "craft": craft}
            pre, rd = [], dict(src, op="p_read_mat")
        else:
            o = j["start"]
            pre = [{"op": "given", "name": "x", "p": o["p"], "knots": [[fl(x) for x in u] for u in o["U"]],
                    "net": {"kind": "array", "A": [fl(x) for x in o["A"]], "nf": o["nc"] - 4}}]
            if kind == "iga":
                pre.append({"op": "p_write", "self": "x", "fmt": f, "file": "f", "control": job["control"], "fields": job["fields"],
                            "nsd": job["nsd"], "over": r.random() < 0.3})
                rd = {"op": "p_read", "self": "", "fmt": f, "file": "f", "out": "y"}
            else:
                pre.append({"op": "p_write_vec", "fmt": f, "file": "f", "seed": r.randint(0, 10**6), "k": job["k"],
                            "sh": r.choice(["net", "flat", "F"]) if not job["flat"] else "flat", "imag": r.random() < 0.5})
                rd = {"op": "p_read_vec", "fmt": f, "file": "f"}
                if not job["flat"]:
                    pre[-1]["obj"] = rd["obj"] = "x"
            src = {"fmt": f, "file": "f"}
        if mode == "whole":
            return [pre + [rd]]
        out.append(pre + [dict(src, op="p_prefixes", kind=kind)])
        if r.random() < 0.3:
            k2 = r.choice([k for k in ("iga", "vec", "mat") if k != kind])
            out.append(pre + [dict(src, op="p_prefixes", kind=k2)])
        # every byte of the first word (the kind of file), some of the rest of the head, some of anywhere
        bad = [["byte", k, 1 << r.randrange(8)] for k in range(f["I"])]
        bad += [["byte", r.choice([r.randrange(f["I"], 40), r.randrange(j["len"])]), 1 << r.randrange(8)] for _ in range(5)]
        out.append(pre + [dict(rd, damage=[b], **({"out": "y%d" % i} if "out" in rd else {})) for i, b in enumerate(bad)])
        return out
    return replay


def O(mode, quick, thorough):
    out = []
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Io", "inv": ["NotBefore", "OneKind", "Meaning", "Noticed"], "replay": files(mode)}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": lst[i][0], "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def plotters(j, r):
    """MC_Plot: a history of plotters choosing their back ends"""
    mod = r.random() < 0.3              # p0 is the one behind igakit.plot's functions
    steps = [{"op": "d_plotter", "out": n, **({"module": True, "name": "null"} if mod and n == "p0" else {})}
             for n in ("p0", "p1")]
    for c in j:
        if c["op"] == "d_points":
            steps.append({"op": "d_points", "plotter": c["self"], "seed": r.randrange(10**6), "sh": [2, 3]})
        else:
            steps.append({"op": c["op"], "self": c["self"], "name": c["name"] or "line3d", "prop": r.random() < 0.5})
    return [steps]


def L(quick, thorough):
    out = [{"module": "MC_Plot", "inv": ["Follows", "LastWins", "Loaded"], "replay": plotters,
            "quick": {"consts": {"Mode": '"history"', "Depth": 3, "Names": '{"p0", "p1"}', "Dims": "{1}", "Degrees": "{1}", "Spans": "{1}"}, "replays": 200},
            "thorough": {"consts": {"Mode": '"history"', "Depth": 4, "Names": '{"p0", "p1"}', "Dims": "{1}", "Degrees": "{1}", "Spans": "{1}"}, "replays": 3000}}]
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Plot", "inv": ["Accepting", "Rejecting"]}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": dict({"Mode": '"drawing"', "Depth": 0, "Names": '{"p0"}'}, **lst[i])} if i < len(lst) else None
        out.append(m)
    return out


def questions(j, r):
    """MC_Query: one object asked one thing, and asked again"""
    o, q = j["obj"], j["q"]
    g = {"op": "given", "name": "x", "p": o["p"], "knots": [[fl(x) for x in u] for u in o["U"]],
         "net": {"kind": "array", "A": [fl(x) for x in o["A"]], "nf": o["nc"] - 4}}
    if "smp" in q:
        st = {"op": "v_write", "self": "x", "control": q["control"]}
        if q["smp"] == "even":
            st["sampler"] = {"n": r.choice([2, 3, 4])}
        if q["data"]:
            st["scalars"], st["vectors"] = [["T x", 1], ["s", -2]], [["v", [1, 0]]]
    elif "axis" in q:
        st = {"op": q["op"], "self": "x"}
        if q["axis"] != 99:
            st["axis"] = q["axis"]
        if q["op"] == "breaks":
            st["mults"] = q["mults"]
    else:
        u = [[fl(x) for x in xs] for xs in j["u"]]
        if r.random() < 0.3:                # one of them, as a number
            a = r.randrange(len(u))
            u[a] = r.choice(u[a])
        st = {"op": "derivative", "self": "x", "u": u, "order": q["k"]}
        if q["named"]:
            st["op"] = {1: "gradient", 2: "hessian"}[q["k"]]
            del st["order"]
        if q["mapped"] or r.random() < 0.2 and st["op"] != "hessian":
            st["mapped"] = q["mapped"]
        if j["F"]:
            st["fields"] = {"sh": j["F"][0]["sh"], "A": [fl(x) for x in j["F"][0]["A"]]}
    return [[g, st] + ([st] if r.random() < 0.2 else [])]


def Q(what, quick, thorough):
    out = []
    base = {"What": '"%s"' % what, "Dims": "{1}", "Degrees": "{1, 2}", "Spans": "{1, 2}", "Ends": '"two"'}
    inv = ["Accepting", "Rejecting"] + (["DerivativesRight"] if what == "ders" else [])
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Query", "inv": inv, "replay": questions}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": dict(base, **lst[i][0]), "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def R():
    """the arithmetic everything stands on"""
    return [{"module": "MC_Rat", "inv": ["Agrees", "Integers_", "Folds", "Literals", "Roots", "Circle", "HalfTurn"],
             "quick": {"consts": {"N": 4, "D": 3}}, "thorough": {"consts": {"N": 12, "D": 8}}}]


def F(quick, thorough):
    out = []
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Affine", "inv": ["Acts", "Bottom", "Back2", "Rigid"], "replay": affine}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": dict({"Names": '{"t0", "t1"}'}, **lst[i][0]), "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def K(quick, thorough):
    out = []
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Alias", "inv": ["True", "Symmetric"], "props": ["Isolated"], "replay": alias}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": {"Depth": lst[i][0], "Names": '{"x", "y", "z", "w"}'}, "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def N(quick, thorough):
    out = []
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Construct", "inv": ["Accepted", "Refused", "Given", "AlwaysAgain"], "replay": construct}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": lst[i][0], "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def W(what, quick, thorough):
    out = []
    base = {"What": '{"%s"}' % what, "Dims": 1, "Ends": '"clamped"', "Args": '"many"', "Degrees": "{1, 2}", "Spans": "{1, 2}"}
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Make", "inv": ["Accepts", "Rejects", "Meaning", "Sound"], "replay": make}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": dict(base, **lst[i][0]), "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


def D(what, quick, thorough):
    out = []
    base = {"What": '{"%s"}' % what, "Dims": 1, "Ends": '"two"', "Varies": "{}", "Depth": 0}
    for i in range(max(len(quick), len(thorough))):
        m = {"module": "MC_Cad", "inv": ["Accepts", "Rejects", "Usable"], "replay": cad}
        for tier, lst in (("quick", quick), ("thorough", thorough)):
            m[tier] = {"consts": dict(base, **lst[i][0]), "replays": lst[i][1]} if i < len(lst) else None
        out.append(m)
    return out


MODELS = {
    "C23": L([{"Dims": "{1, 2}", "Degrees": "{1, 2}", "Spans": "{1, 2}"}, {"Dims": "{3}", "Degrees": "{1}", "Spans": "{1}"}],
             [{"Dims": "{1}", "Degrees": "{1, 2, 3}", "Spans": "{1, 2}"}, {"Dims": "{2}", "Degrees": "{1, 2, 3}", "Spans": "{1, 2}"},
              {"Dims": "{3}", "Degrees": "{1, 2}", "Spans": "{1, 2}"}]),
    "C01": J([], ["Evaluated"]) + B(basis_eval, 120, 1500),
    "C02": B(basis_ders, 100, 1500) +
           Q("ders", [({"Ends": '"clamped"'}, 200), ({"Dims": "{2}", "Spans": "{1}", "Degrees": "{1}", "Ends": '"clamped"'}, 24)],
             [({"Degrees": "{1, 2, 3}"}, 4000), ({"Degrees": "{4}", "Ends": '"clamped"'}, 1000),
              ({"Dims": "{2}", "Ends": '"clamped"'}, 2000), ({"Dims": "{3}", "Degrees": "{1, 2}"}, 100)]),
    "C03": B(basis_kernels, 100, 1500) + R(),
    "C13": B(basis_queries, 283, 3000) +
           Q("asks", [({"Dims": "{1, 2}"}, 200)], [({"Dims": "{1, 2, 3}", "Degrees": "{1, 2, 3, 4}", "Ends": '"all"'}, 4000)]),
    "C22": Q("vtk", [({"Dims": "{1, 2, 3}", "Spans": "{1, 2}", "Ends": '"clamped"'}, 176)],
             [({"Dims": "{1, 2}", "Degrees": "{1, 2, 3}", "Spans": "{1, 2, 3}"}, 3000), ({"Dims": "{3}"}, 200)]),
    "C04": J(["insert", "refine"]) + S(["insert", "refine"],
             [({"Degrees": "{1, 2, 3}"}, 300), ({"Degrees": "{1, 2}", "Dims": 2, "MaxSpans": 1, "Ends": '"two"', "Args": '"few"'}, 80)],
             [({"Degrees": "{1, 2, 3}", "MaxSpans": 3}, 5000),
              ({"Degrees": "{1, 2}", "Depth": 2, "LawDepth": 1}, 3000),
              ({"Degrees": "{1, 2}", "Dims": 2, "Ends": '"two"'}, 2000)]),
    "C05": J(["elevate"]) + S(["elevate", "insert"],
             [({"Degrees": "{1, 2, 3}", "Args": '"few"'}, 250)],
             [({"Degrees": "{1, 2, 3}"}, 4000),
              ({"Degrees": "{1, 2}", "Depth": 2, "Args": '"few"'}, 2500),
              ({"Degrees": "{1, 2}", "Dims": 2, "Ends": '"two"', "Args": '"few"'}, 1500)]),
    "C06": J(["remove"]) + S(["insert", "remove"],
             [({"Degrees": "{1, 2, 3}", "Depth": 1}, 150),
              ({"Degrees": "{1, 2}", "Depth": 2, "Ends": '"two"', "Args": '"few"'}, 250)],
             [({"Degrees": "{1, 2, 3}", "Depth": 2, "Ends": '"two"', "Args": '"few"'}, 6000),
              ({"Degrees": "{1, 2}", "Depth": 2}, 3000)]),
    "C07": J(["clamp", "unclamp"]) + S(["clamp", "unclamp"],
             [({"Degrees": "{1, 2, 3}"}, 300)],
             [({"Degrees": "{1, 2, 3}", "MaxSpans": 3}, 5000),
              ({"Degrees": "{1, 2, 3}", "Depth": 2, "Ends": '"two"'}, 4000),
              ({"Degrees": "{1, 2}", "Dims": 2, "Ends": '"two"'}, 1500)]),
    "C08": J(["slice", "extract"]) + S(["slice", "extract"],
             [({"Degrees": "{1, 2, 3}"}, 250), ({"Degrees": "{1, 2}", "Dims": 2, "MaxSpans": 1, "Ends": '"two"'}, 80)],
             [({"Degrees": "{1, 2, 3}", "MaxSpans": 3}, 5000),
              ({"Degrees": "{1, 2}", "Depth": 2, "Ends": '"two"'}, 2500),
              ({"Degrees": "{1, 2}", "Dims": 2, "Depth": 2, "MaxSpans": 1, "Ends": '"two"'}, 2000)]),
    "C09": J(["transpose", "reverse", "remap"]) + S(["transpose", "reverse", "remap"],
             [({"Degrees": "{1, 2, 3}"}, 150), ({"Degrees": "{1, 2}", "Dims": 2, "MaxSpans": 1, "Depth": 1}, 200)],
             [({"Degrees": "{1, 2, 3}", "Depth": 2}, 4000),
              ({"Degrees": "{1, 2}", "Dims": 2, "Depth": 2, "Ends": '"two"'}, 4000)]),
    "C25": K([(3, 150)], [(3, 8000)]) + S(["insert", "refine", "remove", "elevate", "clamp", "unclamp", "slice", "extract", "reverse", "remap", "transpose"],
             [({"Degrees": "{1, 2}", "Depth": 2, "Ends": '"two"', "Args": '"few"'}, 250)],
             [({"Degrees": "{1, 2, 3}", "Depth": 2, "Args": '"few"'}, 6000),
              ({"Degrees": "{1, 2}", "Dims": 2, "MaxSpans": 1, "Depth": 2, "Ends": '"two"', "Args": '"few"'}, 4000)]),
    "C10": F([({"Depth": 1, "Args": '"many"'}, 94), ({"Depth": 2, "Args": '"some"'}, 300)],
             [({"Depth": 2, "Args": '"many"'}, 4000), ({"Depth": 4, "Args": '"few"'}, 6000), ({"Depth": 3, "Args": '"few"', "Names": '{"t0", "t1", "t2"}'}, 4000)]),
    "C11": K([(3, 500)], [(4, 8000)]),
    "C12": N([({"Dims": "{1}", "Degrees": "{1, 2}", "Ends": '"two"'}, 400), ({"Dims": "{2}", "Degrees": "{1, 2}", "Ends": '"clamped"'}, 300)],
             [({"Dims": "{1}", "Degrees": "{1, 2, 3}", "Ends": '"all"'}, 6000), ({"Dims": "{1, 2}", "Degrees": "{1, 2}", "Ends": '"two"'}, 6000)]),
    "C14": D("compat",
             [({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Varies": '{"unit", "range"}', "Depth": 1}, 250),
              ({"Degrees": "{1, 2}", "Spans": "{1}", "Dims": 2, "Ends": '"clamped"', "Varies": '{"range", "elevate"}', "Depth": 1}, 80)],
             [({"Degrees": "{1, 2, 3}", "Spans": "{1, 2}", "Varies": '{"unit", "range"}', "Depth": 1}, 5000),
              ({"Degrees": "{1, 2}", "Spans": "{2, 3}", "Ends": '"clamped"', "Varies": '{"unit", "unclamp"}', "Depth": 1}, 3000),
              ({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Dims": 2, "Ends": '"clamped"', "Varies": '{"range"}', "Depth": 1}, 2000)]),
    "C15": R() + W("circle", [({}, 100)], [({}, 1000)]) +
           W("grid", [({"Degrees": "{1, 2, 3}"}, 216), ({"Dims": 2}, 48)], [({"Degrees": "{1, 2, 3, 4}"}, 1000), ({"Dims": 2}, 1000)]),
    "C17": W("extrude", [({"Ends": '"two"'}, 60)], [({"Degrees": "{1, 2, 3}", "Ends": '"all"'}, 1000), ({"Dims": 2}, 500)]) +
           W("revolve", [({"Args": '"few"'}, 70)], [({"Ends": '"two"'}, 1500), ({"Dims": 2, "Spans": "{1}", "Args": '"few"'}, 600)]),
    "C20": O("whole", [({"Kinds": '{"iga", "vec", "mat"}', "Dims": "{1, 2}", "Formats": '"two"', "Spoil": 5}, 80)],
             [({"Kinds": '{"iga", "vec", "mat"}', "Dims": "{1, 2, 3}", "Formats": '"all"', "Spoil": 1}, 2000)]),
    "C21": O("part", [({"Kinds": '{"iga", "vec", "mat"}', "Dims": "{1, 2}", "Formats": '"two"', "Spoil": 5}, 60)],
             [({"Kinds": '{"iga", "vec", "mat"}', "Dims": "{1, 2, 3}", "Formats": '"all"', "Spoil": 1}, 1000)]),
    "C19": W("refine", [({"Ends": '"two"', "Args": '"few"'}, 350), ({"Dims": 2, "Spans": "{1}"}, 48)],
             [({"Degrees": "{1, 2, 3}", "Ends": '"all"'}, 5000), ({"Degrees": "{1, 2}", "Spans": "{3}", "Ends": '"two"'}, 3000),
              ({"Dims": 2, "Ends": '"two"'}, 1500)]),
    "C16": D("ruled",
             [({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Varies": '{"unit"}', "Depth": 1}, 120)],
             [({"Degrees": "{1, 2, 3}", "Spans": "{1, 2}", "Varies": '{"unit", "range"}', "Depth": 1}, 3000),
              ({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Dims": 2, "Ends": '"clamped"'}, 1500)]) +
           D("coons",
             [({"Degrees": "{1, 2}", "Spans": "{1}", "Varies": '{"unit", "range", "insert", "unclamp"}', "Depth": 1}, 120)],
             [({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Varies": '{"unit", "unclamp"}', "Depth": 1}, 3000),
              ({"Degrees": "{1, 2, 3}", "Spans": "{1}", "Varies": '{"range", "insert"}', "Depth": 1}, 1500)]) +
           W("sweep", [({"Ends": '"two"'}, 60)], [({"Degrees": "{1, 2, 3}", "Ends": '"all"'}, 1000), ({"Dims": 2}, 500)]),
    "C18": D("join",
             [({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Varies": '{"unit", "range", "unclamp", "elevate", "insert"}', "Depth": 1}, 271)],
             [({"Degrees": "{1, 2, 3}", "Spans": "{1, 2}", "Varies": '{"unit", "range", "unclamp", "elevate", "insert"}', "Depth": 2}, 5000),
              ({"Degrees": "{1, 2}", "Spans": "{1, 2}", "Dims": 2, "Varies": '{"range", "unclamp"}', "Depth": 1}, 2500)]),
}
