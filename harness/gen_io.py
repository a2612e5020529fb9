"""Scenarios for igakit.io (seeded; nothing is judged here)."""
import gen as G

IGA, VEC, MAT = 1211299, 1211214, 1211216


def fmt(r):
    return {"I": r.choice([4, 8]), "R": r.choice([8, 8, 4]), "cplx": r.random() < 0.3}


def given(r, total=None, **kw):
    dim = kw.pop("dim", None) or r.choice([1, 1, 2, 2, 3])
    if total is None:
        total = {1: 9, 2: 12, 3: 16}[dim]
    kw.setdefault("extreme", 0.05)
    g, dim = G.given(r, dim=dim, ident=False, nf=r.choice([0, 1, 2, 3]), total=total, **kw)
    g["net"]["dim"] = r.choice([dim, dim, 3])
    if r.random() < 0.15:
        g["net"]["q"] = r.choice([3, 7, 10])       # not exact in single precision
    return g, dim


def w_opts(r, dim):
    st = {}
    if r.random() < 0.4:
        st["control"] = r.random() < 0.6
    if r.random() < 0.4:
        st["fields"] = r.random() < 0.5
    x = r.random()
    if x < 0.35:
        st["nsd"] = 3
    elif x < 0.55:
        st["nsd"] = r.choice([dim, 2])
    elif x < 0.62:
        st["nsd"] = r.choice([0, 1, 4, -1])
    if r.random() < 0.3:
        st["over"] = True
    return st


def write(r, o, dim, f, name="f", **kw):
    st = {"op": "p_write", "self": o, "fmt": f, "file": name}
    st.update(w_opts(r, dim))
    st.update(kw)
    return st


def vec_steps(r, f, name="v"):
    """write a vector and read it back"""
    byobj = r.random() < 0.7
    st = {"op": "p_write_vec", "fmt": f, "file": name, "seed": r.randrange(10**6), "k": r.choice([1, 1, 2, 3, 4])}
    if byobj:
        st["obj"] = "x"
        st["sh"] = r.choice(["net", "grid", "flat", "F", "Fflat", "list"])
        if r.random() < 0.08:
            st["extra"] = r.choice([1, 2])
    else:
        st["k"] = r.choice([0, 1, 3, 8, 13])
        st["sh"] = r.choice(["flat", "list"])
    if r.random() < 0.3 and f["R"] == 8:
        st["big"] = True
    rd = {"op": "p_read_vec", "fmt": f, "file": name}
    if byobj and r.random() < 0.85:
        rd["obj"] = "x"
    return [st, rd]


def mat(r, f, damage=False):
    M, N = r.choice([0, 1, 2, 3, 5]), r.choice([1, 2, 4, 6])
    rows = [r.randint(0, min(N, 3)) for _ in range(M)]
    nz = sum(rows)
    nzf = nz
    ident = MAT
    if damage and r.random() < 0.5:
        x = r.random()
        if x < 0.4:
            nzf = nz + r.choice([-1, 1, 2])
        elif x < 0.7:
            ident = r.choice([VEC, IGA, 0, MAT + 1])
        elif M:
            rows = rows[:]
            rows[r.randrange(M)] += r.choice([1, -1])
    craft = [["i", ident], ["i", M], ["i", N], ["i", nzf]] + [["i", k] for k in rows]
    for k in rows:
        craft += [["i", c] for c in sorted(r.sample(range(N), min(N, max(0, k))))]
    craft += [["s", r.randint(-80, 80) / 8, r.randint(-80, 80) / 8] for _ in range(nz)]
    return {"op": "p_read_mat", "fmt": f, "craft": craft}


def other(r, f):
    g = dict(f)
    k = r.choice(["I", "R", "cplx"])
    g[k] = (not g[k]) if k == "cplx" else 12 - g[k]
    return g


def roundtrip(r):
    g, dim = given(r)
    f = fmt(r)
    x = r.random()
    if x < 0.6:
        st = [g, write(r, "x", dim, f), {"op": "p_read", "self": "", "fmt": f, "file": "f", "out": "y"}]
        if r.random() < 0.4:            # and again: what was read is written and read
            st += [write(r, "y", dim, f, "h", nsd=3), {"op": "p_read", "self": "", "fmt": f, "file": "h", "out": "z"}]
        if r.random() < 0.3:
            st.insert(1, r.choice([lambda: G.c_transpose(r, "x", dim), lambda: G.c_reverse(r, "x", dim),
                                   lambda: G.c_elevate(r, "x", dim), lambda: G.c_insert(r, "x", dim)])())
        return st
    if x < 0.85:
        return [g] + vec_steps(r, f)
    return [mat(r, f)]


def header_damage(r, dim, f):
    what = r.choice(["id", "id", "info", "dim", "dim", "p0", "m0", "ck", "cid", "cn", "fk", "fid", "fn",
                     "p%d" % (dim - 1), "m%d" % (dim - 1)])
    if what in ("id", "cid", "fid"):
        return ["header", what, "set", r.choice([VEC, MAT, IGA, IGA + 1, 0, -1, 1211213] +
                                           [(IGA if what == "id" else VEC) ^ (1 << r.randrange(31)) for _ in range(5)])]
    if what == "info":
        return ["header", what, "set", r.choice([0, 1, 2, 3])]
    if what == "dim":
        return ["header", what, "set", r.choice([0, 1, 2, 3, 4, -1])]
    if what in ("ck", "fk"):
        return ["header", what, r.choice(["set", "add"]), r.choice([0, 1, 2, 4, -1])]
    return ["header", what, r.choice(["set", "add", "add"]), r.choice([1, -1, 0, 2, -2, 1000000])]


def damaged(r, i):
    f = fmt(r)
    g, dim = given(r, total={1: 5, 2: 6, 3: 8}[d] if (d := r.choice([1, 1, 2, 3])) else 0, dim=d, pmax=2, smax=2)
    if g["net"].get("nf"):
        g["net"]["nf"] = 1
    x = i % 8
    if x == 0:                          # every prefix of an object file
        return [g, write(r, "x", dim, f), {"op": "p_prefixes", "fmt": f, "kind": "iga", "file": "f"}]
    if x == 1:                          # ... of a vector, of a matrix
        if r.random() < 0.5:
            st = vec_steps(r, f)
            return [g, st[0], {"op": "p_prefixes", "fmt": f, "kind": "vec", "file": "v"}]
        m = mat(r, f)
        return [dict(m, op="p_prefixes", kind="mat")]
    if x == 2:                          # ... of the wrong kind of file, or read in another format
        kind = r.choice(["iga", "vec", "mat"])
        return [g, write(r, "x", dim, f, control=True), {"op": "p_prefixes", "fmt": other(r, f) if kind == "iga" else f,
                                                         "kind": kind, "file": "f"}]
    if x == 3:
        st = vec_steps(r, f)
        dm = r.choice([["int", 0, "set", r.choice([IGA, MAT, 0, VEC + 1, -VEC] + [VEC ^ (1 << r.randrange(31)) for _ in range(3)])],
                       ["int", f["I"], "add", r.choice([1, -1, 2, 7])], ["int", f["I"], "set", -1],
                       ["cut", 1], ["more", 5], ["swap"]])
        st[1]["damage"] = [dm]
        return [g] + st
    if x == 4:
        m = mat(r, f, damage=True)
        if r.random() < 0.5:
            m["damage"] = [r.choice([["cut", 1], ["cut", 9], ["more", 3], ["int", 0, "set", r.choice([VEC, MAT ^ (1 << r.randrange(31))])],
                                     ["int", 3 * f["I"], "add", 1], ["int", f["I"], "add", r.choice([1, -1])]])]
        return [m]
    dm = [header_damage(r, dim, f)] if r.random() < 0.6 else [["byte", r.choice([r.randrange(60), r.random()]), r.choice([64, 1, 255, 128])]] if r.random() < 0.6 else [r.choice([["more", 9], ["swap"], ["cut", 0.5]])]
    rd = {"op": "p_read", "self": "", "fmt": f, "file": "f", "out": "y", "damage": dm}
    if r.random() < 0.15:
        rd["damage"], rd["wfmt"], rd["fmt"] = [], f, other(r, f)
    return [g, write(r, "x", dim, f, control=r.random() < 0.8), rd]


def vtk(r, o, g, dim):
    st = {"op": "v_write", "self": o}
    nf = g["net"].get("nf", 0)
    if r.random() < 0.6:
        st["control"] = r.random() < 0.5
    x = r.random()
    if x < 0.4:
        st["sampler"] = r.choice([{"n": 2}, {"n": 3}, {"n": 4}, {"mid": 1}, {"ends": 1}, {"one": 1}])
    x = r.random()
    if x < 0.4:
        k = r.choice([1, 2, 3, 4])
        st["fields"] = {"seed": r.randrange(10**6), "nf": k if k > 1 or r.random() < 0.5 else 0,
                        "how": r.choice(["array", "F", "strided", "list"])}
        if r.random() < 0.06:
            st["fields"]["badshape"] = True
        nf = k
    elif x < 0.45:
        st["fields"] = "off"
    if nf and r.random() < 0.9:
        names = [None, "", "my scalar", "u", "T x", "pressure", "a b c"]

        def ix():
            return r.randrange(nf) - (nf if r.random() < 0.2 else 0)
        if r.random() < 0.8:
            st["scalars"] = [[r.choice(names), ix()] for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.7 or "scalars" not in st:
            st["vectors"] = [[r.choice(names), [ix() for _ in range(r.choice([1, 2, 3]))]] for _ in range(r.choice([1, 2]))]
        y = r.random()
        if y < 0.25:
            st["as"] = "dict"
        elif y < 0.4:
            st["as"] = "tuple"
        if r.random() < 0.05:
            st.setdefault("scalars", []).append(["bad", nf])
    if r.random() < 0.15:
        st["title"] = r.choice(["a title", "", "x" * 300])
    return st


def vtk_scen(r):
    g, dim = given(r, total={1: 9, 2: 12, 3: 12}[d] if (d := r.choice([1, 2, 2, 3])) else 0, dim=d)
    return [g] + [vtk(r, "x", g, dim) for _ in range(r.choice([1, 2]))]
