"""Execute one scenario on the real code, yielding begin/event records.

Every event carries the whole observable state afterwards; nothing is judged
here.  Numbers are logged as shortest decimal tokens of the IEEE doubles.
"""
import random

np = None
igakit = None
NURBS = None
OPS = {}


def setup():
    global np, igakit, NURBS
    import igaload
    igakit = igaload.load()
    import numpy
    np = numpy
    NURBS = igakit.nurbs.NURBS
    import interp_ops
    interp_ops.register(OPS)
    import importlib
    for m in ("interp_query", "interp_cad", "interp_io", "interp_plot"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        mod.register(OPS)


def tok(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    s = repr(x)
    if s.endswith(".0"):
        s = s[:-2]
    return "0" if s == "-0" else s


def toks(a):
    return [tok(x) for x in np.asarray(a).ravel()]


def itoks(a):
    return [int(x) for x in np.asarray(a).ravel()]


def arr(a):
    """A returned array: its shape and its entries, row major."""
    a = np.asarray(a)
    return {"sh": [int(n) for n in a.shape], "A": toks(a)}


plotters = (lambda x: False, None)     # how to tell, and show, a plotter (interp_plot)


def healthy(x):
    """Is x enough of an object to propose further calls on it?"""
    if isinstance(x, igakit.transform.transform) or plotters[0](x):
        return True
    try:
        for U, n in zip(x.knots, x.array.shape[:-1]):
            p = len(U) - n - 1
            if p < 1 or n < p + 1 or not np.isfinite(U).all() or not U[p] < U[n] or (np.diff(U) < 0).any():
                return False
            if any(U[p] < u < U[n] and list(U).count(u) > p for u in U):
                return False
        return len(x.knots) == x.array.ndim - 1
    except Exception:
        return False


def obj(x):
    try:
        return obj_(x)
    except Exception:                   # not an object at all: no specification accepts this
        return {"p": [], "U": [], "sh": [], "nc": 0, "A": []}


def obj_(x):
    if isinstance(x, igakit.transform.transform):
        return {"M": toks(x.matrix)}
    if plotters[0](x):
        return plotters[1](x)
    a = np.asarray(x.array)
    U = [np.asarray(k) for k in x.knots]
    sh = [int(n) for n in a.shape[:-1]]
    return {"p": [len(k) - n - 1 for k, n in zip(U, sh)],
            "U": [toks(k) for k in U], "sh": sh,
            "nc": int(a.shape[-1]), "A": toks(a)}


class Env:
    """The named objects of a scenario."""

    def __init__(self):
        self.heap = {}
        self.own = []          # arrays the caller has handed over so far
        self.marks = {}

    def dump(self):
        h = {"root": ""}
        for k, v in self.heap.items():
            h[k] = obj(v)
        return h

    def dom(self, o, axis):
        p = o.degree[axis]
        U = o.knots[axis]
        return float(U[p]), float(U[-p - 1])

    def num(self, v, o=None, axis=0):
        """Resolve a number that depends on the current knots."""
        if v is None or isinstance(v, (int, float)):
            return v
        axis = int(axis)
        if "mark" in v:
            return self.marks[v["mark"]]
        if "tok" in v:
            t = str(v["tok"])
            if "/" in t:
                n, d = t.split("/")
                return int(n) / int(d)
            return float(t)
        lo, hi = self.dom(o, axis)
        p = o.degree[axis]
        U = o.knots[axis][p:len(o.knots[axis]) - p]
        brk = sorted(set(float(x) for x in U))
        if "frac" in v:
            f = v["frac"]
            return hi if f == 1 else lo if f == 0 else min(hi, max(lo, lo + f * (hi - lo)))
        if "mid" in v:                      # inside span number i
            i = v["mid"] % (len(brk) - 1)
            return brk[i] + v.get("at", 0.5) * (brk[i + 1] - brk[i])
        if "break" in v:
            return brk[v["break"] % len(brk)]
        if "inner" in v:                    # an interior break, else the middle
            inn = brk[1:-1]
            return inn[v["inner"] % len(inn)] if inn else 0.5 * (lo + hi)
        if "out" in v:
            d = v["out"]
            return lo - abs(d) * (hi - lo) if d < 0 else hi + d * (hi - lo)
        if "ulp" in v:                      # next double after a break
            x = brk[v["ulp"] % len(brk)]
            return float(np.nextafter(x, np.inf if v.get("up", True) else -np.inf))
        raise KeyError(v)

    def give(self, a, how="array"):
        """Hand an array to the code the way a caller would; remember it."""
        if how == "list":
            return np.asarray(a, dtype="d").tolist()
        if how == "tuple":
            a = np.asarray(a, dtype="d").tolist()
            return tuple(a) if isinstance(a, list) else a
        a = np.array(a, dtype="d")
        if how == "F":
            a = np.asfortranarray(a)
        elif how == "strided":
            b = np.zeros(tuple(2 * n for n in a.shape))
            s = tuple(slice(None, None, 2) for _ in a.shape)
            b[s] = a
            a = b[s]
        elif how == "negstrided":
            b = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
            a = b[tuple(slice(None, None, -1) for _ in a.shape)]
        elif how == "int":
            a = a.astype("i8")
        elif how == "float32":
            a = a.astype("f4")
        self.own.append(a)
        return a


def fine(a, seed, how="array"):
    """Some arrays use more bits than single precision has (nothing else
    about them changes: what is zero stays zero)."""
    if seed % 3 or how in ("int", "float32"):
        return a
    rng = random.Random(seed + 1)
    b = np.array([rng.randint(-7, 7) * 2.0 ** -27 for _ in range(a.size)]).reshape(a.shape)
    return np.where(a == 0, a, a + b)


def make_net(spec, shape):
    """The homogeneous control array (with fields) described by spec."""
    k = spec["kind"]
    n = int(np.prod(shape))
    if k == "array":
        return np.array([float(x) for x in spec["A"]]).reshape(tuple(shape) + (-1,))
    rng = random.Random(spec.get("seed", 0))
    q = spec.get("q", 8)                 # denominators
    mag = spec.get("mag", 4)

    def r():
        return rng.randint(-mag * q, mag * q) / q
    w = np.ones(n)
    if spec.get("rational"):
        w = np.array([rng.choice(spec.get("w") or [0.5, 0.75, 1.0, 1.25, 1.5, 2.0]) for _ in range(n)])
    sd = spec.get("dim", 3)
    C = np.zeros((n, 4))
    for i in range(n):
        for c in range(sd):
            C[i, c] = r()
    if spec.get("mono"):                 # an orientation-preserving, invertible map
        idx = np.indices(shape).reshape(len(shape), -1).T
        d = len(shape)
        for i in range(n):
            for c in range(3):
                C[i, c] = (idx[i, c] * 4 if c < d else 0) + rng.randint(-q, q) / q * 0.5
    C[:, :3] = fine(C[:, :3], spec.get("seed", 1))
    C[:, :3] *= w[:, None] * spec.get("unit", 1.0)
    C[:, 3] = w
    if k == "ident":
        F = np.eye(n)
    else:
        nf = spec.get("nf", 0)
        F = np.array([[r() for _ in range(nf)] for _ in range(n)]).reshape(n, nf)
        F = fine(F, spec.get("seed", 1)) * spec.get("funit", 1.0)
    A = np.concatenate([C, F * w[:, None]], axis=1)
    return A.reshape(tuple(shape) + (-1,))


def given_args(env, st):
    """A fresh object to work on; not itself judged beyond being well formed."""
    knots = [[float(env.num(x)) if not isinstance(x, dict) else env.num(x) for x in U]
             for U in st["knots"]]
    shape = [len(U) - p - 1 for U, p in zip(knots, st["p"])]
    A = make_net(st["net"], shape)
    return knots, A[..., :4].copy(), (A[..., 4:] / A[..., 3:4] if A.shape[-1] > 4 else None)


def scribble(x):
    """the caller writes over what it was given back"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x.fill(97)
    elif isinstance(x, (tuple, list)):
        for y in x:
            scribble(y)


def run(scen):
    env = Env()
    for st in scen["steps"]:
        op = st["op"]
        if op == "given":
            yield "begin", dict(op="given", self="", a={"knots": []})
            bad = ""
            args = given_args(env, st)
            try:
                env.heap[st["name"]] = NURBS(args[0], args[1], fields=args[2])
            except Exception as e:
                bad = type(e).__name__
            yield "event", dict(op="given", self="", a={"knots": []}, raised=bad, crash="",
                                ret="none", out=[] if bad else [st["name"]], heap=env.dump(), val={},
                                pre=[], post=[])
            continue
        if op == "mark" and st["self"] in env.heap:     # remember a number for later steps
            if not healthy(env.heap[st["self"]]):
                return
            env.marks[st["as"]] = env.num(st["value"], env.heap[st["self"]], st["axis"])
            continue
        if st.get("self") and st["self"] not in env.heap:
            continue                    # the call that was to make it was refused
        if any(n not in env.heap for n in [st[k] for k in ("T", "obj", "plotter") if isinstance(st.get(k), str)]
               + list(st.get("objs", []))):
            continue
        try:
            spec = OPS[op](env, st)     # -> dict(a=..., call=..., ret=..., out=[...])
        except Exception:
            if all(healthy(x) for x in env.heap.values()):
                raise
            return                      # what made it so has been recorded
        if spec is None:                # step does not apply here
            continue
        env.pre = [toks(a) for a in env.own]
        ev = dict(op=op, self=st.get("self", ""), a=spec["a"])
        yield "begin", ev
        ev = dict(ev, raised="", crash="", ret="none", out=[], val=spec.get("noval", {}))
        try:
            res = spec["call"]()
        except Exception as e:
            ev["raised"] = type(e).__name__
        else:
            me = env.heap.get(st.get("self", ""))
            out = spec.get("out", [])
            if spec.get("kind") == "object":
                if me is not None and res is me:
                    ev["ret"] = "self"
                elif isinstance(res, (NURBS, igakit.transform.transform)) or plotters[0](res):
                    ev["ret"] = "new"
                else:
                    ev["ret"] = "none" if res is None else "other"
                if out and ev["ret"] == "new":
                    env.heap[out[0]] = res
                    ev["out"] = out
                elif out:
                    ev["out"] = out
            elif spec.get("kind") == "objects":
                ev["ret"] = "new"
                for nm, r in zip(out, res):
                    env.heap[nm] = r
                ev["out"] = out
                if len(res) != len(out):
                    ev["ret"] = "wrong-number"
            else:
                ev["ret"] = "value"
                try:
                    ev["val"] = spec["log"](res)
                    if st.get("scribble"):
                        scribble(res)
                except Exception as e:      # not the kind of value the call returns
                    ev["ret"] = "other:" + type(e).__name__
            if "also" in spec:
                ev["val"] = spec["also"]()
        ev["heap"] = env.dump()
        ev["pre"] = env.pre
        ev["post"] = [toks(a) for a in env.own]
        yield "event", ev
        if spec.get("stop_on_raise") and ev["raised"]:
            return
        if not all(healthy(x) for x in env.heap.values()):
            return                      # recorded; further calls could harm other scenarios
