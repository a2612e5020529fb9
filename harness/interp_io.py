"""igakit.io: files.  Every file lives in a scratch directory of its own."""
import os
import shutil
import struct
import tempfile

import interp
from interp import tok, toks, arr
from interp_ops import reg


class Bad(Exception):
    pass


def parse_vtk(b):
    """A strict reader of the legacy format: what the file says, or why it is not one."""
    out = dict(error="", version="", format="", title="", dataset="", dims=[], points=[], coords=[],
               npoints=0, data=[])
    pos = [0]

    def line():
        i = b.find(b"\n", pos[0])
        if i < 0:
            raise Bad("no-line")
        s = b[pos[0]:i]
        pos[0] = i + 1
        try:
            return s.decode("ascii")
        except UnicodeDecodeError:
            raise Bad("not-ascii")

    def words(n, first=None):
        s = line()
        w = s.split(" ")
        if len(w) != n or "" in w or (first is not None and w[0] != first):
            raise Bad("bad-line")
        return w

    def num(s):
        if not s.isdigit():
            raise Bad("bad-number")
        return int(s)

    def doubles(n):
        e = pos[0] + 8 * n
        if e + 1 > len(b) or b[e:e + 1] != b"\n":
            raise Bad("bad-block")
        v = struct.unpack(">%dd" % n, b[pos[0]:e])
        pos[0] = e + 1
        return [tok(x) for x in v]
    try:
        h = "# vtk DataFile Version "
        s = line()
        if not s.startswith(h):
            raise Bad("no-header")
        out["version"] = s[len(h):]
        out["title"] = line()
        if len(out["title"]) > 255:
            raise Bad("long-title")
        out["format"] = line()
        out["dataset"] = words(2, "DATASET")[1]
        out["dims"] = [num(x) for x in words(4, "DIMENSIONS")[1:]]
        n = out["dims"][0] * out["dims"][1] * out["dims"][2]
        if out["dataset"] == "STRUCTURED_GRID":
            w = words(3, "POINTS")
            if w[2] != "double" or num(w[1]) != n:
                raise Bad("points-line")
            out["points"] = doubles(3 * n)
        elif out["dataset"] == "RECTILINEAR_GRID":
            for x, k in zip("XYZ", out["dims"]):
                w = words(3, x + "_COORDINATES")
                if w[2] != "double" or num(w[1]) != k:
                    raise Bad("coordinates-line")
                out["coords"].append(doubles(k))
        else:
            raise Bad("dataset")
        if pos[0] < len(b):
            out["npoints"] = num(words(2, "POINT_DATA")[1])
            if out["npoints"] != n:
                raise Bad("point-data-count")
        seen = set()
        while pos[0] < len(b):
            w = words(3)
            if w[2] != "double" or w[0] not in ("SCALARS", "VECTORS"):
                raise Bad("attribute-line")
            if w[0] == "SCALARS" and line() != "LOOKUP_TABLE default":
                raise Bad("lookup-table")
            out["data"].append(dict(kind=w[0], name=w[1], x=doubles(n * (1 if w[0] == "SCALARS" else 3))))
    except Bad as e:
        out["error"] = str(e)
    return out


def register(OPS):
    np = interp.np
    io = interp.igakit.io
    made = {}                           # files written in this session, by name

    def rw(f):
        kw = {}
        if f["R"] == 4:
            kw["precision"] = "single"
        if f["I"] == 8:
            kw["indices"] = "64bit"
        if f["cplx"]:
            kw["scalar"] = "complex"
        return io.PetIGA(**kw)

    class Scratch:
        def __enter__(self):
            self.d = tempfile.mkdtemp(prefix="igakit-io-")
            return os.path.join(self.d, "file.dat")

        def __exit__(self, *a):
            shutil.rmtree(self.d, ignore_errors=True)

    def content(fn):
        with open(fn, "rb") as fh:
            return fh.read()

    def put(fn, b):
        with open(fn, "wb") as fh:
            fh.write(bytes(b))

    def reader(b, f, read):
        """run read(rw, filename) on a file with bytes b; remember the file afterwards"""
        box = {}

        def call():
            with Scratch() as fn:
                put(fn, b)
                r = read(rw(f), fn)
                box["after"] = list(content(fn))
            return r
        return call, box

    def pack(f, ints_or_vals):
        """[("i", n) | ("r", x) | ("s", x[, y])] -> bytes"""
        out = b""
        I = ">i" if f["I"] == 4 else ">q"
        R = ">f" if f["R"] == 4 else ">d"
        for e in ints_or_vals:
            if e[0] == "i":
                out += struct.pack(I, e[1])
            elif e[0] == "r":
                out += struct.pack(R, e[1])
            else:
                out += struct.pack(R, e[1])
                if f["cplx"]:
                    out += struct.pack(R, e[2] if len(e) > 2 else 0.0)
        return out

    def source(env, st):
        """the bytes a reading step is about: a file made earlier, or crafted; then damaged"""
        if "file" in st:
            if st["file"] not in env.files:
                return None
            b = env.files[st["file"]]
        else:
            b = pack(st["fmt"], st["craft"])
        b = bytearray(b)
        f = st.get("wfmt", st["fmt"])
        for d in st.get("damage", []):
            if d[0] == "cut":
                b = b[:int(d[1] * len(b))] if isinstance(d[1], float) else b[:max(0, len(b) - d[1])]
            elif d[0] == "more":
                b += bytes(d[1])
            elif d[0] == "int":         # set / add to the integer at byte offset
                w = f["I"]
                o = d[1]
                if o + w <= len(b):
                    c = ">i" if w == 4 else ">q"
                    old = struct.unpack(c, bytes(b[o:o + w]))[0]
                    b[o:o + w] = struct.pack(c, d[3] if d[2] == "set" else old + d[3])
            elif d[0] == "header":      # the same, addressed by what the integer is
                o = header_at(bytes(b), f, d[1])
                if o is not None:
                    c = ">i" if f["I"] == 4 else ">q"
                    old = struct.unpack(c, bytes(b[o:o + f["I"]]))[0]
                    b[o:o + f["I"]] = struct.pack(c, d[3] if d[2] == "set" else old + d[3])
            elif d[0] == "byte":        # one byte, counted from the start or by a fraction
                if b:
                    o = int(d[1] * len(b)) if isinstance(d[1], float) else d[1] % len(b)
                    b[o] = (b[o] + d[2]) % 256
            elif d[0] == "swap":        # little-endian
                b = bytearray(bytes(b)[::-1])
        return list(b)

    def header_at(b, f, what):
        """byte offset of a named integer of an object file"""
        w = f["I"]
        c = ">i" if w == 4 else ">q"
        s = f["R"] * (2 if f["cplx"] else 1)

        def at(o):
            return struct.unpack(c, b[o:o + w])[0]
        try:
            pos = {"id": 0, "info": w, "dim": 2 * w}
            info, dim = at(w), at(2 * w)
            o = 3 * w
            for i in range(dim):
                pos["p%d" % i] = o
                pos["m%d" % i] = o + w
                o += 2 * w + at(o + w) * f["R"]
            for bit, nm in ((1, "c"), (2, "f")):
                if info & bit:
                    pos[nm + "k"], pos[nm + "id"], pos[nm + "n"] = o, o + w, o + 2 * w
                    o += 3 * w + at(o + 2 * w) * s
            return pos.get(what)
        except struct.error:
            return None

    def files(env):
        if not hasattr(env, "files"):
            env.files = {}
        return env.files

    @reg(OPS, "p_write")
    def _(env, st):
        o = env.heap[st["self"]]
        fs = files(env)
        kw = {}
        for k in ("control", "fields", "nsd"):
            if k in st:
                kw[k] = st[k]

        def call():
            with Scratch() as fn:
                if st.get("over"):      # an old, longer file is in the way
                    put(fn, bytes(range(256)) * 40)
                rw(st["fmt"]).write(fn, o, **kw)
                b = content(fn)
            fs[st.get("file", "f")] = b
            return b
        a = dict(fmt=st["fmt"], control=st.get("control", True), fields=st.get("fields", True),
                 nsd=[] if st.get("nsd") is None else [st["nsd"]], bytes=[])
        return dict(a=a, call=call, log=lambda b: dict(bytes=list(b)), noval=dict(bytes=[]))

    @reg(OPS, "p_read")
    def _(env, st):
        files(env)
        b = source(env, st)
        if b is None:
            return None
        call, box = reader(b, st["fmt"], lambda r, fn: r.read(fn))
        return dict(a=dict(fmt=st["fmt"], bytes=b), kind="object", out=[st["out"]], call=call,
                    noval=dict(after=[]), also=lambda: box)

    @reg(OPS, "p_prefixes")
    def _(env, st):
        files(env)
        b = source(env, st)
        if b is None:
            return None
        f, kind = st["fmt"], st["kind"]

        def call():
            r = rw(f)
            read = dict(iga=r.read, vec=r.read_vec, mat=r.read_mat)[kind]
            out = []
            with Scratch() as fn:
                for k in range(len(b) + 1):
                    put(fn, b[:k])
                    try:
                        read(fn)
                        what = "returned"
                    except Exception as e:
                        what = type(e).__name__
                    if content(fn) != bytes(b[:k]):
                        what = "file-changed"
                    out.append(what)
                after = list(content(fn))
            return dict(out=out, after=after)
        return dict(a=dict(fmt=f, kind=kind, bytes=b), call=call, log=lambda v: v, noval=dict(out=[], after=[]))

    def vec_array(env, st, n):
        rng = interp.random.Random(st.get("seed", 0))
        f = st["fmt"]
        k = n * st["k"] + st.get("extra", 0)
        big = st.get("big", False)

        def val():
            x = rng.randint(-64, 64) / 8
            if big:
                x = x * 10.0 ** rng.choice([-30, -5, 0, 5, 30]) + rng.choice([0, 0.1])
            return x
        X = np.array([val() for _ in range(k)])
        if f["cplx"] and st.get("imag", True):
            X = X + 1j * np.array([val() for _ in range(k)])
        return X

    @reg(OPS, "p_write_vec")
    def _(env, st):
        fs = files(env)
        o = env.heap.get(st["obj"]) if "obj" in st else None
        if "obj" in st and o is None:
            return None
        n = int(np.prod(o.shape)) if o is not None else 1
        X = vec_array(env, st, n)
        if "sh" in st:                  # a shape of the caller's choosing
            if st["sh"] == "net" and o is not None and not st.get("extra"):
                X = X.reshape(tuple(o.shape) + (-1,))
            elif st["sh"] == "grid" and o is not None and st["k"] == 1 and not st.get("extra"):
                X = X.reshape(tuple(o.shape))
            elif st["sh"] == "F" and o is not None and not st.get("extra"):
                X = np.asfortranarray(X.reshape(tuple(o.shape) + (-1,)))
            elif st["sh"] == "Fflat" and o is not None and not st.get("extra"):
                X = np.asfortranarray(X.reshape((n, -1)))
            elif st["sh"] == "list":
                X = X.tolist()
        env.own.append(np.asarray(X).real if np.iscomplexobj(X) else np.asarray(X))

        def call():
            with Scratch() as fn:
                if o is not None:
                    rw(st["fmt"]).write_vec(fn, X, o)
                else:
                    rw(st["fmt"]).write_vec(fn, X)
                b = content(fn)
            fs[st.get("file", "f")] = b
            return b
        Y = np.asarray(X)
        a = dict(fmt=st["fmt"], objs=[st["obj"]] if o is not None else [], X=arr(Y.real), Xi=toks(Y.imag), bytes=[])
        return dict(a=a, call=call, log=lambda b: dict(bytes=list(b)), noval=dict(bytes=[]))

    @reg(OPS, "p_read_vec")
    def _(env, st):
        files(env)
        b = source(env, st)
        if b is None or ("obj" in st and st["obj"] not in env.heap):
            return None
        o = env.heap[st["obj"]] if "obj" in st else None
        call, box = reader(b, st["fmt"], lambda r, fn: r.read_vec(fn, o) if o is not None else r.read_vec(fn))

        def lg(v):
            v = np.asarray(v)
            return dict(X=arr(v.real), Xi=toks(v.imag), after=box["after"])
        return dict(a=dict(fmt=st["fmt"], objs=[st["obj"]] if o is not None else [], bytes=b), call=call, log=lg,
                    noval=dict(X=dict(sh=[], A=[]), Xi=[], after=[]))

    @reg(OPS, "p_read_mat")
    def _(env, st):
        files(env)
        b = source(env, st)
        if b is None:
            return None
        call, box = reader(b, st["fmt"], lambda r, fn: r.read_mat(fn))

        def lg(v):
            (M, N), (AI, AJ, AV) = v
            AV = np.asarray(AV)
            return dict(M=int(M), N=str(int(N)), AI=interp.itoks(AI), AJ=[str(int(k)) for k in AJ], AV=toks(AV.real),
                        AVi=toks(AV.imag), after=box["after"])
        return dict(a=dict(fmt=st["fmt"], bytes=b), call=call, log=lg,
                    noval=dict(M=0, N="0", AI=[], AJ=[], AV=[], AVi=[], after=[]))

    def sampler(s):
        """-> a callable on the breaks of an axis"""
        if s is None:
            return None
        if "n" in s:
            return lambda u: np.linspace(u[0], u[-1], s["n"])
        if "mid" in s:                  # breaks and midpoints
            return lambda u: np.sort(np.concatenate([u, 0.5 * (u[1:] + u[:-1])]))
        if "ends" in s:
            return lambda u: u[[0, -1]]
        if "one" in s:
            return lambda u: u[:1] + 0.25 * (u[-1:] - u[:1])
        raise KeyError(s)

    @reg(OPS, "v_write")
    def _(env, st):
        o = env.heap[st["self"]]
        kw = {}
        control = st.get("control", True)
        if "control" in st:
            kw["control"] = control
        F = dict(sh=[], A=[])
        f = st.get("fields", "none")
        if isinstance(f, dict):
            rng = interp.random.Random(f["seed"])
            sh = tuple(o.shape) + ((f["nf"],) if f["nf"] else ())
            X = np.array([rng.randint(-32, 32) / 8 for _ in range(int(np.prod(sh)))]).reshape(sh)
            X = interp.fine(X, f["seed"], f.get("how", "array"))
            if f.get("badshape"):
                X = X[:-1]
            F = arr(X)
            kw["fields"] = env.give(X, f.get("how", "array"))
            f = "given"
        elif f == "off":
            kw["fields"] = False
        smp = sampler(st.get("sampler"))
        if smp is not None:
            kw["sampler"] = smp
        sel = {}
        for nm in ("scalars", "vectors"):
            L = []
            got = st.get(nm, [])
            items = [(e[0], e[1]) for e in got]
            if st.get("as") == "dict":
                items = sorted(dict((n or "", ix) for n, ix in items).items())
                if nm in st:
                    kw[nm] = dict((n, ix) for n, ix in reversed(items))
            elif nm in st:
                kw[nm] = [tuple(e) for e in items] if st.get("as") != "tuple" else tuple(tuple(e) for e in items)
            for i, (n, ix) in enumerate(items):
                full = n or nm + str(i)
                L.append(dict(name=n or "", fname=full.replace(" ", "_"),
                              index=list(ix) if isinstance(ix, (list, tuple)) else [ix]))
            sel[nm] = L
        U = [np.asarray(b) for b in o.breaks()]
        u = [toks(smp(b) if smp is not None else b) for b in U]
        title = st.get("title", "VTK Data")

        def call():
            w = io.VTK()
            if "title" in st:
                w.title = title
            with Scratch() as fn:
                w.write(fn, o, **kw)
                return content(fn)
        a = dict(control=control, fields=f, F=F, u=u, title=title[:255], bytes=[], **sel)
        return dict(a=a, call=call, log=parse_vtk, noval={})
