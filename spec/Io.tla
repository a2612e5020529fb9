--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Files.                                                                  *)
(*                                                                         *)
(* A PetIGA / PETSc binary file is a sequence of bytes; this module says   *)
(* which sequences are files and what they hold.  fmt = [I, R, cplx]:      *)
(* bytes of an integer (4, 8), bytes of a real (4, 8), scalars complex.    *)
(*                                                                         *)
(*  object:  IGA_ID info dim  (p m U_1..U_m) per axis                      *)
(*           if info has 1: nsd VEC_ID n  s_1..s_n                         *)
(*           if info has 2: npd VEC_ID n  s_1..s_n                         *)
(*  vector:  VEC_ID n s_1..s_n                                             *)
(*  matrix:  MAT_ID M N nz  rownz_1..rownz_M  col_1..col_nz  s_1..s_nz     *)
(* all big-endian; arrays of the net have the component index fastest,     *)
(* then the first axis.                                                    *)
(***************************************************************************)
EXTENDS Cad

VecId == 1211214
MatId == 1211216
IgaId == 1211299
IoOps == {"p_write", "p_read", "p_prefixes", "p_write_vec", "p_read_vec", "p_read_mat", "v_write"}

SSize(f) == IF f.cplx THEN 2 * f.R ELSE f.R
Bad == -2147483647                  \* an integer that means nothing here
Int4(b, o) == LET h == IF b[o] >= 128 THEN b[o] - 256 ELSE b[o]
              IN  h*16777216 + b[o+1]*65536 + b[o+2]*256 + b[o+3]
IntAt(b, o, w) ==
    IF w = 4 THEN Int4(b, o)
    ELSE IF \A i \in 0..3 : b[o+i] = 0 THEN (IF b[o+4] >= 128 THEN Bad ELSE Int4(b, o+4))
    ELSE IF (\A i \in 0..3 : b[o+i] = 255) /\ b[o+4] >= 128 THEN Int4(b, o+4)
    ELSE Bad

(* IEEE 754 big-endian                                                     *)
RECURSIVE RTwo(_)
RTwo(n) == IF n < 0 THEN RDiv(1, RTwo(-n))
           ELSE IF n = 0 THEN 1
           ELSE LET h == RTwo(n \div 2) IN RMul(RMul(h, h), IF n % 2 = 1 THEN 2 ELSE 1)
RECURSIVE BytesNum(_, _, _, _)
BytesNum(b, o, k, acc) == IF k = 0 THEN acc ELSE BytesNum(b, o+1, k-1, RAdd(RMul(acc, 256), b[o]))
FloatAt(b, o, w) ==
    LET neg == b[o] >= 128
        e == IF w = 8 THEN (b[o] % 128)*16 + b[o+1] \div 16 ELSE (b[o] % 128)*2 + b[o+1] \div 128
        m == IF w = 8 THEN BytesNum(b, o+2, 6, b[o+1] % 16) ELSE BytesNum(b, o+2, 2, b[o+1] % 128)
        bits == IF w = 8 THEN 52 ELSE 23
        bias == IF w = 8 THEN 1023 ELSE 127
        v == IF e = 0 THEN RMul(m, RTwo(1 - bias - bits))
             ELSE RMul(RAdd(m, RTwo(bits)), RTwo(e - bias - bits))
    IN  IF e = 2*bias + 1 THEN (IF ~REq(m, 0) THEN "nan" ELSE IF neg THEN "-inf" ELSE "inf") ELSE IF neg THEN RNeg(v) ELSE RNum(v)
SameNum(x, y) == IF RFinite(x) THEN REq(x, y) ELSE x = y
(* an integer of any size, as a rational                                   *)
WideAt(b, o, w) == LET v == BytesNum(b, o, w, 0) IN IF b[o] >= 128 THEN RSub(v, RTwo(8*w)) ELSE RNum(v)
(* a stored real is the given number, rounded to the file's precision      *)
Half(w) == IF w = 8 THEN RTwo(-52) ELSE RMul("4194305/4194304", RTwo(-24))
StoredAs(dec, x, w, exact) ==
    IF exact /\ w = 8 THEN REq(dec, x)
    ELSE RLe(RAbs(RSub(dec, x)), RAdd(RMul(Half(w), RAbs(dec)), RTwo(IF w = 8 THEN -1074 ELSE -149)))

----------------------------------------------------------------------------
(* What the first n bytes of b say.  ok = FALSE: not such a file.          *)
NoFile == [ok |-> FALSE]
RECURSIVE AxesFrom(_, _, _, _, _, _)
AxesFrom(b, n, f, o, k, acc) ==     \* k more axes from offset o
    IF k = 0 THEN [ok |-> TRUE, at |-> o, ax |-> acc]
    ELSE IF o - 1 + 2*f.I > n THEN NoFile
    ELSE LET p == IntAt(b, o, f.I)  m == IntAt(b, o + f.I, f.I)  u == o + 2*f.I
         IN  IF p < 1 \/ p > n \/ m < 4 \/ m > n THEN NoFile     \* (m first: no overflow)
             ELSE IF m - p - 1 < 2 \/ u - 1 + m*f.R > n THEN NoFile
             ELSE AxesFrom(b, n, f, u + m*f.R, k-1, Append(acc, [p |-> p, m |-> m, at |-> u]))
AxSizes(ax) == [i \in 1..Len(ax) |-> ax[i].m - ax[i].p - 1]
(* a block  k VEC_ID N s_1..s_N  with N = (k + extra) * points             *)
Block(b, n, f, o, points, extra, lo, hi) ==
    IF o - 1 + 3*f.I > n THEN NoFile
    ELSE LET k == IntAt(b, o, f.I)  id == IntAt(b, o + f.I, f.I)  N == IntAt(b, o + 2*f.I, f.I)
             s == o + 3*f.I
         IN  IF k < lo \/ k > hi \/ id # VecId THEN NoFile
             ELSE IF k > n \/ N # (k + extra)*points \/ s - 1 + N*SSize(f) > n THEN NoFile
             ELSE [ok |-> TRUE, k |-> k, at |-> s, end |-> s + N*SSize(f)]
ParseIga(b, n, f) ==
    IF 3*f.I > n THEN NoFile
    ELSE IF IntAt(b, 1, f.I) # IgaId THEN NoFile
    ELSE LET info == IntAt(b, 1 + f.I, f.I)  dim == IntAt(b, 1 + 2*f.I, f.I)
             bits == b[2*f.I]                       \* the two bits that say what follows
         IN  IF dim \notin 1..3 THEN NoFile
    ELSE LET a == AxesFrom(b, n, f, 1 + 3*f.I, dim, <<>>)
         IN  IF ~a.ok THEN NoFile
    ELSE LET pts == Prod(AxSizes(a.ax))
             c == IF bits % 2 = 1 THEN Block(b, n, f, a.at, pts, 1, dim, 3)
                  ELSE [ok |-> TRUE, k |-> 0, at |-> 0, end |-> a.at]
         IN  IF ~c.ok THEN NoFile
    ELSE LET d == IF (bits \div 2) % 2 = 1 THEN Block(b, n, f, c.end, pts, 0, 1, 1000000)
                  ELSE [ok |-> TRUE, k |-> 0, at |-> 0, end |-> c.end]
         IN  IF ~d.ok THEN NoFile
    ELSE [ok |-> TRUE, info |-> info, ax |-> a.ax, nsd |-> c.k, c |-> c.at, npd |-> d.k, d |-> d.at,
          end |-> d.end - 1]
ParseVec(b, n, f) ==
    IF 2*f.I > n THEN NoFile
    ELSE LET N == IntAt(b, 1 + f.I, f.I)  s == 1 + 2*f.I
         IN  IF IntAt(b, 1, f.I) # VecId \/ N < 0 \/ N > n \/ s - 1 + N*SSize(f) > n THEN NoFile
             ELSE [ok |-> TRUE, N |-> N, at |-> s, end |-> s + N*SSize(f) - 1]
RECURSIVE SumInts(_)
SumInts(s) == IF Len(s) = 0 THEN 0 ELSE s[1] + SumInts(Tail(s))
ParseMat(b, n, f) ==
    IF 4*f.I > n THEN NoFile
    ELSE LET M == IntAt(b, 1 + f.I, f.I)  nz == IntAt(b, 1 + 3*f.I, f.I)
             r == 1 + 4*f.I
         IN  IF IntAt(b, 1, f.I) # MatId \/ M < 0 \/ nz < 0 \/ M > n \/ nz > n THEN NoFile
             ELSE IF r - 1 + (M + nz)*f.I + nz*SSize(f) > n THEN NoFile
             ELSE LET rows == TLCEval([i \in 1..M |-> IntAt(b, r + (i-1)*f.I, f.I)])
                  IN  IF ~REq(RSum(rows), nz) THEN NoFile
                      ELSE [ok |-> TRUE, M |-> M, N |-> WideAt(b, 1 + 2*f.I, f.I), nz |-> nz, rows |-> rows,
                            J |-> r + M*f.I, V |-> r + (M + nz)*f.I,
                            end |-> r - 1 + (M + nz)*f.I + nz*SSize(f)]
ParseAs(kind, b, n, f) ==
    IF kind = "iga" THEN ParseIga(b, n, f) ELSE IF kind = "vec" THEN ParseVec(b, n, f) ELSE ParseMat(b, n, f)

(* where entry (component c, point i row major) of a block starts          *)
RECURSIVE PointOrder(_, _, _)
PointOrder(i, sh, a) ==             \* row-major number -> number with axis 1 fastest
    IF a > Len(sh) THEN 0
    ELSE ((i \div Strides(sh)[a]) % sh[a]) * Prod(SubSeq(sh, 1, a-1)) + PointOrder(i, sh, a+1)
EntryAt(at, f, comps, sh, i, c) == at + (PointOrder(i, sh, 1)*comps + (c-1))*SSize(f)

(* the object a parsed file holds                                          *)
Held(b, f, q) ==
    LET d == Len(q.ax)
        p == [i \in 1..d |-> q.ax[i].p]
        U == TLCEval([i \in 1..d |-> [j \in 1..q.ax[i].m |-> FloatAt(b, q.ax[i].at + (j-1)*f.R, f.R)]])
        sh == AxSizes(q.ax)
        n == Prod(sh)  nc == 4 + q.npd
        co(i, c) == FloatAt(b, EntryAt(q.c, f, q.nsd + 1, sh, i, c), f.R)
        fi(i, c) == FloatAt(b, EntryAt(q.d, f, q.npd, sh, i, c), f.R)
        w == TLCEval([i1 \in 1..n |-> IF q.c = 0 THEN 1 ELSE co(i1-1, q.nsd + 1)])
        g == TLCEval([i \in 1..d |-> GrevilleSeq(p[i], U[i])])
        ent(i, c) ==
            IF c = 4 THEN w[i+1]
            ELSE IF c > 4 THEN RMul(fi(i, c-4), w[i+1])
            ELSE IF q.c # 0 THEN (IF c <= q.nsd THEN co(i, c) ELSE 0)
            ELSE IF c > d THEN 0 ELSE g[c][((i \div Strides(sh)[c]) % sh[c]) + 1]
    IN  [p |-> p, U |-> U, sh |-> sh, nc |-> nc,
         A |-> TLCEval([x1 \in 1..(n*nc) |-> ent((x1-1) \div nc, ((x1-1) % nc) + 1)])]
HeldMeans(o) ==
    /\ \A a \in Axes(o) : RAllFinite(o.U[a]) /\ ValidSpace(o.p[a], o.U[a])
    /\ RAllFinite(o.A)
HeldVerdict(obs, b, f, q) ==        \* exactly; fields and Greville points up to one rounding
    LET e == Held(b, f, q)
        tol == IF f.R = 4 /\ q.c = 0 THEN RTwo(-22) ELSE RTwo(-51)
        bad(x1) == LET c == ((x1-1) % e.nc) + 1
                   IN  IF c > 4 \/ (c < 4 /\ q.c = 0)
                       THEN ~RClose(obs.A[x1], e.A[x1], RMul(tol, RMax(RAbs(e.A[x1]), IF c < 4 THEN KnotScale(e.U[IF c > Len(e.p) THEN 1 ELSE c]) ELSE 0)))
                       ELSE ~REq(obs.A[x1], e.A[x1])
    IN  IF obs.p # e.p THEN "degree"
        ELSE IF obs.sh # e.sh THEN "shape"
        ELSE IF obs.nc # e.nc THEN "components"
        ELSE LET k == FirstBad(Len(e.U), LAMBDA a : KnotVerdict(e.p[a], obs.U[a], e.U[a], FALSE))
             IN  IF k # "" THEN k
                 ELSE IF \E x1 \in 1..Len(e.A) : bad(x1) THEN "not-what-the-file-holds" ELSE ""

----------------------------------------------------------------------------
(* Writing.                                                                *)
WNsd(o, a) == IF Len(a.nsd) = 0 THEN Dim(o) ELSE a.nsd[1]
WriteOK(o, a) == a.control => (Dim(o) <= WNsd(o, a) /\ WNsd(o, a) <= 3)
ImagZero(b, f, at, N) ==
    ~f.cplx \/ \A k \in 0..(N-1) : REq(FloatAt(b, at + k*SSize(f) + f.R, f.R), 0)
BytesVerdict(o, a, b) ==
    LET f == a.fmt
        q == ParseIga(b, Len(b), f)
        n == Prod(o.sh)
        withF == a.fields /\ o.nc > 4
        nsd == WNsd(o, a)
        co(i, c) == FloatAt(b, EntryAt(q.c, f, nsd + 1, o.sh, i, c), f.R)
        fi(i, c) == FloatAt(b, EntryAt(q.d, f, o.nc - 4, o.sh, i, c), f.R)
    IN  IF ~q.ok THEN "not-a-file"
        ELSE IF q.end # Len(b) THEN "trailing-bytes"
        ELSE IF q.info # (IF a.control THEN 1 ELSE 0) + (IF withF THEN 2 ELSE 0) THEN "info"
        ELSE IF [i \in 1..Len(q.ax) |-> q.ax[i].p] # o.p THEN "degree"
        ELSE IF \E i \in Axes(o) : q.ax[i].m # Len(o.U[i]) THEN "knot-count"
        ELSE IF \E i \in Axes(o) : \E j \in 1..Len(o.U[i]) :
                    ~StoredAs(FloatAt(b, q.ax[i].at + (j-1)*f.R, f.R), o.U[i][j], f.R, TRUE) THEN "knots"
        ELSE IF a.control /\ q.nsd # nsd THEN "nsd"
        ELSE IF a.control /\ (~ImagZero(b, f, q.c, n*(nsd+1)) \/
                 \E i \in 0..(n-1) : \E c \in 1..(nsd+1) :
                    ~StoredAs(co(i, c), HComp(o, i, IF c = nsd + 1 THEN 4 ELSE c), f.R, TRUE)) THEN "control"
        ELSE IF withF /\ q.npd # o.nc - 4 THEN "npd"
        ELSE IF withF /\ (~ImagZero(b, f, q.d, n*(o.nc-4)) \/
                 \E i \in 0..(n-1) : \E c \in 1..(o.nc-4) :
                    ~StoredAs(fi(i, c), RDiv(HComp(o, i, 4+c), HComp(o, i, 4)), f.R, FALSE)) THEN "fields"
        ELSE ""

(* Vectors.  a.X = [sh, A] (real parts), a.Xi imaginary parts (complex).   *)
VecComps(a, o) == Len(a.X.A) \div Prod(o.sh)
VecBytesVerdict(heap, a, b) ==
    LET f == a.fmt  q == ParseVec(b, Len(b), f)  N == Len(a.X.A)
        byObj == Len(a.objs) = 1
        o == heap[a.objs[1]]
        k == VecComps(a, o)
        at(x) ==                    \* offset of row-major entry x (0-based)
            IF byObj THEN EntryAt(q.at, f, k, o.sh, x \div k, (x % k) + 1) ELSE q.at + x*SSize(f)
    IN  IF ~q.ok THEN "not-a-file"
        ELSE IF q.end # Len(b) THEN "trailing-bytes"
        ELSE IF q.N # N THEN "count"
        ELSE IF \E x \in 0..(N-1) : ~StoredAs(FloatAt(b, at(x), f.R), a.X.A[x+1], f.R, TRUE) THEN "values"
        ELSE IF f.cplx /\ \E x \in 0..(N-1) :
                ~StoredAs(FloatAt(b, at(x) + f.R, f.R), a.Xi[x+1], f.R, TRUE) THEN "imaginary-values"
        ELSE ""
VecReadVerdict(heap, a, v) ==
    LET f == a.fmt  q == ParseVec(a.bytes, Len(a.bytes), f)
        byObj == Len(a.objs) = 1
        o == heap[a.objs[1]]
        k == q.N \div Prod(o.sh)
        sh == IF ~byObj THEN <<q.N>> ELSE IF k = 1 THEN o.sh ELSE o.sh \o <<k>>
        at(x) == IF byObj THEN EntryAt(q.at, f, k, o.sh, x \div k, (x % k) + 1) ELSE q.at + x*SSize(f)
        N == q.N
    IN  IF v.X.sh # sh THEN "result-shape"
        ELSE IF \E x \in 0..(N-1) : ~SameNum(FloatAt(a.bytes, at(x), f.R), v.X.A[x+1]) THEN "result-values"
        ELSE IF f.cplx /\ (Len(v.Xi) # N \/ \E x \in 0..(N-1) : ~SameNum(FloatAt(a.bytes, at(x) + f.R, f.R), v.Xi[x+1]))
             THEN "result-imaginary" ELSE ""
MatReadVerdict(a, v) ==
    LET f == a.fmt  q == ParseMat(a.bytes, Len(a.bytes), f)
        ptr(i) == RSum(SubSeq(q.rows, 1, i))
    IN  IF v.M # q.M \/ ~REq(v.N, q.N) THEN "size"
        ELSE IF Len(v.AI) # q.M + 1 \/ \E i \in 0..q.M : ~REq(v.AI[i+1], ptr(i)) THEN "row-pointers"
        ELSE IF Len(v.AJ) # q.nz \/ \E k \in 1..q.nz : ~REq(v.AJ[k], WideAt(a.bytes, q.J + (k-1)*f.I, f.I)) THEN "columns"
        ELSE IF Len(v.AV) # q.nz \/ \E k \in 1..q.nz : ~SameNum(FloatAt(a.bytes, q.V + (k-1)*SSize(f), f.R), v.AV[k]) THEN "values"
        ELSE IF f.cplx /\ (Len(v.AVi) # q.nz \/ \E k \in 1..q.nz : ~SameNum(FloatAt(a.bytes, q.V + (k-1)*SSize(f) + f.R, f.R), v.AVi[k]))
             THEN "imaginary-values" ELSE ""

----------------------------------------------------------------------------
(* VTK legacy files (the driver splits the file into its lines and binary  *)
(* blocks).  a.u: per axis, what the sampler gave for the breaks.          *)
VCall(a) == [a |-> [u |-> [i \in 1..Len(a.u) |-> <<[nd |-> 1, x |-> a.u[i]]>>],
                    fields |-> IF Len(a.scalars) + Len(a.vectors) = 0 THEN "no"
                               ELSE IF a.fields = "none" THEN "own" ELSE a.fields,
                    F |-> a.F]]
VNf(o, a) == IF a.fields = "given" THEN FieldComps(o, a.F) ELSE o.nc - 4
VIdx(o, a, i) == IF i < 0 THEN i + VNf(o, a) + 1 ELSE i + 1    \* 1-based component, python index
VIdxOK(o, a, i) == VIdx(o, a, i) \in 1..VNf(o, a)
VStatus(o, a) ==
    IF Len(a.u) # Dim(o) \/ \E i \in Axes(o) : Len(a.u[i]) = 0 \/ ~(\A k \in 1..Len(a.u[i]) : InDomain(o.p[i], o.U[i], a.u[i][k]))
    THEN "any"
    ELSE IF Len(a.scalars) + Len(a.vectors) = 0 THEN "must"
    ELSE IF a.fields = "off" THEN "any"
    ELSE IF a.fields = "given" /\ ~FieldShapeOK(o, a.F) THEN "mustnot"
    ELSE IF /\ \A s \in 1..Len(a.scalars) : VIdxOK(o, a, a.scalars[s].index[1])
            /\ \A s \in 1..Len(a.vectors) : /\ Len(a.vectors[s].index) <= 3
                                            /\ \A j \in 1..Len(a.vectors[s].index) : VIdxOK(o, a, a.vectors[s].index[j])
         THEN "must" ELSE "any"
VtkVerdict(o, a, v) ==
    LET d == Dim(o)
        R == CallPoints(o, VCall(a))
        sh == [i \in 1..d |-> Len(a.u[i])]
        N == Prod(sh)
        dims == [i \in 1..3 |-> IF i <= d THEN sh[i] ELSE 1]
        (* row-major number of the point that the file lists as number x   *)
        rm == TLCEval([x1 \in 1..N |-> LET x == x1 - 1
                IN  SumInts([i \in 1..d |-> ((x \div Prod(SubSeq(sh, 1, i-1))) % sh[i]) * Strides(sh)[i]])])
        k == VNf(o, a)
        pts == TLCEval([x1 \in 1..(3*N) |-> R[1].A[rm[(x1-1) \div 3 + 1]*3 + ((x1-1) % 3) + 1]])
        fld(x1, c) == R[2].A[rm[x1]*k + c]
        want == [s \in 1..Len(a.scalars) |-> [kind |-> "SCALARS", n |-> 1,
                    name |-> a.scalars[s].fname, index |-> a.scalars[s].index]]
                \o [s \in 1..Len(a.vectors) |-> [kind |-> "VECTORS", n |-> 3,
                    name |-> a.vectors[s].fname, index |-> a.vectors[s].index]]
        data(w) == TLCEval([x1 \in 1..(w.n*N) |->
                    LET c == ((x1-1) % w.n) + 1
                    IN  IF c > Len(w.index) THEN 0 ELSE fld((x1-1) \div w.n + 1, VIdx(o, a, w.index[c]))])
        close(obs, exp) == Len(obs) = Len(exp) /\ RAllFinite(obs)
                           /\ RMismatch(obs, exp, RMul(NetTol, RMax(RMaxAbs(exp), IF Len(exp) = 0 THEN 0 ELSE RMaxAbs(o.A)))) = 0
    IN  IF v.error # "" THEN "not-a-vtk-file:" \o v.error
        ELSE IF v.version # "2.0" \/ v.format # "BINARY" \/ v.title # a.title THEN "header"
        ELSE IF v.dataset # (IF a.control THEN "STRUCTURED_GRID" ELSE "RECTILINEAR_GRID") THEN "dataset"
        ELSE IF v.dims # dims THEN "dimensions"
        ELSE IF a.control /\ ~close(v.points, pts) THEN "points"
        ELSE IF ~a.control /\ (Len(v.coords) # 3 \/ \E i \in 1..3 :
                    RMismatch(v.coords[i], IF i <= d THEN a.u[i] ELSE <<0>>, 0) # 0) THEN "coordinates"
        ELSE IF Len(v.data) # Len(want) THEN "data-count"
        ELSE IF Len(want) > 0 /\ v.npoints # N THEN "data-points"
        ELSE FirstBad(Len(want), LAMBDA s :
                IF v.data[s].kind # want[s].kind \/ v.data[s].name # want[s].name THEN "data-name"
                ELSE IF ~close(v.data[s].x, data(want[s])) THEN "data-values" ELSE "")

----------------------------------------------------------------------------
IoStatus(heap, c) ==
    LET o == heap[c.self]
        fl(b) == IF b THEN "must" ELSE "mustnot"
        b == c.a.bytes
    IN  CASE c.op = "p_write" -> IF Dim(o) = 0 THEN "any" ELSE fl(WriteOK(o, c.a))
          [] c.op = "p_read" ->
                LET q == TLCEval(ParseIga(b, Len(b), c.a.fmt))
                IN  IF ~q.ok THEN "mustnot"
                    ELSE IF q.info \in 0..3 /\ HeldMeans(Held(b, c.a.fmt, q)) THEN "must" ELSE "any"
          [] c.op = "p_prefixes" -> "must"
          [] c.op = "p_write_vec" ->
                IF Len(c.a.objs) = 0 THEN "must"
                ELSE LET n == Prod(heap[c.a.objs[1]].sh)
                     IN  IF Len(c.a.X.A) = 0 THEN "any" ELSE fl(Len(c.a.X.A) % n = 0)
          [] c.op = "p_read_vec" ->
                LET q == ParseVec(b, Len(b), c.a.fmt)
                IN  IF ~q.ok THEN "mustnot"
                    ELSE IF Len(c.a.objs) = 0 THEN "must"
                    ELSE IF q.N = 0 THEN "any" ELSE fl(q.N % Prod(heap[c.a.objs[1]].sh) = 0)
          [] c.op = "p_read_mat" -> fl(ParseMat(b, Len(b), c.a.fmt).ok)
          [] c.op = "v_write" -> IF Dim(o) = 0 THEN "any" ELSE VStatus(o, c.a)
(* every prefix of a file: read exactly when it is one                     *)
PrefixVerdict(a, v) ==
    LET q(k) == ParseAs(a.kind, a.bytes, k, a.fmt).ok
    IN  IF Len(v.out) # Len(a.bytes) + 1 THEN "prefix-count"
        ELSE IF \E k \in 0..Len(a.bytes) : v.out[k+1] \in {"crash", "file-changed"} THEN v.out[1 + CHOOSE k \in 0..Len(a.bytes) : v.out[k+1] \in {"crash", "file-changed"}]
        ELSE IF \E k \in 0..Len(a.bytes) : v.out[k+1] = "returned" /\ ~q(k) THEN "half-read"
        ELSE IF \E k \in 0..Len(a.bytes) : v.out[k+1] # "returned" /\ q(k) THEN "refused-whole-file"
        ELSE IF v.after # a.bytes THEN "file-changed" ELSE ""
IoVerdict(heap, ev) ==
    LET o == heap[ev.self]
        a == ev.a  v == ev.val
    IN  CASE ev.op = "p_write" -> BytesVerdict(o, a, v.bytes)
          [] ev.op = "p_read" ->
                LET q == TLCEval(ParseIga(a.bytes, Len(a.bytes), a.fmt))
                IN  IF ~(q.info \in 0..3 /\ HeldMeans(Held(a.bytes, a.fmt, q))) THEN ""
                    ELSE IF v.after # a.bytes THEN "file-changed"
                    ELSE HeldVerdict(ev.heap[ev.out[1]], a.bytes, a.fmt, q)
          [] ev.op = "p_prefixes" -> PrefixVerdict(a, v)
          [] ev.op = "p_write_vec" -> VecBytesVerdict(heap, a, v.bytes)
          [] ev.op = "p_read_vec" ->
                IF v.after # a.bytes THEN "file-changed"
                ELSE IF Len(a.objs) = 1 /\ ParseVec(a.bytes, Len(a.bytes), a.fmt).N = 0 THEN ""
                ELSE VecReadVerdict(heap, a, v)
          [] ev.op = "p_read_mat" -> IF v.after # a.bytes THEN "file-changed" ELSE MatReadVerdict(a, v)
          [] ev.op = "v_write" -> IF VStatus(o, a) # "must" THEN "" ELSE VtkVerdict(o, a, v)
=============================================================================
