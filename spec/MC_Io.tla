------------------------------- MODULE MC_Io -------------------------------
(***************************************************************************)
(* Writing a file, byte by byte, with the chance to stop at any of them,   *)
(* then spoiling one byte.  The encoder is given here on its own: numbers  *)
(* by IEEE 754, points enumerated with the first axis turning fastest.     *)
(* Invariants: what Io.tla reads from the whole file is what was written;  *)
(* no beginning of a file is a file; a file of one kind is not one of      *)
(* another; no byte of a file is idle: whichever is changed, what the      *)
(* writer was to write is not what the file says.                          *)
(***************************************************************************)
EXTENDS Io, Small, Json

CONSTANTS Kinds, Dims, Formats, Spoil
VARIABLES job,      \* what is being written
          file,     \* all of its bytes
          n,        \* how many are on the disk
          spoilt    \* which byte was changed afterwards, 0 if none
vars == <<job, file, n, spoilt>>
view == vars

ByteOf == [t \in {RStr(i) : i \in 0..255} |-> CHOOSE i \in 0..255 : RStr(i) = t]
(* bytes, most significant first                                           *)
RECURSIVE Bytes(_, _)
Bytes(v, w) ==                      \* v an integer, 0 <= v < 256^w
    IF w = 0 THEN <<>>
    ELSE LET h == TLCEval(RFloor(RDiv(v, 256))) IN Append(Bytes(h, w-1), ByteOf[RStr(RSub(v, RMul(256, h)))])
EncInt(v, w) == IF RLt(v, 0) THEN Bytes(RAdd(RTwo(8*w), v), w) ELSE Bytes(v, w)
RECURSIVE Log2(_, _)
Log2(x, e) == IF RLe(RTwo(e+1), x) THEN Log2(x, e+1) ELSE IF RLt(x, RTwo(e)) THEN Log2(x, e-1) ELSE e
EncFloat(x, w) ==                   \* x exactly representable
    IF REq(x, 0) THEN [i \in 1..w |-> 0]
    ELSE LET a == RAbs(x)  e == Log2(a, 0)
             bits == IF w = 8 THEN 52 ELSE 23  bias == IF w = 8 THEN 1023 ELSE 127
             m == RMul(RSub(RDiv(a, RTwo(e)), 1), RTwo(bits))
             v == RAdd(RMul(RTwo(bits), e + bias), m)
         IN  Bytes(IF RLt(x, 0) THEN RAdd(v, RTwo(8*w - 1)) ELSE v, w)
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ints(s, f) == Flat([i \in 1..Len(s) |-> EncInt(s[i], f.I)])
Reals(s, f) == Flat([i \in 1..Len(s) |-> EncFloat(s[i], f.R)])
Scalars(s, f) == Flat([i \in 1..Len(s) |-> EncFloat(s[i], f.R) \o (IF f.cplx THEN EncFloat(0, f.R) ELSE <<>>)])

(* the points of a net as index tuples, first index turning fastest        *)
RECURSIVE Odometer(_)
Odometer(sh) ==
    IF Len(sh) = 0 THEN <<<<>>>>
    ELSE LET r == Odometer(SubSeq(sh, 1, Len(sh) - 1))
         IN  Flat([j \in 1..sh[Len(sh)] |-> [i \in 1..Len(r) |-> Append(r[i], j)]])
RECURSIVE RowMajor(_, _)
RowMajor(t, sh) == IF Len(t) = 0 THEN 0 ELSE RowMajor(SubSeq(t, 1, Len(t)-1), sh) * sh[Len(t)] + t[Len(t)] - 1
Net(o) == LET t == Odometer(o.sh) IN [i \in 1..Len(t) |-> RowMajor(t[i], o.sh)]

NetEntries(o, g(_)) == LET s == TLCEval(Net(o)) IN Flat([i \in 1..Len(s) |-> g(s[i])])
EncIga(o, j) ==
    LET f == j.f  N == Cells(o.sh)  withF == j.fields /\ o.nc > 4
        d == Len(o.p)
        axis(a) == Ints(<<o.p[a], Len(o.U[a])>>, f) \o Reals(o.U[a], f)
        pt(i) == [c \in 1..(j.nsd + 1) |-> o.A[i*o.nc + (IF c = j.nsd + 1 THEN 4 ELSE c)]]
        fd(i) == [c \in 1..(o.nc - 4) |-> RDiv(o.A[i*o.nc + 4 + c], o.A[i*o.nc + 4])]
    IN  Ints(<<IgaId, (IF j.control THEN 1 ELSE 0) + (IF withF THEN 2 ELSE 0), d>>, f)
        \o Flat([a \in 1..d |-> axis(a)])
        \o (IF j.control THEN Ints(<<j.nsd, VecId, (j.nsd + 1)*N>>, f) \o Scalars(NetEntries(o, pt), f) ELSE <<>>)
        \o (IF withF THEN Ints(<<o.nc - 4, VecId, (o.nc - 4)*N>>, f) \o Scalars(NetEntries(o, fd), f) ELSE <<>>)
(* what reading it should give                                             *)
Mean(U, p, i) == RDiv(RSum(SubSeq(U, i + 1, i + p)), p)
Expect(o, j) ==
    LET withF == j.fields /\ o.nc > 4
        nc == IF withF THEN o.nc ELSE 4
        N == Cells(o.sh)
        tup == TLCEval(Odometer(o.sh))
        at(i) == tup[CHOOSE k \in 1..N : RowMajor(tup[k], o.sh) = i]
        e(i, c) ==
            LET w == IF j.control THEN o.A[i*o.nc + 4] ELSE 1
            IN  IF c = 4 THEN w
                ELSE IF c > 4 THEN RMul(w, RDiv(o.A[i*o.nc + c], o.A[i*o.nc + 4]))
                ELSE IF j.control THEN (IF c <= j.nsd THEN o.A[i*o.nc + c] ELSE 0)
                ELSE IF c > Len(o.p) THEN 0 ELSE Mean(o.U[c], o.p[c], at(i)[c])
    IN  [o EXCEPT !.nc = nc, !.A = TLCEval([x \in 1..(N*nc) |-> e((x-1) \div nc, ((x-1) % nc) + 1)])]

Some(k) == [i \in 1..k |-> RDiv(((7*i*i + 3*i) % 23) - 5, 2)]
EncVec(o, j) ==
    LET X == Some(Cells(o.sh) * j.k)
        row(i) == [c \in 1..j.k |-> X[i*j.k + c]]
    IN  Ints(<<VecId, Len(X)>>, j.f) \o Scalars(IF j.flat THEN X ELSE NetEntries(o, row), j.f)
RECURSIVE Count(_)
Count(rows) == IF Len(rows) = 0 THEN 0 ELSE Len(rows[1]) + Count(Tail(rows))
EncMat(j) ==
    Ints(<<MatId, Len(j.rows), 4, Count(j.rows)>>, j.f) \o Ints([i \in 1..Len(j.rows) |-> Len(j.rows[i])], j.f)
    \o Ints(Flat(j.rows), j.f) \o Scalars(Some(Count(j.rows)), j.f)

Spc(k) == IF k = 1 THEN [p |-> 1, U |-> Strs(KnotsOf(1, <<>>, 2, 2))]
          ELSE IF k = 2 THEN [p |-> 2, U |-> Strs(KnotsOf(2, <<1>>, 1, 3))]
          ELSE [p |-> 1, U |-> Strs(KnotsOf(1, <<1>>, 2, 1))]
Sizes == {s \in {<<1>>, <<2>>, <<2, 1>>, <<1, 3, 1>>} : Len(s) \in Dims}
ObjFor(j) == IF j.kind = "mat" THEN [none |-> 0] ELSE LET o == ObjOn([i \in 1..Len(j.on) |-> Spc(j.on[i])], j.nc, 3) IN [o EXCEPT !.A = Strs(o.A)]
Encode(j) == CASE j.kind = "iga" -> EncIga(ObjFor(j), j)
               [] j.kind = "vec" -> EncVec(ObjFor(j), j)
               [] j.kind = "mat" -> EncMat(j)
Fmts == IF Formats = "all" THEN {[I |-> i, R |-> r, cplx |-> c] : i \in {4, 8}, r \in {4, 8}, c \in BOOLEAN}
        ELSE {[I |-> 4, R |-> 8, cplx |-> FALSE], [I |-> 8, R |-> 4, cplx |-> TRUE]}
Jobs ==
    (IF "iga" \in Kinds THEN
       {[kind |-> "iga", on |-> s, nc |-> m, control |-> c, fields |-> g, nsd |-> k, f |-> f] :
            s \in Sizes, m \in {4, 6}, c \in BOOLEAN, g \in BOOLEAN, k \in 1..3, f \in Fmts} ELSE {})
Vecs == IF "vec" \in Kinds THEN {[kind |-> "vec", on |-> s, nc |-> 4, k |-> k, flat |-> b, f |-> f] :
            s \in Sizes, k \in {1, 3}, b \in BOOLEAN, f \in Fmts} ELSE {}
Mats == IF "mat" \in Kinds THEN {[kind |-> "mat", rows |-> r, f |-> f] :
            r \in {<<>>, <<<<>>>>, <<<<0, 2>>, <<>>, <<3>>>>}, f \in Fmts} ELSE {}
Want(j) == IF j.kind = "iga" THEN Len(j.on) <= j.nsd /\ (~j.control => j.nsd = 3) /\ (j.nc = 4 => j.fields) ELSE TRUE

Init == /\ \E js \in {Jobs, Vecs, Mats} : \E j \in js : Want(j) /\ job = j
        /\ file = TLCEval(Encode(job))
        /\ n = 0 /\ spoilt = 0
Tell == Emit(ToJson([job |-> job, len |-> Len(file),
                     start |-> IF job.kind = "mat" THEN [none |-> 0] ELSE ObjStrs(ObjFor(job))]))
PutByte == n < Len(file) /\ spoilt = 0 /\ n' = n + 1 /\ (IF n = 0 THEN Tell ELSE TRUE) /\ UNCHANGED <<job, file, spoilt>>
Flip == /\ n = Len(file) /\ spoilt = 0
        /\ \E k \in 1..n : k % Spoil = 0 /\ spoilt' = k /\ file' = [file EXCEPT ![k] = (@ + 64) % 256]
        /\ UNCHANGED <<job, n>>
Next == PutByte \/ Flip
Spec == Init /\ [][Next]_vars

Whole == n = Len(file) /\ spoilt = 0
ParseN(kind) == ParseAs(kind, file, n, job.f)
NotBefore == spoilt = 0 => (ParseN(job.kind).ok <=> Whole)
OneKind == spoilt = 0 => \A k \in {"iga", "vec", "mat"} \ {job.kind} : ~ParseN(k).ok
Args == [fmt |-> job.f, control |-> job.control, fields |-> job.fields, nsd |-> <<job.nsd>>]
Written ==                          \* what the verdict on a written file says of it
    CASE job.kind = "iga" -> BytesVerdict(ObjFor(job), Args, file)
      [] job.kind = "vec" -> VecBytesVerdict([x |-> ObjFor(job)],
              [fmt |-> job.f, objs |-> IF job.flat THEN <<>> ELSE <<"x">>,
               X |-> [sh |-> <<>>, A |-> Some(Cells(ObjFor(job).sh) * job.k)],
               Xi |-> [i \in 1..(Cells(ObjFor(job).sh) * job.k) |-> 0]], file)
      [] job.kind = "mat" -> IF ~ParseN("mat").ok THEN "not-a-file"
              ELSE LET q == ParseN("mat")
                       c == Flat(job.rows)
                   IN  IF q.end # n THEN "trailing-bytes" ELSE
                       MatReadVerdict([fmt |-> job.f, bytes |-> file],
                        [M |-> Len(job.rows), N |-> 4, AI |-> [i \in 1..(Len(job.rows) + 1) |-> Count(SubSeq(job.rows, 1, i-1))],
                         AJ |-> c, AV |-> Some(Len(c)), AVi |-> [i \in 1..Len(c) |-> 0]])
Meaning ==
    Whole => /\ Written = ""
             /\ job.kind = "iga" =>
                   LET e == TLCEval(Expect(ObjFor(job), job))  h == TLCEval(Held(file, job.f, ParseN("iga")))
                   IN  /\ h.p = e.p /\ h.sh = e.sh /\ h.nc = e.nc
                       /\ \A a \in 1..Len(e.p) : RMismatch(h.U[a], e.U[a], 0) = 0
                       /\ RMismatch(h.A, e.A, "1/100000000000000000000") = 0
                       /\ HeldVerdict(e, file, job.f, ParseN("iga")) = ""
                       /\ HeldVerdict([e EXCEPT !.A[1] = RStr(RAdd(@, "1/1000"))], file, job.f, ParseN("iga")) # ""
Noticed == spoilt # 0 => Written # ""
=============================================================================
