------------------------------ MODULE MC_Alias ------------------------------
(***************************************************************************)
(* How data is shared between objects, one level down: an object is a net  *)
(* buffer and one knot-vector buffer per axis; a buffer holds a version    *)
(* number.  Calls allocate buffers, share them or leave them; only a write *)
(* by the user changes what a buffer holds.                                *)
(*                                                                         *)
(* Checked: what Alias tells from the observed effects of the calls alone  *)
(* ("same", "apart") is true of the buffers, and therefore every write has *)
(* exactly the effect Alias demands; no other call changes what is         *)
(* observed of an object it was not asked to change.                       *)
(* Every history of Depth calls is emitted, to be replayed.                *)
(***************************************************************************)
EXTENDS Alias, Json

CONSTANTS Depth, Names
VARIABLES objs,         \* name -> [net, knt] of buffers
          mem,          \* buffer -> version (buffers are 1..Len(mem))
          kin, path
vars == <<objs, mem, kin, path>>
view == vars

Seen(os, m) == [n \in DOMAIN os |-> [U |-> [i \in 1..Len(os[n].knt) |-> m[os[n].knt[i]]],
                                     A |-> m[os[n].net], sh |-> Len(os[n].knt), nc |-> 4]]
Now == Seen(objs, mem)
Init == /\ objs = [n \in {"x"} |-> [net |-> 1, knt |-> <<2, 3>>]]
        /\ mem = <<1, 2, 3>> /\ kin = NoKin /\ path = <<>>

Top == Len(mem)
(* fresh buffers hold versions never seen before; duplicates hold the same *)
Call(c, os, m, ret, out, changed) ==
    /\ objs' = os /\ mem' = m
    /\ path' = Append(path, c)
    /\ kin' = NextKin(kin, Now, [op |-> c.op, self |-> c.self, out |-> out, ret |-> ret, raised |-> "",
                                 heap |-> Seen(os, m)])
    /\ IF Len(path) + 1 = Depth THEN Emit(ToJson(path')) ELSE TRUE

Fresh(k) == [i \in 1..k |-> Top + i]           \* versions = buffer numbers
New(x, y, o, m, op, a) == Call([op |-> op, self |-> x, out |-> y, a |-> a],
                               [n \in DOMAIN objs \cup {y} |-> IF n = y THEN o ELSE objs[n]], m, "new", <<y>>, {y})
In(x, o, m, op, a) == Call([op |-> op, self |-> x, out |-> "", a |-> a],
                           [objs EXCEPT ![x] = o], m, "self", <<>>, {x})
Dims(x) == Len(objs[x].knt)
Drop(s, a) == SubSeq(s, 1, a-1) \o SubSeq(s, a+1, Len(s))

DoClone(x, y) == New(x, y, objs[x], mem, "clone", 0)
DoCopy(x, y) == New(x, y, [net |-> Top+1, knt |-> [i \in 1..Dims(x) |-> Top+1+i]],
                  mem \o <<mem[objs[x].net]>> \o [i \in 1..Dims(x) |-> mem[objs[x].knt[i]]], "copy", 0)
DoSlice(x, y, a) == New(x, y, [net |-> Top+1, knt |-> [objs[x].knt EXCEPT ![a] = Top+2]], mem \o Fresh(2), "slice", a)
DoExtract(x, y, a) == /\ Dims(x) > 1
                    /\ New(x, y, [net |-> Top+1, knt |-> Drop(objs[x].knt, a)], mem \o Fresh(1), "extract", a)
(* insert, refine, elevate, clamp, ...: new net, new vector on that axis   *)
DoAlong(x, a) == In(x, [net |-> Top+1, knt |-> [objs[x].knt EXCEPT ![a] = Top+2]], mem \o Fresh(2), "along", a)
(* an affine map: new net                                                  *)
DoMove(x) == In(x, [objs[x] EXCEPT !.net = Top+1], mem \o Fresh(1), "affine", 0)
(* transpose, or a call with nothing to do that reallocates or does not    *)
DoSwap(x) == /\ Dims(x) = 2
           /\ In(x, [net |-> Top+1, knt |-> <<objs[x].knt[2], objs[x].knt[1]>>], mem \o Fresh(1), "swap", 0)
DoIdle(x) == \/ In(x, objs[x], mem, "idle", 0)
           \/ In(x, [net |-> Top+1, knt |-> objs[x].knt], Append(mem, mem[objs[x].net]), "idle", 0)
DoWrite(x, b, where, a) ==
    LET m == [mem EXCEPT ![b] = Top + 100 + Len(path)] IN
    /\ objs' = objs /\ mem' = m
    /\ path' = Append(path, [op |-> "write", self |-> x, out |-> where, a |-> a])
    /\ kin' = NextKin(kin, Now, [op |-> "write", self |-> x, out |-> <<>>, ret |-> "value", raised |-> "",
                                 heap |-> Seen(objs, m)])
    /\ IF Len(path) + 1 = Depth THEN Emit(ToJson(path')) ELSE TRUE

Next ==
    /\ Len(path) < Depth
    /\ \E x \in DOMAIN objs :
        \/ \E y \in Names : /\ y = (CHOOSE z \in Names \ DOMAIN objs : TRUE)
                            /\ \/ DoClone(x, y) \/ DoCopy(x, y)
                               \/ \E a \in 1..Dims(x) : DoSlice(x, y, a) \/ DoExtract(x, y, a)
        \/ \E a \in 1..Dims(x) : DoAlong(x, a)
        \/ DoMove(x) \/ DoSwap(x) \/ DoIdle(x)
        \/ DoWrite(x, objs[x].net, "net", 0)
        \/ \E a \in 1..Dims(x) : DoWrite(x, objs[x].knt[a], "knots", a)
Spec == Init /\ [][Next]_vars

Bufs(s) == {s[i] : i \in 1..Len(s)}
True ==
    \A t \in DOMAIN kin.net :
        LET x == objs[t[1]]  y == objs[t[2]]
        IN  /\ kin.net[t] = "same" => x.net = y.net
            /\ kin.net[t] = "apart" => x.net # y.net
            /\ kin.knt[t] = "same" => x.knt = y.knt
            /\ kin.knt[t] = "apart" => Bufs(x.knt) \cap Bufs(y.knt) = {}
Symmetric == \A t \in DOMAIN kin.net : /\ kin.net[t] = kin.net[<<t[2], t[1]>>]
                                       /\ kin.knt[t] = kin.knt[<<t[2], t[1]>>]
(* copies stay apart for good                                              *)
LastOf(p) == p[Len(p)]
Isolated ==                         \* action property: only the object asked changes, writes aside
    [][LET c == LastOf(path')
           S == Seen(objs', mem')
       IN  \A n \in DOMAIN objs :
             S[n] # Now[n] => \/ n = c.self
                              \/ c.op = "write" /\ (IF c.out = "net" THEN Rel(kin.net, c.self, n)
                                                    ELSE Rel(kin.knt, c.self, n)) # "apart"]_vars
=============================================================================
