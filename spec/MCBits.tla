------------------------------- MODULE MCBits -------------------------------
(***************************************************************************)
(* Two byte arrays, operated on with shifts and masks as the code does,    *)
(* next to two sets of indices.  Width is the number of bits of a byte     *)
(* (8 in reality; the arithmetic is the same for 2 or 3, with fewer        *)
(* states).                                                                *)
(***************************************************************************)
EXTENDS BitSets, Bitwise

CONSTANTS Width, Sizes   \* bits per byte; sizes in bytes

VARIABLES r,   \* slot -> bytes
          a    \* slot -> abstract bit set
mvars == << r, a >>

Slots == {1, 2}
Mask(i) == 2 ^ (i % Width)
Byte(i) == (i \div Width) + 1
NotB(x) == (2 ^ Width - 1) - x
BitLen(q) == Len(q) * Width
Pop(x) == Cardinality({ j \in 0..(Width - 1) : x & (2 ^ j) = 2 ^ j })
Ones(q) == FoldLeft(LAMBDA acc, x : acc + Pop(x), 0, q)

ROut(op, q, o, i) ==
  CASE op \in {"set", "unset", "get"} ->
         IF Byte(i) > Len(q) THEN "panic"
         ELSE IF q[Byte(i)] & Mask(i) = Mask(i) THEN "true" ELSE "false"
    [] op \in {"union", "inter"} -> IF Len(q) # Len(o) THEN "panic" ELSE "ok"
    [] op = "common" -> IF Len(q) # Len(o) THEN "panic" ELSE ToString(Ones([ j \in DOMAIN q |-> q[j] & o[j] ]))
    [] OTHER -> "ok"

RPost(op, q, o, i) ==
  CASE op = "set"   /\ Byte(i) <= Len(q) -> [ q EXCEPT ![Byte(i)] = @ | Mask(i) ]
    [] op = "unset" /\ Byte(i) <= Len(q) -> [ q EXCEPT ![Byte(i)] = @ & NotB(Mask(i)) ]
    [] op = "union" /\ Len(q) = Len(o) -> [ j \in DOMAIN q |-> q[j] | o[j] ]
    [] op = "inter" /\ Len(q) = Len(o) -> [ j \in DOMAIN q |-> q[j] & o[j] ]
    [] op = "clear" -> [ j \in DOMAIN q |-> 0 ]
    [] op = "clone" -> o
    [] OTHER -> q

MInit == \E f \in [ Slots -> Sizes ] :
  /\ r = [ s \in Slots |-> [ j \in 1..f[s] |-> 0 ] ]
  /\ a = [ s \in Slots |-> Empty(f[s] * Width) ]

Ops == {"set", "unset", "get", "union", "inter", "common", "clear", "clone"}
MaxI == Width * (CHOOSE m \in Sizes : \A n \in Sizes : n <= m) + 1

MStep == \E s, o \in Slots, op \in Ops : \E i \in (IF op \in {"set", "unset", "get"} THEN 0..MaxI ELSE {0}) :
  /\ Assert(ROut(op, r[s], r[o], i) = Outcome(op, a[s], a[o], i), << "outcome", op, s, o, i, r, a >>)
  /\ r' = [ r EXCEPT ![s] = RPost(op, r[s], r[o], i) ]
  /\ a' = [ a EXCEPT ![s] = Post(op, a[s], a[o], i) ]

\* a byte written through the slice of bytes
MPut == \E s \in Slots, v \in 0..(2 ^ Width - 1), i \in 0..MaxI :
  /\ Assert((IF Byte(i) > Len(r[s]) THEN "panic" ELSE "ok") = Outcome("put", a[s], a[s], i), << "outcome", "put", s, i, v, r, a >>)
  /\ r' = [ r EXCEPT ![s] = IF Byte(i) > Len(@) THEN @ ELSE [ @ EXCEPT ![Byte(i)] = v ] ]
  /\ a' = [ a EXCEPT ![s] = Written(Width, @, i, v) ]

MNext == MStep \/ MPut
MSpec == MInit /\ [][MNext]_mvars

Abs(q) == [ n |-> BitLen(q), s |-> { i \in 0..(BitLen(q) - 1) : q[Byte(i)] & Mask(i) = Mask(i) } ]

Refines == \A s \in Slots :
  /\ a[s] = Abs(r[s])
  /\ Ones(r[s]) = Cardinality(a[s].s)
  /\ \A j \in DOMAIN r[s] : r[s][j] \in 0..(2 ^ Width - 1)
=============================================================================
