----------------------------- MODULE ProofBits -----------------------------
(***************************************************************************)
(* Bit sets kept in bytes (see MCBits), proved with TLAPS for any number   *)
(* of bytes: every operation on the bytes is the operation on the set of   *)
(* indices.  A byte is the set of its bits that are one, so that masking   *)
(* and shifting become set operations; that the masks of the code do the   *)
(* same on numbers is what MCBits checks.                                  *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANT N
ASSUME Size == N \in Nat
Byte == SUBSET (0..7)
Array == [ 0..(N - 1) -> Byte ]
Index == 0..(8 * N - 1)

At(i) == i \div 8
Bit(i) == i % 8
Get(r, i) == Bit(i) \in r[At(i)]
Abs(r) == { i \in Index : Get(r, i) }
Set(r, i) == [ r EXCEPT ![At(i)] = r[At(i)] \cup {Bit(i)} ]
Unset(r, i) == [ r EXCEPT ![At(i)] = r[At(i)] \ {Bit(i)} ]
Union(r, q) == [ j \in 0..(N - 1) |-> r[j] \cup q[j] ]
Inter(r, q) == [ j \in 0..(N - 1) |-> r[j] \cap q[j] ]
Zero == [ j \in 0..(N - 1) |-> {} ]

LEMMA Address ==
  ASSUME NEW i \in Index
  PROVE  i \in Nat /\ At(i) \in 0..(N - 1) /\ Bit(i) \in 0..7 /\ i = 8 * At(i) + Bit(i)
<1>1. i \in Nat /\ i <= 8 * N - 1 BY Size DEF Index
<1>2. i \div 8 \in Int /\ i % 8 \in 0..7 BY <1>1
<1>a. i = 8 * (i \div 8) + (i % 8) BY <1>1
<1>b. At(i) \in Int /\ Bit(i) \in 0..7 /\ i = 8 * At(i) + Bit(i) BY <1>2, <1>a DEF At, Bit
<1>3. At(i) >= 0 /\ At(i) <= N - 1 BY <1>1, <1>b, Size
<1> QED BY <1>1, <1>b, <1>3, Size

\* no two indices share a bit
LEMMA Distinct ==
  ASSUME NEW i \in Index, NEW j \in Index, At(i) = At(j), Bit(i) = Bit(j) PROVE i = j
BY Address

\* and every bit of the array has an index
LEMMA Onto ==
  ASSUME NEW a \in 0..(N - 1), NEW b \in 0..7
  PROVE  \E i \in Index : At(i) = a /\ Bit(i) = b
<1> DEFINE i == 8 * a + b
<1>1. i \in Index BY Size DEF Index
<1>2. At(i) = a /\ Bit(i) = b BY Size DEF At, Bit
<1> QED BY <1>1, <1>2

THEOREM Types ==
  ASSUME NEW r \in Array, NEW q \in Array, NEW i \in Index
  PROVE  Set(r, i) \in Array /\ Unset(r, i) \in Array /\ Union(r, q) \in Array /\ Inter(r, q) \in Array /\ Zero \in Array
BY Address DEF Set, Unset, Union, Inter, Zero, Array, Byte

THEOREM SetIsInsertion ==
  ASSUME NEW r \in Array, NEW i \in Index PROVE Abs(Set(r, i)) = Abs(r) \cup {i}
<1>1. ASSUME NEW j \in Index PROVE Get(Set(r, i), j) <=> Get(r, j) \/ j = i
  <2>1. CASE j = i BY <2>1, Address DEF Get, Set, Array
  <2>2. CASE j # i BY <2>2, Address, Distinct DEF Get, Set, Array
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1 DEF Abs

THEOREM UnsetIsRemoval ==
  ASSUME NEW r \in Array, NEW i \in Index PROVE Abs(Unset(r, i)) = Abs(r) \ {i}
<1>1. ASSUME NEW j \in Index PROVE Get(Unset(r, i), j) <=> Get(r, j) /\ j # i
  <2>1. CASE j = i BY <2>1, Address DEF Get, Unset, Array
  <2>2. CASE j # i BY <2>2, Address, Distinct DEF Get, Unset, Array
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1 DEF Abs

THEOREM Combinations ==
  ASSUME NEW r \in Array, NEW q \in Array
  PROVE  /\ Abs(Union(r, q)) = Abs(r) \cup Abs(q)
         /\ Abs(Inter(r, q)) = Abs(r) \cap Abs(q)
         /\ Abs(Zero) = {}
BY Address DEF Abs, Get, Union, Inter, Zero

\* the array is determined by the set
THEOREM Faithful ==
  ASSUME NEW r \in Array, NEW q \in Array, Abs(r) = Abs(q) PROVE r = q
<1>1. ASSUME NEW a \in 0..(N - 1), NEW b \in 0..7 PROVE b \in r[a] <=> b \in q[a]
  <2>1. PICK i \in Index : At(i) = a /\ Bit(i) = b BY Onto
  <2> QED BY <2>1 DEF Abs, Get
<1>2. ASSUME NEW a \in 0..(N - 1) PROVE r[a] = q[a] BY <1>1 DEF Array, Byte
<1> QED BY <1>2 DEF Array
=============================================================================
