------------------------------- MODULE Bloom -------------------------------
(***************************************************************************)
(* More about the filters of module BloomCore: insertion bit by bit, and   *)
(* the estimate of the number of entries behind a number of set bits.      *)
(***************************************************************************)
EXTENDS BloomCore, Naturals, SequencesExt

----------------------------------------------------------------------------
(* The same insertion, one bit at a time, as a loop does it.  StepInsert   *)
(* is checked to agree with the atomic insertion (StepsAgree): positions   *)
(* are visited in order, and the first position that would need a new bit  *)
(* ends the insertion when the filter is full.                             *)

RECURSIVE StepInsert(_, _, _, _)
StepInsert(f, full, new, todo) ==
  IF todo = << >> THEN << IF new THEN "true" ELSE "false", f >>
  ELSE LET p == Head(todo) IN
       IF full /\ p \notin f.bits THEN << "TooMany", f >>
       ELSE StepInsert([ f EXCEPT !.bits = @ \cup {p} ], full, new \/ p \notin f.bits, Tail(todo))

StepsAgree(f, ix) ==
  HasStorage(f) =>
    LET r == StepInsert(f, Full(f), FALSE, ix.pos)
    IN  r[1] = InsertRes(f, ix) /\ r[2].bits = InsertPost(f, ix).bits

----------------------------------------------------------------------------
(* The standard estimate of the number of entries behind x set bits of a   *)
(* region of m bits, with k positions per entry: m ln(m / (m - x)) / k,    *)
(* rounded down.  Computed in fixed point as the integral of m / (m - t)   *)
(* by the midpoint rule, with an enclosure of the error, so the result is  *)
(* an interval <<lo, hi>> (nearly always a single number).  Big stands for *)
(* every number too large for TLC, and for a saturated estimate.           *)

Big == 2000000000

EstScale(m) == IF m <= 40000 THEN 4096 ELSE IF m <= 500000 THEN 256 ELSE 16

EstSum(x, m) ==
  LET sc == EstScale(m)
  IN  FoldLeft(LAMBDA acc, j : acc + (2 * m * sc) \div (2 * m - 2 * j + 1), 0, [ j \in 1..x |-> j ])

RegionEst(x, m, k) ==
  IF x = 0 THEN << 0, 0 >>
  ELSE IF x >= m \/ k = 0 THEN << Big, Big >>
  ELSE LET sc == EstScale(m)
           t  == EstSum(x, m)
           d  == m - x
           err == x + 1 + (IF d < 10000 THEN ((m * sc) \div (16 * d * d)) + 1 ELSE 1)
       IN  << t \div (sc * k), (t + err) \div (sc * k) >>

Clip(n) == IF n >= Big THEN Big ELSE n
PlusSat(a, b) == IF a >= Big - b THEN Big ELSE a + b

\* number of bits of S in region r
InRegion(S, r, m) == Cardinality({ x \in S : x \div m = r })

\* estimate for the bit set S of a filter shaped like f
EstOf(f, S) ==
  FoldLeft(LAMBDA acc, r : LET e == RegionEst(InRegion(S, r - 1, f.m), f.m, f.k)
                           IN  << PlusSat(acc[1], e[1]), PlusSat(acc[2], e[2]) >>,
           << 0, 0 >>, [ r \in 1..f.nb |-> r ])
=============================================================================
