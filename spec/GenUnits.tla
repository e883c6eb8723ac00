------------------------------ MODULE GenUnits ------------------------------
(* Sizes around all powers of two, all pairs of kinds of them, and         *)
(* histories of counting.                                                  *)
EXTENDS Units, TLC, Json
CONSTANTS Depth

VARIABLES s
Size == { [ op |-> "size", e |-> e, d |-> d, how |-> h ] : e \in 0..53, d \in {-1, 0, 1, 7}, h \in {"bytes", "bits", "mb"} }
Kinds == {0, 9, 10, 11, 19, 20, 21, 29, 30, 31, 40, 52}
Pair == { [ op |-> "pair", e |-> e, d |-> d, e2 |-> f, d2 |-> g ] : e, f \in Kinds, d, g \in {-1, 0, 1} }
Count == [ op : {"count"}, incs : UNION { [ 1..n -> {"tp", "fp", "tn", "fn"} ] : n \in 0..Depth } ]
Run == { [ op |-> "run", n |-> n, ms |-> m ] : n \in {0, 1, 2, 3, 10, 50}, m \in {0, 1} } \cup { [ op |-> "once", n |-> 1, ms |-> m ] : m \in {0, 3} }
Init == s \in Size \cup Pair \cup Count \cup Run
Spec == Init /\ [][FALSE]_s
Emit == PrintT("SCRIPT " \o ToJson(s))

\* the specification itself: units grow with the size, sizes are shown as less than 1024 of a unit,
\* and a floating point number in a smaller unit has only another exponent
Sane == s.op = "size" /\ s.d >= 0 =>
  LET n == Add64(Pow2(s.e), FromNat(s.d))
      u == Unit(n)
  IN  /\ Geq64(n, Pow2(Shift(u))) \/ u = "B"
      /\ u # "GB" => Less(n, Pow2(Shift(u) + 10))
      /\ Exact(n) => \A i \in 1..6 : F64(n, 0)[i] = F64(n, Shift(u))[i]
      /\ Exact(n) /\ s.d = 0 => Rounds(FromNat(10 * (2 ^ (s.e - Shift(u)))), n, Shift(u)) \/ s.e > 50
=============================================================================
