------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* What a DCSO filter says about itself: number of bits, of positions per  *)
(* entry and of words, its bits, and the probability of false positives    *)
(* estimated from the number of entries.                                   *)
(***************************************************************************)
EXTENDS Rate

\* num/den to 15 bits, for den up to 2^30 and num up to den
RECURSIVE Frac(_, _)
Frac(num, den) == IF den >= 32768 THEN Frac(num \div 2, den \div 2) ELSE (num * ExpScale) \div den

ExpOf(y) ==
  LET step(acc, i) == LET t == (acc[1] * y) \div (ExpScale * i)
                      IN  << t, IF i % 2 = 1 THEN acc[2] - t ELSE acc[2] + t >>
  IN  FoldLeft(step, << ExpScale, ExpScale >>, [ i \in 1..16 |-> i ])[2]

\* exp(-num/den), as ExpNegAny but for any den
RECURSIVE ExpAny(_, _)
ExpAny(num, den) == IF num > 16 * den THEN 0 ELSE IF num <= den THEN ExpOf(Frac(num, den)) ELSE LET h == ExpAny(num, 2 * den) IN (h * h) \div ExpScale

\* the rate if n entries use m bits, with the number of positions that is best for n entries
Estimate(n, m) ==
  LET k == HashCount(m, n)
  IN  IF k > 200 THEN << 0, 0 >> ELSE Power(Norm(ExpScale - ExpAny(n * k, m), -15), k)

\* numbers of entries for which this can be computed
Computable(n, m) == n > 0 /\ m > 0 /\ m < 200000 /\ n < 20000000

\* x is y up to an error that grows with the number of positions
About(x, y, k) ==
  \/ Leq(x, Norm(1, -60)) /\ Leq(y, Norm(1, -60))
  \/ LET t == Norm(16384 + 16 * (k + 8), -14) IN Leq(x, Times(y, t)) /\ Leq(y, Times(x, t))
=============================================================================
