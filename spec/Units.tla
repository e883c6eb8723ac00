------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Sizes in bytes and the units they are shown in; counters of right and   *)
(* wrong answers.  Sizes are 64 bit numbers as in module U64.              *)
(***************************************************************************)
EXTENDS U64, Naturals, Integers, Sequences

Pow2(s) == Shl64(FromNat(1), s)
Less(a, b) == ~Geq64(a, b)

\* the unit is the largest that is not larger than the size
Unit(n) == IF Less(n, Pow2(10)) THEN "B" ELSE IF Less(n, Pow2(20)) THEN "KB" ELSE IF Less(n, Pow2(30)) THEN "MB" ELSE "GB"
Shift(u) == CASE u = "B" -> 0 [] u = "KB" -> 10 [] u = "MB" -> 20 [] u = "GB" -> 30

\* numbers of which floating point numbers hold all digits
Exact(n) == Less(n, Pow2(53))

RECURSIVE Top(_, _)
Top(n, i) == IF Geq64(n, Pow2(i)) THEN i ELSE Top(n, i - 1)
\* n / 2^s as a floating point number
F64(n, s) ==
  IF n = Zero64 THEN Zero64 ELSE
  LET t == Top(n, 52)
      m == Shl64(n, 52 - t)
      e == 1023 + t - s
  IN  << m[1], m[2], m[3], m[4], m[5], m[6], (m[7] % 16) + 16 * (e % 16), e \div 16 >>

\* t tenths of a unit are n bytes, rounded
Rounds(t, n, s) ==
  LET a == Shl64(t, s + 1)
      b == Mul64(n, FromNat(20))
  IN  Geq64(Add64(b, Pow2(s)), a) /\ Geq64(Add64(a, Pow2(s)), b)

\* megabytes to bytes, at most all that there are
MaxU64 == << 255, 255, 255, 255, 255, 255, 255, 255 >>
FromMB(n) == IF Geq64(n, Pow2(44)) THEN MaxU64 ELSE Shl64(n, 20)

----------------------------------------------------------------------------
(* Counters *)
NoCount == [ tp |-> 0, fp |-> 0, tn |-> 0, fn |-> 0 ]
Inc(c, k) == [ c EXCEPT ![k] = @ + 1 ]
Total(c) == c.tp + c.fp + c.tn + c.fn
=============================================================================
