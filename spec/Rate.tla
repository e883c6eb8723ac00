-------------------------------- MODULE Rate --------------------------------
(***************************************************************************)
(* The rate of false positives that a layout leads to.                     *)
(*                                                                         *)
(* Small numbers are pairs << m, e >> for m * 2^e with 2^14 <= m < 2^15,   *)
(* correct to about one part in 10000 per operation.                       *)
(***************************************************************************)
EXTENDS Sizing

RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN << 0, 0 >> ELSE IF m < 16384 THEN Norm(2 * m, e - 1) ELSE IF m >= 32768 THEN Norm(m \div 2, e + 1) ELSE << m, e >>
Times(x, y) == Norm(x[1] * y[1], x[2] + y[2])
Leq(x, y) == x[1] = 0 \/ (y[1] # 0 /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])))
OneF == << 16384, -14 >>
Power(x, k) == FoldLeft(LAMBDA acc, i : Times(acc, x), OneF, [ i \in 1..k |-> i ])
\* a floating point number from its bytes
FromF64(b) == Norm(16384 + (b[7] % 16) * 1024 + b[6] * 4 + b[5] \div 64, b[8] * 16 + b[7] \div 16 - 1023 - 14)

RECURSIVE ExpNegAny(_, _)
ExpNegAny(num, den) ==
  IF num <= den THEN ExpNeg(num, den) ELSE LET h == ExpNegAny((num + 1) \div 2, den) IN (h * h) \div ExpScale

\* share of bits set of m bits after n entries of k positions each
SetShare(n, k, m) == Norm(ExpScale - ExpNegAny(n * k, m), -15)

\* rate of a Poppy filter holding as many entries as its capacity, spread evenly
\* over the buckets; with a cache an entry must also be found there
Expected(cap, opt, p) ==
  LET f == V2Layout(cap, opt, p)
      n == CeilDiv(cap, f.nb)
      bucket(k) == IF n = 0 THEN << 0, 0 >> ELSE Power(SetShare(n, k, BUCKET_BITS), k)
  IN  IF f.cb = 0 THEN bucket(f.klo)
      ELSE LET c == SetShare(cap, 1, f.cb)
               a == Times(c, bucket(f.klo))
               b == Times(c, bucket(f.khi))
           IN  IF Leq(a, b) THEN b ELSE a

\* the promise, with the tolerance of the tool
Promise(p) == Times(FromF64(PTable[p].bytes), << 19660, -14 >>)
=============================================================================
