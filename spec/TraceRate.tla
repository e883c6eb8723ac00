------------------------------ MODULE TraceRate ------------------------------
(***************************************************************************)
(* Validates measurements of filters filled to capacity: the number of     *)
(* false positives fp among q queries, and how many bits are set in every  *)
(* bucket (occ) and in the cache, from which the rate follows exactly if   *)
(* positions are evenly distributed.                                       *)
(***************************************************************************)
EXTENDS Rate, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

\* probabilities that can be measured, as fractions
Frac == "3fe0000000000000" :> << 1, 2 >> @@ "3fd3333333333333" :> << 3, 10 >> @@ "3fd0000000000000" :> << 1, 4 >>
        @@ "3fb999999999999a" :> << 1, 10 >> @@ "3fa999999999999a" :> << 1, 20 >> @@ "3f947ae147ae147b" :> << 1, 50 >>
        @@ "3f847ae147ae147b" :> << 1, 100 >> @@ "3f50624dd2f1a9fc" :> << 1, 1000 >> @@ "3f1a36e2eb1c432d" :> << 1, 10000 >>
        @@ "3ee4f8b588e368f1" :> << 1, 100000 >> @@ "3eb0c6f7a0b5ed8d" :> << 1, 1000000 >>

\* at most the expected number plus a fifth, plus four standard deviations
Measured(ev) ==
  LET m == (12 * ev.q * Frac[ev.fpp][1]) \div (10 * Frac[ev.fpp][2])
      d == ev.fp - m - 4
  IN  d <= 0 \/ (d < 40000 /\ d * d <= 16 * m)

\* sum of the numbers of a sequence, all brought to the largest exponent
RECURSIVE Shift(_, _)
Shift(m, n) == IF n = 0 \/ m = 0 THEN m ELSE Shift(m \div 2, n - 1)
SumF(s) ==
  LET top == FoldLeft(LAMBDA acc, x : IF x[1] # 0 /\ x[2] > acc THEN x[2] ELSE acc, -100000, s)
  IN  Norm(FoldLeft(LAMBDA acc, x : acc + Shift(x[1], IF top - x[2] > 20 THEN 20 ELSE top - x[2]), 0, s), top)
\* n * x
Mult(n, x) == Times(Norm(n, 0), x)

\* the rate that follows from the bits set: the average over the buckets
Follows(ev) ==
  LET b == SumF([ i \in DOMAIN ev.occ |-> Power(Norm(ev.occ[i], -15), ev.k) ])
      c == IF ev.cb = 0 THEN b ELSE Times(b, Norm(ev.cache, 0))
      n == IF ev.cb = 0 THEN Norm(Len(ev.occ), 0) ELSE Times(Norm(Len(ev.occ), 0), Norm(ev.cb, 0))
  IN  Leq(c, Times(n, Promise(ev.fpp)))

Step(ev) ==
  IF ev.res # "ok" THEN {"filling and querying: " \o ev.res}
  ELSE Cl("as many entries as the capacity fit", ev.refused = 0)
       \cup Cl("entries are found", ev.missing = 0)
       \cup Cl("an entry lacking one of its positions is not found", ev.near = 0)
       \cup Cl("measured rate", ev.fpp \in DOMAIN Frac => Measured(ev))
       \cup Cl("rate following from the bits set", Follows(ev))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> TRUE
       [] ev.op = "rate"  -> Good(Step(ev))
       [] ev.op = "crash" -> Good({ "measuring: " \o ev.res })
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
