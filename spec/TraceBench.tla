----------------------------- MODULE TraceBench -----------------------------
(***************************************************************************)
(* Validates runs of the bench command on filters with a known share of    *)
(* bits set, from which the rate to be measured follows.  An event has the *)
(* lines given (or one for many of them), whether they are missing in the  *)
(* filter, the size limit, the bits set in every region (occ) of m bits,   *)
(* k, the probability and the tolerance (in tenths) and the exit status;   *)
(* and what was printed: size of the entries used, number of queries,      *)
(* conditions, and rates measured in units of 1 / 10^7.                    *)
(***************************************************************************)
EXTENDS Bench, Rate, Json, IOUtils
U == INSTANCE Units

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE Share(_, _)
Share(o, m) == IF o = m THEN OneF ELSE IF m > 65535 THEN Share(o \div 2, m \div 2) ELSE Norm((o * 32768) \div m, -15)
\* all regions have the same share of bits set, up to a few
Rate(ev) == Power(Share(ev.occ[1], ev.m), ev.k)
Limit(ev) == Times(FromF64(ev.fpp), Norm(10 + ev.tol, 0))
Tenfold(x) == Times(x, Norm(10, 0))
Twice(x) == << x[1], x[2] + 1 >>

Shows(q, n) == q.unit = U!Unit(FromNat(n)) /\ U!Rounds(FromNat(q.t), FromNat(n), U!Shift(q.unit))
Total(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

\* what was printed up to the verdict
Printed(ev, u) ==
  LET sum == 10 * Total(ev.rates)
      allowed == Len(ev.rates) * ev.fpp7 * (10 + ev.tol)
      near == (allowed \div 1000) + 1000
      whole == ev.single \/ ~u.over
      n == IF ev.single THEN Len(u.seq) ELSE ev.n
  IN  Cl("all conditions are reported", ev.conds = [ i \in 1..10 |-> 100 - 10 * i ])
      \cup Cl("the size of the entries used is told", whole => Shows(ev.used, u.size))
      \cup Cl("the number of queries is told", IF ev.asked >= 0 THEN ev.test = ev.asked ELSE whole => ev.test = n)
      \cup Cl("the filter measured is described", ev.fields = 6 /\ (ev.file => ev.same))
      \cup (IF ev.file \/ ev.fields # 6 THEN {} ELSE
            Cl("the filter made is as asked for", /\ ev.show.version = ToString(ev.v) /\ ev.show.fpp = ev.fpp
                                                  /\ whole => ev.show.capacity = FromNat(n)))
      \cup Cl("the verdict follows from the rates reported",
              IF sum > allowed + near THEN ev.exit = "1" ELSE IF sum + near < allowed \/ ev.rates = << >> THEN ev.exit = "0" ELSE TRUE)

Step(ev) ==
  LET u == Used(ev.lines, ev.limit)
      lacks == \E i \in DOMAIN u.seq : u.seq[i].missing
      \* where lines stand for many, the limit may be reached within one
      maybe == \E x \in Range(ev.lines) : x.missing /\ ~ev.single /\ u.seq # << >> /\ x.id = u.seq[Len(u.seq)].id + 1
      \* a few queries may all by chance be, or not be, false positives
      low == IF ev.few THEN Leq(Rate(ev), Norm(1, -24)) ELSE Leq(Twice(Tenfold(Rate(ev))), Limit(ev))
      high == IF ev.few THEN Rate(ev) = OneF /\ ~Leq(Norm(5, 0), Limit(ev)) ELSE Leq(Twice(Limit(ev)), Tenfold(Rate(ev)))
      \* it may have ended before it measured anything
      ended == ev.exit # "0" /\ ev.file /\ (lacks \/ maybe)
  IN  (IF ended \/ ev.exit \notin {"0", "1"} THEN {} ELSE Printed(ev, u))
      \cup Cl("ends in success or failure", ev.exit \in {"0", "1"})
      \cup Cl("fails if an entry is missing", lacks => ev.exit # "0")
      \cup Cl("fails if the rate is exceeded", (ev.file /\ high) => ev.exit # "0")
      \cup Cl("succeeds on a sound filter", (~lacks /\ ~maybe /\ (IF ev.file THEN low ELSE ~ev.few)) => ev.exit = "0")

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> TRUE
       [] ev.op = "bench" -> Good(Step(ev))
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
