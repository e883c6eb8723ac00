----------------------------- MODULE TraceUnits -----------------------------
(* Validates what sizes, counters and time measurement say.                *)
EXTENDS Units, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Size(ev) ==
  LET n == CASE ev.how = "bytes" -> ev.n [] ev.how = "bits" -> Shr64(ev.n, 3) [] ev.how = "mb" -> FromMB(ev.n)
      u == Unit(n)
  IN  Cl("sizes keep their number of bytes", ev.bytes = n /\ ev.abytes = n)
      \cup Cl("the unit is that of the size", ev.unit = u)
      \cup Cl("as bytes the unit is bytes", ev.aunit = "B")
      \cup IF ~Exact(n) THEN {} ELSE
           Cl("value in megabytes", ev.mb = F64(n, 20))
           \cup Cl("value in its unit", ev.val = F64(n, Shift(u)))
           \cup Cl("value as bytes", ev.aval = F64(n, 0))
           \cup Cl("shown with one decimal", Rounds(ev.t, n, Shift(u)))
           \cup Cl("bytes are shown with one decimal", Rounds(ev.at, n, 0))

Order(a, b) == IF a = b THEN "eq" ELSE IF Less(a, b) THEN "lt" ELSE "gt"
Pair(ev) ==
  Cl("sizes are ordered by their bytes", ev.cmp = Order(ev.n, ev.n2))
  \cup Cl("sizes are equal if their bytes are", ev.eq = (ev.n = ev.n2))
  \cup Cl("equal sizes have equal hashes", ev.eq => ev.heq)

\* every state after an increment is recorded
Count(ev) ==
  LET c[i \in 0..Len(ev.incs)] == IF i = 0 THEN NoCount ELSE Inc(c[i - 1], ev.incs[i])
      ok(i) == LET x == c[i] r == ev.rates[i + 1]
               IN  IF x.fp + x.tn = 0 THEN r = "none"
                   ELSE r = ToString(x.fp) \o "/" \o ToString(x.fp + x.tn)
  IN  Cl("everything is counted", \A i \in 0..Len(ev.incs) : ev.totals[i + 1] = Total(c[i]))
      \cup Cl("the rate is that of false positives among what is not contained", \A i \in 0..Len(ev.incs) : ok(i))

Run(ev) ==
  Cl("runs as often as asked for", ev.calls = ev.n)
  \cup Cl("time is that of a run", ev.n > 0 => ev.least <= ev.ns /\ ev.ns <= ev.all)
  \cup Cl("no run, no time", ev.n = 0 => ev.ns = 0)

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> TRUE
       [] ev.op = "size"  -> Good(Size(ev))
       [] ev.op = "pair"  -> Good(Pair(ev))
       [] ev.op = "count" -> Good(Count(ev))
       [] ev.op \in {"run", "once"} -> Good(Run(ev))
       [] ev.op \in {"crash", "panic"} -> Good({ "ends in " \o ev.op })
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
