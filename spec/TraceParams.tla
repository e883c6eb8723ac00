----------------------------- MODULE TraceParams -----------------------------
(***************************************************************************)
(* Validates the creation of filters: event "new" has the parameters (fpp  *)
(* as the bytes of the number), the result, and for a filter got what it   *)
(* reports about itself and the lengths of what it saves.                  *)
(***************************************************************************)
EXTENDS Format, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}
Errors == {"WrongFpp", "Io", "InvalidVersion", "OptLevel", "Merge", "TooMany", "UninitIter", "ValueError"}

\* the constructors of one format have their version
Ver(ev) == IF ev.ctor \in {"v1", "intov1"} THEN 1 ELSE IF ev.ctor \in {"v2", "intov2", "cap", "macro", "pycap"} THEN 2 ELSE ev.v

Verdict_(ev) ==
  IF Ver(ev) \notin {1, 2} \/ ev.opt > 3 \/ FppClass(ev.fpp) = "bad" THEN "refuse"
  ELSE IF FppClass(ev.fpp) = "?" THEN "either" ELSE "accept"

Refused(ev) == IF ev.ctor = "macro" THEN ev.res = "panic" ELSE IF ev.ctor = "cli" THEN ev.res = "1" ELSE ev.res \in Errors

Overhead(v) == IF v = 1 THEN 48 ELSE 56

New(ev) ==
  LET v == Verdict_(ev)
      g == ev.got
  IN  Cl("creation ends in a filter or an error", ev.res = "ok" \/ Refused(ev))
      \cup Cl("invalid parameters are refused", v = "refuse" => Refused(ev))
      \cup Cl("valid parameters are accepted", v = "accept" => ev.res = "ok")
      \cup IF ev.res # "ok" THEN {} ELSE
           Cl("the filter has the version asked for", g.ver = Ver(ev))
           \cup Cl("the filter has the capacity asked for", g.cap = ev.cap)
           \cup Cl("the filter has the probability asked for", g.fpp = ev.fpp)
           \cup Cl("the filter starts empty", g.cnt = 0 /\ g.ones = 0 /\ g.dlen = 0)
           \cup Cl("the saved size is the reported one", g.size = g.len - Overhead(Ver(ev)))
           \cup Cl("the reported size is the same for a metadata-only load", g.psize = g.size)
           \cup Cl("a metadata-only load has the same parameters", g.pver = g.ver /\ g.pcap = g.cap /\ g.pfpp = g.fpp)
           \* with data appended, sizes do not change
           \cup Cl("appended data does not count", g.dsize = g.size /\ g.dpsize = g.size)

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> TRUE
       [] ev.op = "new"   -> Good(New(ev))
       [] ev.op = "crash" -> Good({ "creation: " \o ev.res })
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
