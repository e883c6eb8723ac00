----------------------------- MODULE TraceShow -----------------------------
(***************************************************************************)
(* Validates what the command show prints of files with filters of any     *)
(* size.  An event has the first 48 bytes of the file (hdr), the number of *)
(* buckets (nb), how much data follows the filter (dlen) and what was      *)
(* printed, numbers as 64 bit numbers of module U64.  Sizes are printed in *)
(* a unit with one decimal: t tenths of it.                                *)
(***************************************************************************)
EXTENDS Large, Json, IOUtils

U == INSTANCE Units
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Shows(q, n) == q.unit = U!Unit(n) /\ U!Rounds(FromNat(q.t), n, U!Shift(q.unit))

Step(ev) ==
  IF ev.exit # "0" THEN {"a filter can be shown"} ELSE
  IF ev.fields # 6 THEN {"all properties are shown once"} ELSE
  Cl("version is shown", ev.show.version = ToString(ev.hdr[1]))
  \cup Cl("capacity is shown", ev.show.capacity = At(ev.hdr, 8))
  \cup Cl("count is shown", ev.show.n = HeadCount(ev.hdr))
  \cup Cl("probability is shown", ev.show.fpp = At(ev.hdr, 16))
  \cup Cl("length of data is shown", Shows(ev.show.data, FromNat(ev.dlen)))
  \cup Cl("size is shown", Shows(ev.show.size, HeadSize(ev.hdr, ev.nb)))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> TRUE
       [] ev.op = "show" -> Good(Step(ev))
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
