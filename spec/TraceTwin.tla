------------------------------ MODULE TraceTwin ------------------------------
(***************************************************************************)
(* Validates the same history carried out through the library (r) and      *)
(* through the Python module (p).  kind is "value", "error" (of the        *)
(* library), "file" (a file cannot be opened) or "panic"; for p it is the  *)
(* class of exception.  obs holds what is seen of every filter afterwards. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
tvars == << l, seen >>
TInit == l = 1 /\ seen = << >>
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Exception(ev) ==
  CASE ev.r.kind = "value" -> {"value"}
    [] ev.r.kind = "file"  -> {"OSError"}
    [] ev.r.kind = "panic" -> {"PanicException"}
    \* a file that can be opened but not be used
    [] ev.r.kind = "error" /\ ev.op \in {"save", "load"} /\ ev.path \in {"dir", "full"} -> {"ValueError", "OSError"}
    [] OTHER -> {"ValueError"}
Queries == {"contains_bytes", "contains_str", "is_full", "count_common_entries", "save"}

Step(ev) ==
  Cl("the module behaves like the library", ev.p.kind \in Exception(ev))
  \cup Cl("the same value", (ev.r.kind = "value" /\ ev.p.kind = "value") => ev.p.val = ev.r.val)
  \cup Cl("the same filters afterwards", ev.p.obs = ev.r.obs)
  \cup Cl("errors and queries change nothing",
          (ev.op # "fill" /\ ev.op # "reload" /\ (ev.p.kind # "value" \/ ev.op \in Queries)) => ev.p.obs = seen)
  \cup Cl("an unusual parameter is an error", ev.op = "new" /\ ev.bad # "no" => ev.p.kind = "ValueError")

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> seen' = ev.obs
       [] ev.op = "crash" -> Good({ "carrying out the history: " \o ev.res }) /\ seen' = seen
       [] OTHER -> Good(Step(ev)) /\ seen' = ev.p.obs
TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
