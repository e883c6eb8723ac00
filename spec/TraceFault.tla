------------------------------ MODULE TraceFault ------------------------------
(***************************************************************************)
(* Validates saving and loading over a device that fails (see MCWriter).   *)
(* at: number of bytes after which the device fails; failed: it was asked  *)
(* for more than that.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, len
tvars == << l, len >>
TInit == l = 1 /\ len = 0
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}
Errors == {"WrongFpp", "Io", "InvalidVersion", "OptLevel", "Merge", "TooMany", "UninitIter"}

\* got: bytes delivered; prefix: they are the first ones of the filter's bytes
Save(ev) ==
  Cl("saving ends in success or error", ev.res \in Errors \cup {"ok"})
  \cup Cl("success means every byte was written", ev.res = "ok" => ev.got = len /\ ~ev.failed)
  \cup Cl("bytes are written in order", ev.prefix)
  \cup Cl("a failing writer makes saving fail", (ev.failed \/ ev.at < len) => ev.res \in Errors)
  \cup Cl("short and interrupted writes do no harm", (~ev.failed /\ ev.at >= len) => ev.res = "ok")

\* same: the filter loaded is the one saved
Load(ev) ==
  Cl("loading ends in success or error", ev.res \in Errors \cup {"ok"})
  \cup Cl("a failing reader makes loading fail", ev.failed => ev.res \in Errors)
  \cup Cl("a full load reads to the end", (ev.how # "partial" /\ ev.at <= len) => ev.res \in Errors)
  \cup Cl("short and interrupted reads do no harm", ~ev.failed => ev.res = "ok" /\ ev.same)

\* a command writing to a file that can hold at most `at` bytes
Command(ev) ==
  Cl("success means every byte was written", ev.exit = "0" => ev.same /\ ev.at >= ev.len)
  \cup Cl("room enough means success", ev.at >= ev.len => ev.exit = "0")

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> len' = 0
       [] ev.op = "file"  -> len' = ev.len
       [] ev.op = "save"  -> Good(Save(ev)) /\ len' = len
       [] ev.op = "read"  -> Good(Load(ev)) /\ len' = len
       [] ev.op = "cli"   -> Good(Command(ev)) /\ len' = len
       [] ev.op = "crash" -> Good({ "saving or loading: " \o ev.res }) /\ len' = len
TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
