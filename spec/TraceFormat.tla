----------------------------- MODULE TraceFormat -----------------------------
(* Validates the outcome of loading byte strings, damaged or not.          *)
EXTENDS Format, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file
tvars == << l, file >>
None == [ head |-> << >>, nbf |-> << >>, nbat |-> 0, whole |-> FALSE ]
TInit == l = 1 /\ file = None
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

\* errors the library has names for
Refusals == {"WrongFpp", "Io", "InvalidVersion", "OptLevel", "Merge", "TooMany", "UninitIter"}

Load(ev) ==
  LET h == SubSeq(file.head, 1, IF ev.len < 48 THEN ev.len ELSE 48)
      nbf == IF ev.len >= file.nbat + 8 THEN file.nbf ELSE << >>
      v == Verdict(ev.how, h, nbf, ev.len, file.whole /\ ev.len >= file.end)
  IN  Cl("ends in success or error", ev.res \in Refusals \cup {"ok"})
      \cup Cl("damaged or foreign input is refused", v = "refuse" => ev.res \in Refusals)
      \cup Cl("well-formed input is accepted", v = "accept" => ev.res = "ok")
      \cup Cl("memory stays in proportion to the input", ev.mem <= MemoryLimit(ev.len))

\* a command reading the file: fails in an orderly way exactly when loading does
Command(ev) ==
  LET nbf == IF ev.len >= file.nbat + 8 THEN file.nbf ELSE << >>
      v == Verdict(IF ev.cmd = "show" THEN "partial" ELSE "gen", SubSeq(file.head, 1, IF ev.len < 48 THEN ev.len ELSE 48),
                   nbf, ev.len, file.whole /\ ev.len >= file.end)
  IN  Cl("ends in success or error", ev.exit \in {"0", "1"})
      \cup Cl("damaged or foreign input is refused", v = "refuse" => ev.exit # "0")
      \cup Cl("well-formed input is accepted", v = "accept" => ev.exit = "0")

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> file' = None
       [] ev.op = "file"  -> file' = [ head |-> ev.head, nbf |-> ev.nbf, nbat |-> ev.nbat, whole |-> ev.whole, end |-> ev.end ]
       [] ev.op = "load"  -> Good(Load(ev)) /\ file' = file
       [] ev.op = "cli"   -> Good(Command(ev)) /\ file' = file
       [] ev.op = "crash" -> Good({ "loading: " \o ev.res }) /\ file' = file
TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
