---------------------------- MODULE TraceOptions ----------------------------
(***************************************************************************)
(* Validates command lines: the options given (o), the exit status, which  *)
(* files changed, and what was made.  p is compared as the bytes of the    *)
(* number, which come along as pbytes for every text used.                 *)
(***************************************************************************)
EXTENDS Options, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Create(ev) ==
  LET r == CreateRefused(ev.o)
      m == CreateMakes(ev.o, ev.lines)
  IN  Cl("ends", ev.exit # "timeout")
      \cup Cl("wrong values are refused", r => ev.exit # "0" /\ ~ev.made)
      \cup Cl("right values are accepted", ~r => ev.exit = "0" /\ ev.made)
      \cup Cl("only the filter is written", ev.changed = << >>)
      \cup IF r \/ ~ev.made \/ ev.exit # "0" THEN {} ELSE
           Cl("format", ev.got.version = m.version)
           \cup Cl("capacity", ev.got.cap = m.cap)
           \cup Cl("probability", ev.got.p = ev.pbytes[m.p])
           \cup Cl("optimisation level", ev.got.opt = m.opt)

Bench(ev) ==
  LET r == BenchRefused(ev.o)
      m == BenchMakes(ev.o, ev.entries)
  IN  Cl("ends", ev.exit # "timeout")
      \cup Cl("wrong values are refused", r => ev.exit # "0")
      \cup Cl("right values are accepted", ~r => ev.exit = "0")
      \cup Cl("no file is written", ev.changed = << >>)
      \cup IF r \/ ev.exit # "0" \/ "cap" \notin DOMAIN ev.got THEN {} ELSE
           Cl("format", ev.got.version = m.version)
           \cup Cl("capacity", ev.got.cap = m.cap)
           \cup Cl("probability", ev.got.p = ev.pbytes[m.p])
           \cup Cl("number of entries tested", ev.got.tests = m.tests)

Limit(ev) == Cl("the limit is 100 MB if not given", (ev.missing <= 100 => ev.exit # "0") /\ (ev.missing > 101 => ev.exit = "0"))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset"  -> TRUE
       [] ev.op = "create" -> Good(Create(ev))
       [] ev.op = "bench"  -> Good(Bench(ev))
       [] ev.op = "limit"  -> Good(Limit(ev))
       [] ev.op = "wrong"  -> Good(Cl("wrong use is refused", ev.exit \notin {"0", "timeout"}) \cup Cl("wrong use changes nothing", ev.changed = << >>))
       [] ev.op = "help"   -> Good(Cl("help is given", ev.exit = "0" /\ ev.printed) \cup Cl("help changes nothing", ev.changed = << >>))
       [] ev.op = "same"   -> Good(Cl("verbose output and the number of jobs change no result", ev.exit = ev.exit2 /\ ev.out = ev.out2))
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
