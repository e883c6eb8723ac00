----------------------------- MODULE GenOptions -----------------------------
(* All ways to give the options of create and bench, right or wrong, and   *)
(* ways to use the tool wrongly.                                           *)
EXTENDS Options, TLC, Json

Bad == {"bad"}
Create == { [ cmd |-> "create", version |-> v, cap |-> c, p |-> p, opt |-> o, files |-> f ] :
              v \in {"", "1", "2", "3"} \cup Bad, c \in {"", "77"} \cup Bad, p \in {"", "0.05"} \cup Bad,
              o \in {""} \cup Levels \cup {"4"} \cup Bad, f \in 0..2 }
Bench  == { [ cmd |-> "bench", version |-> v, fpp |-> p, opt |-> o, tests |-> t ] :
              v \in {"", "1", "2", "0"} \cup Bad, p \in {"", "0.02"} \cup Bad, o \in {"", "1", "3", "4"} \cup Bad, t \in {"", "0", "5"} }
Wrong  == { [ cmd |-> "wrong", use |-> u ] :
              u \in {"nothing", "no such command", "create without file", "unknown option", "option without value", "jobs not a number",
                     "show without file", "show of two", "insert without file", "check without file", "bench of two", "show of a missing file", "show of a text"} }
Help   == { [ cmd |-> "help", use |-> u ] : u \in {"-h", "--help", "help", "create", "insert", "check", "bench", "show"} }

VARIABLES c
Init == c \in Create \cup Bench \cup Wrong \cup Help
Spec == Init /\ [][FALSE]_c
Emit == PrintT("SCRIPT " \o ToJson(c))

\* the defaults can be used, and giving one is the same as leaving it out
Usable == c.cmd = "create" =>
  LET full == [ c EXCEPT !.version = Or(@, Defaults.version), !.cap = Or(@, Defaults.cap), !.p = Or(@, Defaults.p), !.opt = Or(@, Defaults.opt) ]
  IN  /\ CreateRefused(full) = CreateRefused(c)
      /\ CreateMakes(full, "") = CreateMakes(c, "")
      /\ ~CreateRefused([ version |-> "", cap |-> "", p |-> "", opt |-> "" ])
      \* every option decides about its own parameter only
      /\ c.version # "" => LET d == [ c EXCEPT !.version = "" ] IN CreateMakes(c, "").cap = CreateMakes(d, "").cap /\ CreateMakes(c, "").p = CreateMakes(d, "").p
=============================================================================
