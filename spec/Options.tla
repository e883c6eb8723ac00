------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* What the options of the command line tool mean.                         *)
(*                                                                         *)
(* An option is "" (not given), "bad" (not a value of its kind) or a value *)
(* as text.  An effect is what a command with these options must make.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Defaults == [ version |-> "2", cap |-> "10000", p |-> "0.01", opt |-> "0", fpp |-> "0.001" ]
Or(given, default) == IF given = "" THEN default ELSE given

Versions == {"1", "2"}
Levels   == {"0", "1", "2", "3"}

\* options of create; lines is the number of lines of the dataset, "" without one
CreateRefused(o) ==
  \/ o.cap = "bad" \/ o.p = "bad" \/ o.opt = "bad" \/ o.version = "bad"
  \/ Or(o.version, Defaults.version) \notin Versions
  \/ Or(o.opt, Defaults.opt) \notin Levels
CreateMakes(o, lines) ==
  LET v == Or(o.version, Defaults.version)
  IN  [ version |-> v,
        cap     |-> IF lines = "" THEN Or(o.cap, Defaults.cap) ELSE lines,
        p       |-> Or(o.p, Defaults.p),
        \* the other format has no levels
        opt     |-> IF v = "1" THEN "0" ELSE Or(o.opt, Defaults.opt) ]

\* options of bench without a file
BenchRefused(o) ==
  \/ o.version = "bad" \/ o.fpp = "bad" \/ o.opt = "bad"
  \/ Or(o.version, Defaults.version) \notin Versions
  \/ Or(o.opt, Defaults.opt) \notin Levels
BenchMakes(o, entries) ==
  [ version |-> Or(o.version, Defaults.version), cap |-> entries, p |-> Or(o.fpp, Defaults.fpp), tests |-> Or(o.tests, entries) ]
=============================================================================
