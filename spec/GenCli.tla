------------------------------- MODULE GenCli -------------------------------
(***************************************************************************)
(* Histories of commands on a few files, as scripts for the driver.  The   *)
(* state follows what is in the files: nothing, something that is not a    *)
(* filter, or a filter.  "ok" tells what the command is expected to do, so *)
(* that histories go on sensibly; the verdict is TraceCli's.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Cmds

VARIABLES file, hist, done
gvars == << file, hist, done >>
Slots == {"a", "b", "c"}
Init == file = [ s \in Slots |-> IF s = "c" THEN "junk" ELSE "none" ] /\ hist = << >> /\ done = FALSE

Inputs  == {"none", "one", "two", "several", "many", "same"}
Broken  == {"first", "middle", "last", "only"}
Reasons == {"missing", "dir", "binary"}
Jobs    == {0, 1, 2, 3, 7}
Room    == {"plenty", "tight", "exceeded", "zero"}

Log(r) == r.cmd \in Cmds /\ hist' = Append(hist, r)

Create(s) ==
  \/ \E i \in Inputs, j \in Jobs, r \in Room :
       /\ Log([ cmd |-> "create", s |-> s, in |-> i, jobs |-> j, bad |-> "no", why |-> "no", room |-> r ])
       /\ file' = IF file[s] = "junk" THEN file ELSE [ file EXCEPT ![s] = "filter" ]
  \/ \E b \in Broken, w \in Reasons, j \in Jobs :
       /\ Log([ cmd |-> "create", s |-> s, in |-> "several", jobs |-> j, bad |-> b, why |-> w, room |-> "plenty" ])
       /\ file' = file
  \/ \E w \in {"fpp", "version", "opt", "arg"} :
       /\ Log([ cmd |-> "create", s |-> s, in |-> "one", jobs |-> 2, bad |-> "params", why |-> w, room |-> "plenty" ])
       /\ file' = file
Insert(s) ==
  \/ \E i \in Inputs, j \in Jobs, sin \in BOOLEAN :
       Log([ cmd |-> "insert", s |-> s, in |-> i, jobs |-> j, bad |-> "no", why |-> "no", stdin |-> sin ])
  \/ \E b \in Broken \cup {"stdin"}, w \in Reasons, j \in Jobs :
       Log([ cmd |-> "insert", s |-> s, in |-> "several", jobs |-> j, bad |-> b, why |-> w, stdin |-> b = "stdin" ])
Check(s) ==
  \/ \E i \in Inputs, j \in Jobs, sin \in BOOLEAN, v \in BOOLEAN, q \in {FALSE} :
       Log([ cmd |-> "check", s |-> s, in |-> i, jobs |-> j, bad |-> "no", why |-> "no", stdin |-> sin, verify |-> v, silent |-> q ])
  \/ \E i \in {"one", "several"}, v \in BOOLEAN, sin \in BOOLEAN :
       Log([ cmd |-> "check", s |-> s, in |-> i, jobs |-> 2, bad |-> "no", why |-> "no", stdin |-> sin, verify |-> v, silent |-> TRUE ])
  \/ \E b \in Broken, w \in Reasons, j \in Jobs :
       Log([ cmd |-> "check", s |-> s, in |-> "several", jobs |-> j, bad |-> b, why |-> w, stdin |-> FALSE, verify |-> FALSE, silent |-> FALSE ])
Look(s) == \E c \in {"show", "bench"} : Log([ cmd |-> c, s |-> s ])
\* someone else writes to the file
Spoil(s) ==
  /\ \E k \in {"junk", "cut", "remove", "data"} :
       /\ Log([ cmd |-> "spoil", s |-> s, how |-> k ])
       /\ file' = [ file EXCEPT ![s] = IF k = "remove" THEN "none" ELSE IF k = "data" THEN @ ELSE "junk" ]

\* now and then something other than the usual commands, which work on filters mostly
Odd == Len(hist) % 4 = 3
Next ==
  /\ Len(hist) < Depth /\ done' = done
  /\ \E s \in Slots :
       IF Odd /\ Cmds \cap {"show", "bench", "spoil"} # {} THEN (Look(s) /\ file' = file) \/ Spoil(s)
       ELSE \/ (file[s] # "junk" \/ Len(hist) % 3 = 2) /\ Create(s)
            \/ (file[s] = "filter" \/ Len(hist) % 5 = 4) /\ (Insert(s) \/ Check(s) \/ Look(s)) /\ file' = file
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << file, hist >>
GSpec == Init /\ [][Next \/ Stop]_gvars
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
