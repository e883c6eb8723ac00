------------------------------- MODULE GenTwin -------------------------------
(***************************************************************************)
(* Histories of calls that both the library and the Python module offer,   *)
(* on three filters (slots) and two file names.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth

VARIABLES live, saved, hist, done
gvars == << live, saved, hist, done >>
Slots == {1, 2, 3}
Names == {"f", "g"}
Init == live = {} /\ saved = {} /\ hist = << >> /\ done = FALSE
Log(r) == hist' = Append(hist, r)

New(s) ==
  \/ \E c \in {"new", "version", "params"}, g \in {1, 2} :
       Log([ op |-> "new", s |-> s, ctor |-> c, cfg |-> g, bad |-> "no" ]) /\ live' = live \cup {s}
  \/ \E c \in {"new", "version", "params"}, b \in {"fpp", "version", "opt"} :
       /\ b = "version" => c # "new"
       /\ b = "opt" => c = "params"
       /\ Log([ op |-> "new", s |-> s, ctor |-> c, cfg |-> 1, bad |-> b ]) /\ live' = live
Use(s) ==
  \/ \E o \in {"insert_bytes", "insert_str", "contains_bytes", "contains_str"}, e \in 1..6 : Log([ op |-> o, s |-> s, e |-> e ])
  \/ \E n \in {3, 40} : Log([ op |-> "fill", s |-> s, n |-> n ])
  \/ Log([ op |-> "is_full", s |-> s ])
  \/ \E o \in live : \E c \in {"union_merge", "count_common_entries"} : (c = "union_merge" => o # s) /\ Log([ op |-> c, s |-> s, o |-> o ])
Loads(s) ==
  \E o \in live, h \in {"same", "same", "tail", "cut", "head", "empty", "version"} :
    /\ Log([ op |-> "loads", s |-> s, o |-> o, how |-> h ])
    /\ live' = IF h \in {"same", "tail"} THEN live \cup {s} ELSE live
Save(s) == \E n \in Names \cup {"missing/f", "dir", "full"} :
    Log([ op |-> "save", s |-> s, path |-> n ]) /\ saved' = IF n \in Names THEN saved \cup {n} ELSE saved
Load(s) == \E n \in saved \cup {"none", "dir", "junk"} :
    Log([ op |-> "load", s |-> s, path |-> n ]) /\ live' = IF n \in saved THEN live \cup {s} ELSE live

Next ==
  /\ Len(hist) < Depth /\ done' = done
  /\ \E s \in Slots :
       \/ New(s) /\ (s \notin live \/ Len(hist) % 5 = 4) /\ UNCHANGED saved
       \/ s \in live /\ Use(s) /\ UNCHANGED << live, saved >>
       \/ Loads(s) /\ Len(hist) % 3 = 2 /\ UNCHANGED saved
       \/ s \in live /\ Save(s) /\ UNCHANGED live
       \/ Load(s) /\ UNCHANGED saved
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << live, saved, hist >>
GSpec == Init /\ [][Next \/ Stop]_gvars
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
