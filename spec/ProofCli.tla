------------------------------ MODULE ProofCli ------------------------------
(***************************************************************************)
(* Parallel insertion and checking (see MCCli), proved with TLAPS for any  *)
(* number of threads, files, lines and any schedule.                       *)
(*                                                                         *)
(* Lines are occurrences (file and number), so that a line occurring twice *)
(* is two elements of Lines; Unreadable are those that cannot be read.     *)
(* A thread inserting into its own copy may also be refused a line.        *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS Threads, Lines, Unreadable, Pre, pos(_), batch
ASSUME Given == /\ Unreadable \subseteq Lines
                /\ \A l \in Lines : pos(l) \subseteq Nat
                /\ Pre \subseteq Nat
                /\ batch \in [ Threads -> SUBSET Lines ]
                /\ \A l \in Lines : \E t \in Threads : l \in batch[t]
                /\ Threads # {}

VARIABLES cmd, todo, bits, st, out, res, target
vars == << cmd, todo, bits, st, out, res, target >>

Found(l) == pos(l) \subseteq Pre
All == UNION { pos(l) : l \in Lines }

Init ==
  /\ cmd \in {"insert", "check"}
  /\ todo = batch
  /\ bits = [ t \in Threads |-> Pre ]
  /\ st = [ t \in Threads |-> "run" ]
  /\ out = {} /\ res = "?" /\ target = Pre

Take(t, l) ==
  /\ st[t] = "run" /\ l \in todo[t]
  /\ IF l \in Unreadable
     THEN st' = [ st EXCEPT ![t] = "err" ] /\ UNCHANGED << todo, bits, out >>
     ELSE /\ todo' = [ todo EXCEPT ![t] = todo[t] \ {l} ]
          /\ st' = st
          /\ IF cmd = "insert"
             THEN bits' = [ bits EXCEPT ![t] = bits[t] \cup pos(l) ] /\ out' = out
             ELSE bits' = bits /\ out' = IF Found(l) THEN out \cup {l} ELSE out
  /\ UNCHANGED << cmd, res, target >>
Refuse(t) ==
  /\ cmd = "insert" /\ st[t] = "run"
  /\ st' = [ st EXCEPT ![t] = "err" ]
  /\ UNCHANGED << cmd, todo, bits, out, res, target >>
Finish(t) ==
  /\ st[t] = "run" /\ todo[t] = {}
  /\ st' = [ st EXCEPT ![t] = "done" ]
  /\ UNCHANGED << cmd, todo, bits, out, res, target >>
Join ==
  /\ res = "?" /\ \A t \in Threads : st[t] # "run"
  /\ res' = IF \E t \in Threads : st[t] = "err" THEN "fail" ELSE "ok"
  /\ target' = IF cmd = "insert" /\ res' = "ok" THEN UNION { bits[t] : t \in Threads } ELSE target
  /\ UNCHANGED << cmd, todo, bits, st, out >>
Next == Join \/ \E t \in Threads : Refuse(t) \/ Finish(t) \/ \E l \in Lines : Take(t, l)
Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ cmd \in {"insert", "check"}
  /\ todo \in [ Threads -> SUBSET Lines ]
  /\ bits \in [ Threads -> SUBSET Nat ]
  /\ st \in [ Threads -> {"run", "done", "err"} ]
  /\ out \subseteq Lines /\ res \in {"?", "ok", "fail"} /\ target \subseteq Nat

\* what a thread has is what it was given and what of its lines is done
Inv ==
  /\ TypeOK
  /\ \A t \in Threads : todo[t] \subseteq batch[t]
  /\ \A t \in Threads : Pre \subseteq bits[t] /\ bits[t] \subseteq Pre \cup All
  /\ cmd = "insert" => \A t \in Threads : \A l \in batch[t] \ todo[t] : pos(l) \subseteq bits[t]
  /\ \A t \in Threads : \A l \in batch[t] \ todo[t] : l \notin Unreadable
  /\ \A t \in Threads : st[t] = "done" => todo[t] = {}
  /\ cmd = "check" => \A t \in Threads : \A l \in batch[t] \ todo[t] : Found(l) => l \in out
  /\ \A l \in out : Found(l)
  /\ res # "?" => \A t \in Threads : st[t] # "run"
  /\ res = "ok" => \A t \in Threads : st[t] = "done"
  /\ target = IF cmd = "insert" /\ res = "ok" THEN UNION { bits[t] : t \in Threads } ELSE Pre

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv BY Given DEF Init, Inv, TypeOK, All
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2> USE Given
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Inv, TypeOK, Found, All
  <2>2. CASE Join BY <2>2 DEF Join, Inv, TypeOK, Found, All
  <2>3. ASSUME NEW t \in Threads, Refuse(t) PROVE Inv' BY <2>3 DEF Refuse, Inv, TypeOK, Found, All
  <2>4. ASSUME NEW t \in Threads, Finish(t) PROVE Inv' BY <2>4 DEF Finish, Inv, TypeOK, Found, All
  <2>5. ASSUME NEW t \in Threads, NEW l \in Lines, Take(t, l) PROVE Inv'
    <3>0. res = "?" BY <2>5 DEF Take, Inv, TypeOK
    <3>1. CASE l \in Unreadable BY <2>5, <3>0, <3>1 DEF Take, Inv, TypeOK, Found, All
    <3>2. CASE l \notin Unreadable /\ cmd = "insert"
      <4>1. pos(l) \subseteq All BY DEF All
      <4> QED BY <2>5, <3>0, <3>2, <4>1 DEF Take, Inv, TypeOK, Found
    <3>3. CASE l \notin Unreadable /\ cmd = "check" BY <2>5, <3>0, <3>3 DEF Take, Inv, TypeOK, Found
    <3> QED BY <3>1, <3>2, <3>3 DEF Inv, TypeOK
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* C14: complete, and independent of the distribution over threads
Complete == cmd = "insert" /\ res = "ok" => target = Pre \cup All
\* C14: nothing unreadable is passed over in silence
Reported == res = "ok" => Unreadable = {}
\* C15: the lines printed are those contained
Printed == cmd = "check" /\ res = "ok" => out = { l \in Lines : Found(l) }
\* C16: a failing command, and check, leave the filter alone
Unharmed == cmd = "check" \/ res # "ok" => target = Pre

THEOREM Correct == Spec => [](Complete /\ Reported /\ Printed /\ Unharmed)
<1>1. Inv => Complete /\ Reported /\ Printed /\ Unharmed
  <2> SUFFICES ASSUME Inv PROVE Complete /\ Reported /\ Printed /\ Unharmed OBVIOUS
  <2> USE Given
  <2>1. ASSUME res = "ok", NEW l \in Lines PROVE \E t \in Threads : l \in batch[t] \ todo[t]
    BY <2>1 DEF Inv
  <2>2. Reported BY <2>1 DEF Inv, Reported
  <2>3. Printed BY <2>1 DEF Inv, Printed, TypeOK
  <2>4. Unharmed BY DEF Inv, Unharmed
  <2>5. ASSUME cmd = "insert", res = "ok" PROVE target = Pre \cup All
    <3>1. target = UNION { bits[t] : t \in Threads } BY <2>5 DEF Inv
    <3>2. target \subseteq Pre \cup All BY <3>1 DEF Inv
    <3>3. Pre \subseteq target BY <3>1 DEF Inv
    <3>4. ASSUME NEW l \in Lines PROVE pos(l) \subseteq target
      <4>1. PICK t \in Threads : l \in batch[t] \ todo[t] BY <2>1, <2>5
      <4>2. pos(l) \subseteq bits[t] BY <2>5, <4>1 DEF Inv
      <4> QED BY <3>1, <4>2
    <3>5. All \subseteq target BY <3>4 DEF All
    <3> QED BY <3>2, <3>3, <3>5
  <2> QED BY <2>2, <2>3, <2>4, <2>5 DEF Complete
<1> QED BY <1>1, Invariant, PTL

----------------------------------------------------------------------------
(* The batches of module Cli: consecutive chunks of the files cover every  *)
(* file exactly once, and none is empty.                                   *)

ChunkSize(n, jobs) == IF n \div jobs = 0 THEN 1 ELSE n \div jobs
NumBatches(n, jobs) == (n + ChunkSize(n, jobs) - 1) \div ChunkSize(n, jobs)
InBatch(n, jobs, b, i) ==
  LET c == ChunkSize(n, jobs)
      last == IF b * c > n THEN n ELSE b * c
  IN  (b - 1) * c + 1 <= i /\ i <= last

LEMMA Division == ASSUME NEW a \in Nat, NEW c \in Nat, c > 0
                  PROVE  /\ a \div c \in Nat
                         /\ c * (a \div c) <= a /\ a < c * (a \div c) + c
OBVIOUS

THEOREM BatchesCover ==
  ASSUME NEW n \in Nat, NEW jobs \in Nat, n > 0, jobs > 0, NEW i \in 1..n
  PROVE  \E b \in 1..NumBatches(n, jobs) : InBatch(n, jobs, b, i)
<1> DEFINE c == ChunkSize(n, jobs)
<1>0. n \div jobs \in Nat BY Division
<1>1. c \in Nat /\ c > 0 BY <1>0 DEF ChunkSize
<1> HIDE DEF c
<1> DEFINE q == (i - 1) \div c  r == (n + c - 1) \div c
<1>2. q \in Nat /\ c * q <= i - 1 /\ i - 1 < c * q + c BY <1>1, Division
<1>3. r \in Nat /\ c * r <= n + c - 1 /\ n + c - 1 < c * r + c BY <1>1, Division
<1> HIDE DEF q, r
<1>4. c * q < c * r BY <1>1, <1>2, <1>3
<1>5. q < r BY <1>1, <1>2, <1>3, <1>4
<1>6. q + 1 \in 1..r BY <1>2, <1>3, <1>5
<1>7. (q + 1) * c = c * q + c /\ (q + 1 - 1) * c = c * q BY <1>1, <1>2
<1>8. InBatch(n, jobs, q + 1, i) BY <1>1, <1>2, <1>7 DEF InBatch, c
<1>9. NumBatches(n, jobs) = r BY DEF NumBatches, c, r
<1> QED BY <1>6, <1>8, <1>9

THEOREM BatchesDisjoint ==
  ASSUME NEW n \in Nat, NEW jobs \in Nat, n > 0, jobs > 0, NEW i \in 1..n,
         NEW a \in Nat, NEW b \in Nat, a > 0, b > a, InBatch(n, jobs, a, i), InBatch(n, jobs, b, i)
  PROVE  FALSE
<1> DEFINE c == ChunkSize(n, jobs)
<1>0. n \div jobs \in Nat BY Division
<1>1. c \in Nat /\ c > 0 BY <1>0 DEF ChunkSize
<1>2. (b - 1) * c + 1 <= i /\ i <= a * c BY <1>1 DEF InBatch
<1> HIDE DEF c
<1>3. a <= b - 1 OBVIOUS
<1>4. a * c <= (b - 1) * c BY <1>1, <1>3
<1> QED BY <1>1, <1>2, <1>4
=============================================================================
