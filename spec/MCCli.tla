------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Parallel insertion and checking: files are distributed over threads in  *)
(* batches; inserting threads work on copies that are merged at the end,   *)
(* checking threads share the filter and print.  All schedules, all        *)
(* distributions of lines over files, all numbers of jobs.                 *)
(***************************************************************************)
EXTENDS Cli
CONSTANTS Entries, MaxFiles, MaxLines, MaxJobs, Caps

VARIABLES cmd, files, jobs, ix, pre, target, th, res, out
vars == << cmd, files, jobs, ix, pre, target, th, res, out >>

Texts == UNION { [ 1..n -> Entries ] : n \in 0..MaxLines }
Inputs == [ kind : {"text"}, lines : Texts ] \cup { [ kind |-> "unreadable", lines |-> << >> ] }
Pos == { << 1 >>, << 1, 2 >>, << 2, 3 >> }
Filter(cap, bits) ==
  [ v |-> 2, opt |-> 0, fpp |-> 0, cap |-> cap, k |-> 2, m |-> 4, nb |-> 1, cb |-> 0, bits |-> bits, cbits |-> {}, cnt |-> IF bits = {} THEN 0 ELSE 1, data |-> 0 ]

Init ==
  /\ cmd \in {"insert", "check"}
  /\ files \in UNION { [ 1..n -> Inputs ] : n \in 1..MaxFiles }
  /\ jobs \in 1..MaxJobs
  /\ ix \in [ Entries -> [ pos : Pos, c : {0} ] ]
  /\ pre \in { Filter(c, b) : c \in Caps, b \in { {}, {1, 2} } }
  /\ target = pre /\ res = "?" /\ out = << >>
  /\ th = [ b \in 1..NumBatches(Len(files), jobs) |-> [ todo |-> Batch(files, jobs, b), f |-> pre, st |-> "run" ] ]

\* a thread goes on with its next line
Line(b) ==
  LET t == th[b] IN
  /\ t.st = "run"
  /\ IF t.todo = << >> THEN th' = [ th EXCEPT ![b].st = "done" ] /\ out' = out
     ELSE IF Head(t.todo).kind # "text" THEN th' = [ th EXCEPT ![b].st = "err" ] /\ out' = out
     ELSE IF Head(t.todo).lines = << >> THEN th' = [ th EXCEPT ![b].todo = Tail(@) ] /\ out' = out
     ELSE LET e == Head(Head(t.todo).lines)
              rest == [ t.todo EXCEPT ![1].lines = Tail(@) ]
          IN  IF cmd = "check" THEN
                /\ th' = [ th EXCEPT ![b].todo = rest ]
                /\ out' = IF Has(pre, ix[e]) THEN Append(out, e) ELSE out
              ELSE IF InsertRes(t.f, ix[e]) = "TooMany" THEN th' = [ th EXCEPT ![b].st = "err" ] /\ out' = out
              ELSE th' = [ th EXCEPT ![b].todo = rest, ![b].f = InsertPost(@, ix[e]) ] /\ out' = out
  /\ UNCHANGED << cmd, files, jobs, ix, pre, target, res >>

Join ==
  /\ res = "?" /\ \A b \in DOMAIN th : th[b].st # "run"
  /\ res' = IF \E b \in DOMAIN th : th[b].st = "err" THEN "fail" ELSE "ok"
  /\ target' = IF cmd = "check" \/ res' = "fail" THEN target
               ELSE [ pre EXCEPT !.bits = UNION { th[b].f.bits : b \in DOMAIN th } ]
  /\ UNCHANGED << cmd, files, jobs, ix, pre, th, out >>

Next == Join \/ \E b \in DOMAIN th : Line(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Lines == AllLines(files)
Sequential == InsertAll(pre, Lines, ix)

BatchesCover == FoldLeft(LAMBDA acc, b : acc \o Batch(files, jobs, b), << >>, [ b \in 1..NumBatches(Len(files), jobs) |-> b ]) = files
Complete  == (cmd = "insert" /\ res = "ok") => target.bits = pre.bits \cup Added(pre, Lines, ix)
Unharmed  == (res # "ok" \/ cmd = "check") => target = pre
Reported  == (res = "ok") => Readable(files)
Succeeds  == res = "fail" => ~Readable(files) \/ (cmd = "insert" /\ ~Fits(pre, Lines, ix))
Enough    == (cmd = "insert" /\ Fits(pre, Lines, ix)) => Sequential.ok
OneBatch  == (cmd = "insert" /\ res = "ok" /\ NumBatches(Len(files), jobs) = 1) => Sequential.ok
Printed   == (cmd = "check" /\ res = "ok") =>
               \A e \in Entries : Occurrences(out, e) = (IF Has(pre, ix[e]) THEN Occurrences(Lines, e) ELSE 0)
Ends == <>(res # "?")
\* refuted: every thread has the whole remaining capacity for itself
JobsDoNotMatter == (cmd = "insert" /\ res = "ok") => Sequential.ok
=============================================================================
