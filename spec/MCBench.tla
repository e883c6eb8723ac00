------------------------------ MODULE MCBench ------------------------------
(***************************************************************************)
(* The bench command step by step, for all inputs, filters and random      *)
(* choices of a small scope.                                               *)
(*                                                                         *)
(* With Careful = FALSE it counts every mutated entry that is contained as *)
(* a false positive, also one that has become another entry (or itself),   *)
(* and has no verdict if one of the conditions measured nothing; both are  *)
(* refuted.                                                                *)
(***************************************************************************)
EXTENDS Bench, TLC
CONSTANTS Texts,      \* texts, 1..n; a text of id i is i-1 bytes long
          Others,     \* texts that are never entries
          MaxLines, Limits, Conditions, Careful

VARIABLES lines, limit, has, i, ids, size, st, ms, verdict
vars == << lines, limit, has, i, ids, size, st, ms, verdict >>

Scale == 60
Len_(t) == t - 1

Init ==
  /\ lines \in UNION { [ 1..n -> Texts ] : n \in 0..MaxLines }
  /\ limit \in Limits
  /\ has \in SUBSET (Texts \cup Others)
  /\ i = 1 /\ ids = << >> /\ size = 0 /\ st = "read" /\ ms = << >> /\ verdict = "?"

Rng_(s) == { s[j] : j \in DOMAIN s }

Read ==
  /\ st = "read"
  /\ IF i > Len(lines) \/ (limit > 0 /\ size > limit)
     THEN st' = "look" /\ UNCHANGED << i, ids, size >>
     ELSE /\ i' = i + 1 /\ st' = st
          /\ IF lines[i] \in Rng_(ids) THEN UNCHANGED << ids, size >>
             ELSE ids' = Append(ids, lines[i]) /\ size' = size + Len_(lines[i])
  /\ UNCHANGED << lines, limit, has, ms, verdict >>

Look ==
  /\ st = "look"
  /\ IF Rng_(ids) \subseteq has THEN st' = "measure" /\ UNCHANGED verdict
     ELSE st' = "end" /\ verdict' = "fail"
  /\ UNCHANGED << lines, limit, has, i, ids, size, ms >>

\* some of the entries are mutated to anything of the same length, themselves included
Becomes(t) == { u \in Texts \cup Others : Len_(u % 10) = Len_(t) }
Measure ==
  /\ st = "measure" /\ Len(ms) < Conditions
  /\ \E M \in SUBSET Rng_(ids) : \E f \in [ M -> Texts \cup Others ] :
       /\ \A t \in M : f[t] \in Becomes(t)
       /\ LET C == { t \in M : Careful => f[t] \notin Rng_(ids) }
          IN  ms' = Append(ms, [ fp |-> Cardinality({ t \in C : f[t] \in has }), tn |-> Cardinality({ t \in C : f[t] \notin has }) ])
  /\ UNCHANGED << lines, limit, has, i, ids, size, st, verdict >>

\* a rate of a tenth is allowed
Verdict ==
  /\ st = "measure" /\ Len(ms) = Conditions
  /\ st' = "end"
  /\ verdict' = IF ~Careful /\ Len(Measured(ms)) < Conditions THEN "ok"
                ELSE IF Exceeds(ms, Scale, 1, 10) THEN "fail" ELSE "ok"
  /\ UNCHANGED << lines, limit, has, i, ids, size, ms >>

Next == Read \/ Look \/ Measure \/ Verdict
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == st = "end"
UsedIs == st # "read" =>
  LET u == Used([ j \in DOMAIN lines |-> [ id |-> lines[j], len |-> Len_(lines[j]) ] ], limit)
  IN  /\ ids = [ j \in DOMAIN u.seq |-> u.seq[j].id ]
      /\ Cardinality(Rng_(ids)) = Len(ids)
      /\ limit > 0 /\ ids # << >> => size - Len_(ids[Len(ids)]) <= limit
\* an entry that is missing is noticed
Complete == Over /\ ~(Rng_(ids) \subseteq has) => verdict = "fail"
\* a filter that contains the entries and nothing else passes
SoundPasses == Over /\ Rng_(ids) = has => verdict = "ok"
\* one that contains everything does not, if anything was measured
SaturatedFails == Over /\ has = Texts \cup Others /\ Measured(ms) # << >> => verdict = "fail"
Ends == <>Over
=============================================================================
