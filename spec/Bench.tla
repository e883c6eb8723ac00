------------------------------- MODULE Bench -------------------------------
(***************************************************************************)
(* The bench command: which entries it uses, and its verdict.              *)
(*                                                                         *)
(* Lines are records [ id, len ]: the same text has the same id.  A        *)
(* measurement is a record [ fp, tn ]: how many of the mutated entries     *)
(* queried were contained and were not.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

\* lines are used, repeated ones once, until their total length exceeds the limit (0: never)
Used(lines, limit) ==
  FoldLeft(LAMBDA acc, l : IF acc.over \/ l.id \in acc.ids THEN acc
                           ELSE [ seq |-> Append(acc.seq, l), ids |-> acc.ids \cup {l.id}, size |-> acc.size + l.len,
                                  over |-> limit > 0 /\ acc.size + l.len > limit ],
           [ seq |-> << >>, ids |-> {}, size |-> 0, over |-> FALSE ], lines)

\* conditions in which nothing was queried have no rate
Measured(ms) == SelectSeq(ms, LAMBDA x : x.fp + x.tn > 0)

\* sum of fp / (fp + tn) over the conditions, times scale (exact if scale is a multiple of all denominators)
RateSum(ms, scale) == FoldLeft(LAMBDA acc, x : acc + (x.fp * scale) \div (x.fp + x.tn), 0, Measured(ms))

\* the average rate exceeds num / den
Exceeds(ms, scale, num, den) ==
  Measured(ms) # << >> /\ RateSum(ms, scale) * den > num * scale * Len(Measured(ms))
=============================================================================
