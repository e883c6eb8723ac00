-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The commands of the command line tool that work on lines of text.       *)
(*                                                                         *)
(* An input is a record [ kind, lines ]: kind is "text" or the reason why  *)
(* it cannot be read as text; lines are entries in order.                  *)
(***************************************************************************)
EXTENDS Bloom, TLC

Readable(ins) == \A i \in DOMAIN ins : ins[i].kind = "text"
AllLines(ins) == FoldLeft(LAMBDA acc, i : acc \o i.lines, << >>, ins)

\* distribution of n files over jobs: consecutive batches
ChunkSize(n, jobs) == IF n \div jobs = 0 THEN 1 ELSE n \div jobs
NumBatches(n, jobs) == (n + ChunkSize(n, jobs) - 1) \div ChunkSize(n, jobs)
Batch(files, jobs, b) ==
  LET c == ChunkSize(Len(files), jobs)
      last == IF b * c > Len(files) THEN Len(files) ELSE b * c
  IN  SubSeq(files, (b - 1) * c + 1, last)

\* one line after the other; ix maps lines to what they hash to
InsertAll(f, lines, ix) ==
  FoldLeft(LAMBDA acc, e : IF ~acc.ok THEN acc
                           ELSE IF InsertRes(acc.f, ix[e]) = "TooMany" THEN [ acc EXCEPT !.ok = FALSE ]
                           ELSE [ acc EXCEPT !.f = InsertPost(acc.f, ix[e]) ],
           [ f |-> f, ok |-> TRUE ], lines)

\* what all lines together add, whatever the order
Added(f, lines, ix) == UNION { Rng(ix[e].pos) : e \in Rng(lines) }
AddedCache(f, lines, ix) == IF HasCache(f) THEN { ix[e].c : e \in Rng(lines) } ELSE {}

\* room for all lines in any order and distribution
Fits(f, lines, ix) ==
  LET new == { e \in Rng(lines) : Missing(f, ix[e]) # {} }
  IN  f.cnt + Cardinality(new) <= f.cap /\ (lines # << >> => HasStorage(f))

Occurrences(s, e) == Len(SelectSeq(s, LAMBDA x : x = e))
=============================================================================
