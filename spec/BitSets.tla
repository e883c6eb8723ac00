------------------------------ MODULE BitSets ------------------------------
(***************************************************************************)
(* Bit sets: what a user sees (a set of indices below a size) and how they *)
(* are represented (bytes and masks).  MCBits shows that the second        *)
(* behaves as the first; TraceBits and GenBits use the first.              *)
(*                                                                         *)
(* Abstract bit set: [ n |-> size, s |-> set of indices ].                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Empty(n) == [ n |-> n, s |-> {} ]

\* v written over the byte of w bits that holds index i
ByteOf(w, i) == { (w * (i \div w)) + j : j \in 0..(w - 1) }
Written(w, a, i, v) ==
  IF i >= a.n THEN a
  ELSE [ a EXCEPT !.s = (@ \ ByteOf(w, i)) \cup { j \in ByteOf(w, i) : (v \div (2 ^ (j % w))) % 2 = 1 } ]

\* outcome and successor of an operation on a (with other operand b)
Outcome(op, a, b, i) ==
  CASE op \in {"set", "unset", "get"} -> IF i >= a.n THEN "panic" ELSE IF i \in a.s THEN "true" ELSE "false"
    [] op = "put" -> IF i >= a.n THEN "panic" ELSE "ok"
    [] op \in {"union", "inter"} -> IF a.n # b.n THEN "panic" ELSE "ok"
    [] op = "common" -> IF a.n # b.n THEN "panic" ELSE ToString(Cardinality(a.s \cap b.s))
    [] op \in {"clear", "clone", "new"} -> "ok"

Post(op, a, b, i) ==
  CASE op = "set"   /\ i < a.n -> [ a EXCEPT !.s = @ \cup {i} ]
    [] op = "unset" /\ i < a.n -> [ a EXCEPT !.s = @ \ {i} ]
    [] op = "union" /\ a.n = b.n -> [ a EXCEPT !.s = @ \cup b.s ]
    [] op = "inter" /\ a.n = b.n -> [ a EXCEPT !.s = @ \cap b.s ]
    [] op = "clear" -> [ a EXCEPT !.s = {} ]
    [] op = "clone" -> b
    [] OTHER -> a
=============================================================================
