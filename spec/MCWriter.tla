------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Saving through a buffer to a device that takes as few bytes at a time   *)
(* as it likes, can be interrupted and fails for good after some number    *)
(* of bytes.  The pieces of a filter (header fields, cache, buckets, data) *)
(* are written one after the other.                                        *)
(*                                                                         *)
(* With the final flush, success means that everything has reached the     *)
(* device and a failure met on the way is reported.  Without it (Flush =   *)
(* FALSE: the rest is written when the buffer is dropped, errors ignored)  *)
(* this is refuted.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Buffer, MaxPiece, MaxPieces, Flush

VARIABLES pieces, buf, dev, room, res, failed
vars == << pieces, buf, dev, room, res, failed >>

Sum[s \in Seq(Nat)] == IF s = << >> THEN 0 ELSE Head(s) + Sum[Tail(s)]
VARIABLE total

Init == /\ pieces \in UNION { [ 1..n -> 1..MaxPiece ] : n \in 0..MaxPieces }
        /\ total = Sum[pieces]
        /\ room \in 0..(MaxPiece * MaxPieces)      \* what the device takes before it fails
        /\ buf = 0 /\ dev = 0 /\ res = "?" /\ failed = FALSE

\* a piece that fits goes to the buffer
Put == /\ res = "?" /\ pieces # << >> /\ buf + Head(pieces) <= Buffer
       /\ buf' = buf + Head(pieces) /\ pieces' = Tail(pieces)
       /\ UNCHANGED << dev, room, res, failed, total >>

\* otherwise the buffer has to be emptied, or the piece written past it
Full == pieces # << >> /\ buf + Head(pieces) > Buffer
Direct == Full /\ buf = 0
MustDrain == res = "?" /\ (Full \/ (pieces = << >> /\ Flush)) /\ (buf > 0 \/ Direct)
DropDrain == res = "ok" /\ ~Flush /\ buf > 0

Take(n) == /\ n <= room /\ dev' = dev + n /\ room' = room - n
           /\ IF Direct THEN /\ n <= Head(pieces)
                             /\ pieces' = IF n = Head(pieces) THEN Tail(pieces) ELSE << Head(pieces) - n >> \o Tail(pieces)
                             /\ buf' = buf
                        ELSE n <= buf /\ buf' = buf - n /\ pieces' = pieces
           /\ UNCHANGED << res, failed, total >>
Drain == (MustDrain \/ DropDrain) /\ \E n \in 1..(MaxPiece * MaxPieces) : Take(n)
Break == MustDrain /\ room = 0 /\ failed' = TRUE /\ res' = "err" /\ UNCHANGED << pieces, buf, dev, room, total >>
\* the rest is lost silently
DropBreak == DropDrain /\ room = 0 /\ failed' = TRUE /\ buf' = 0 /\ UNCHANGED << pieces, dev, room, res, total >>
Finish == /\ res = "?" /\ pieces = << >> /\ (Flush => buf = 0) /\ res' = "ok"
          /\ UNCHANGED << pieces, buf, dev, room, failed, total >>
Next == Put \/ Drain \/ Break \/ DropBreak \/ Finish
Spec == Init /\ [][Next]_<< vars, total >> /\ WF_<< vars, total >>(Next)

Over == res = "err" \/ (res = "ok" /\ buf = 0)
SuccessIsComplete == (res = "ok" /\ Over) => dev = total
FailureIsReported == (failed /\ Over) => res = "err"
Ends == <>Over
=============================================================================
