---------------------------- MODULE ProofWriter ----------------------------
(***************************************************************************)
(* Saving through a buffer (see MCWriter), proved with TLAPS for any bytes *)
(* in any pieces, any size of the buffer and any device: if saving reports *)
(* success, the device has been handed every byte, in order, and a failure *)
(* of the device is never passed over.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequenceTheorems, TLAPS

CONSTANTS Byte, all
ASSUME Bytes == all \in Seq(Byte)

VARIABLES rest, buf, dev, res, failed
vars == << rest, buf, dev, res, failed >>

Init == rest = all /\ buf = << >> /\ dev = << >> /\ res = "?" /\ failed = FALSE
\* bytes go to the buffer,
Put(x, y) == /\ res = "?" /\ rest = x \o y
             /\ buf' = buf \o x /\ rest' = y /\ UNCHANGED << dev, res, failed >>
\* from the buffer to the device, as many at a time as it takes,
Drain(x, y) == /\ res = "?" /\ buf = x \o y
               /\ dev' = dev \o x /\ buf' = y /\ UNCHANGED << rest, res, failed >>
\* or past the empty buffer
Direct(x, y) == /\ res = "?" /\ buf = << >> /\ rest = x \o y
                /\ dev' = dev \o x /\ rest' = y /\ UNCHANGED << buf, res, failed >>
Break == res = "?" /\ failed' = TRUE /\ res' = "err" /\ UNCHANGED << rest, buf, dev >>
\* success is reported when the buffer has been flushed
Finish == /\ res = "?" /\ rest = << >> /\ buf = << >> /\ res' = "ok"
          /\ UNCHANGED << rest, buf, dev, failed >>
Next == Break \/ Finish \/ \E x, y \in Seq(Byte) : Put(x, y) \/ Drain(x, y) \/ Direct(x, y)
Spec == Init /\ [][Next]_vars

Inv ==
  /\ rest \in Seq(Byte) /\ buf \in Seq(Byte) /\ dev \in Seq(Byte)
  /\ res \in {"?", "ok", "err"} /\ failed \in BOOLEAN
  /\ (dev \o buf) \o rest = all
  /\ res = "ok" => rest = << >> /\ buf = << >>
  /\ failed => res = "err"

LEMMA Assoc == ASSUME NEW a \in Seq(Byte), NEW b \in Seq(Byte), NEW c \in Seq(Byte)
               PROVE  (a \o b) \o c = a \o (b \o c) /\ a \o b \in Seq(Byte)
BY ConcatAssociative

LEMMA Empty == ASSUME NEW a \in Seq(Byte) PROVE a \o << >> = a /\ << >> \o a = a
BY ConcatEmptySeq

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv BY Bytes, Empty DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Inv
  <2>2. CASE Break BY <2>2 DEF Break, Inv
  <2>3. CASE Finish BY <2>3 DEF Finish, Inv
  <2>4. ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), Put(x, y) PROVE Inv'
    <3>1. (dev' \o buf') \o rest' = (dev \o (buf \o x)) \o y BY <2>4 DEF Put
    <3>2. dev \o (buf \o x) = (dev \o buf) \o x BY Assoc DEF Inv
    <3>3. ((dev \o buf) \o x) \o y = (dev \o buf) \o (x \o y)
      <4>1. dev \o buf \in Seq(Byte) BY DEF Inv
      <4> QED BY <4>1, Assoc
    <3>4. buf \o x \in Seq(Byte) BY DEF Inv
    <3> QED BY <2>4, <3>1, <3>2, <3>3, <3>4 DEF Put, Inv
  <2>5. ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), Drain(x, y) PROVE Inv'
    <3>1. (dev' \o buf') \o rest' = ((dev \o x) \o y) \o rest BY <2>5 DEF Drain
    <3>2. (dev \o x) \o y = dev \o (x \o y) BY Assoc DEF Inv
    <3>3. dev \o x \in Seq(Byte) BY DEF Inv
    <3> QED BY <2>5, <3>1, <3>2, <3>3 DEF Drain, Inv
  <2>6. ASSUME NEW x \in Seq(Byte), NEW y \in Seq(Byte), Direct(x, y) PROVE Inv'
    <3>0. buf = << >> /\ dev \in Seq(Byte) /\ dev \o x \in Seq(Byte) BY <2>6 DEF Direct, Inv
    <3>1. dev' \o buf' = dev \o x BY <2>6, <3>0, Empty DEF Direct
    <3>2. dev \o buf = dev BY <3>0, Empty
    <3>3. (dev \o x) \o y = dev \o (x \o y) BY <3>0, Assoc
    <3> QED BY <2>6, <3>0, <3>1, <3>2, <3>3 DEF Direct, Inv
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

SuccessIsComplete == res = "ok" => dev = all
FailureIsReported == failed => res = "err"

THEOREM Correct == Spec => [](SuccessIsComplete /\ FailureIsReported)
<1>1. Inv => SuccessIsComplete /\ FailureIsReported
  BY Empty DEF Inv, SuccessIsComplete, FailureIsReported
<1> QED BY <1>1, Invariant, PTL
=============================================================================
