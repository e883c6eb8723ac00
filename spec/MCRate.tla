------------------------------- MODULE MCRate -------------------------------
(***************************************************************************)
(* Does the layout of a new filter keep the promised rate?  For levels 0   *)
(* and 1 it does.  The number of positions chosen for levels 2 and 3, with *)
(* a cache, is too small for some capacities and probabilities: these are  *)
(* printed (see known-findings.txt).  That the code has this layout is the *)
(* matter of TraceExact, that filters with this layout have this rate the  *)
(* matter of TraceRate.                                                    *)
(***************************************************************************)
EXTENDS Rate, Json
CONSTANTS Caps, Overfull    \* Overfull: entries too many, in parts of a hundred

Probs == { p \in DOMAIN PTable : PTable[p].bytes[8] >= 62 /\ p # "3e112e0be826d695" }   \* 1e-6 and above

VARIABLES cap, opt, p
vars == << cap, opt, p >>
Init == cap \in Caps /\ opt \in 0..3 /\ p \in Probs
Spec == Init /\ [][FALSE]_vars

Margin(q) == Times(FromF64(PTable[q].bytes), << 18022, -14 >>)     \* 1.1
Kept == Leq(Expected(cap, opt, p), Margin(p))
KeptPlain == opt \in {0, 1} => Kept
\* not so when there are more entries than the capacity
KeptOverfull ==
  LET f == V2Layout(cap, 0, p)
      n == CeilDiv(cap + (Overfull * cap) \div 100, f.nb)
  IN  Leq(Power(SetShare(n, f.klo, BUCKET_BITS), f.klo), Promise(p))
Emit == Kept \/ PrintT("SCRIPT " \o ToJson([ cap |-> cap, opt |-> opt, p |-> p ]))
=============================================================================
