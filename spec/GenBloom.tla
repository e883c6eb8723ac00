------------------------------ MODULE GenBloom ------------------------------
(***************************************************************************)
(* Behaviours of MCBloom projected to their operations, as scripts for the *)
(* harness.  Run with TLC in simulation mode; each behaviour of length     *)
(* Depth is printed as one JSON line.                                      *)
(***************************************************************************)
EXTENDS MCBloom, Json

CONSTANTS Depth, Ops

VARIABLES hist, done

GInit == Init /\ done = FALSE /\ hist = << [ op |-> "create", s |-> 1, c |-> 1 ], [ op |-> "create", s |-> 2, c |-> 1 ],
                           [ op |-> "create", s |-> 3, c |-> 2 ] >>

Log(r) == r.op \in Ops /\ hist' = Append(hist, r)

\* TLC evaluates invariants on every successor it considers; a last step with
\* a single successor makes each behaviour be printed once
Stop == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << vars, hist >>

GNext ==
  /\ UNCHANGED << hash, conf, done >>
  /\ Len(hist) < Depth
  /\ \E s \in Slots :
       \/ \E e \in Entries : Insert(s, e) /\ Log([ op |-> "insert", s |-> s, e |-> e ])
       \/ \E e \in Entries : Query(s, e) /\ Log([ op |-> "contains", s |-> s, e |-> e ])
       \/ \E o \in Slots \ {s} :
            \/ Union(s, o) /\ Log([ op |-> "union", s |-> s, o |-> o ])
            \/ Inter(s, o) /\ Log([ op |-> "inter", s |-> s, o |-> o ])
            \/ Common(s, o) /\ Log([ op |-> "common", s |-> s, o |-> o ])
            \/ Clone(s, o) /\ Log([ op |-> "clone", s |-> s, o |-> o ])
       \/ \E c \in 1..2 : Create(s, c) /\ Log([ op |-> "create", s |-> s, c |-> c ])
       \/ Clear(s) /\ Log([ op |-> "clear", s |-> s ])
       \/ Load(s) /\ Log([ op |-> "load", s |-> s ])
       \/ Partial(s) /\ Log([ op |-> "partial", s |-> s ])
       \/ Partial(s) /\ Log([ op |-> "save", s |-> s ])
       \/ SetData(s) /\ Log([ op |-> "setdata", s |-> s, d |-> Len(hist) % 5 ])

GSpec == GInit /\ [][GNext \/ Stop]_<< vars, hist, done >>

Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
