------------------------------ MODULE GenBits ------------------------------
(* Behaviours of two abstract bit sets, printed as scripts.                *)
EXTENDS BitSets, Json

CONSTANTS Idx, Depth
VARIABLES a, script, done
gvars == << a, script, done >>

Slots == {1, 2}
Ops == {"set", "unset", "get", "union", "inter", "common", "clear", "clone", "put"}
N == 6

GInit == a = [ s \in Slots |-> Empty(N) ] /\ script = << >> /\ done = FALSE
GStep ==
  /\ Len(script) < Depth
  /\ \E s, o \in Slots, op \in Ops, i \in Idx :
       /\ op \in {"clone"} => s # o
       /\ op \in {"clear", "clone"} => i = 1
       /\ a' = [ a EXCEPT ![s] = Post(op, a[s], a[o], i) ]
       /\ script' = Append(script, [ op |-> op, s |-> s, o |-> o, i |-> i ])
       /\ done' = FALSE
GStop == Len(script) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED << a, script >>
GSpec == GInit /\ [][GStep \/ GStop]_gvars
Emit == done => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
