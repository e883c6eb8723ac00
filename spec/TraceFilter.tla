---------------------------- MODULE TraceFilter ----------------------------
(***************************************************************************)
(* Validates steps recorded from the real code against the contract.       *)
(*                                                                         *)
(* The trace (ndjson, environment variable TRACE) is a concatenation of    *)
(* scenarios, each started by a "reset" event.  Every other event is one   *)
(* step; it carries what was observed after it.  What was observed before  *)
(* is what the previous step on the same filter left behind.  A step that  *)
(* breaks a clause of property PROP is not a step of this specification:   *)
(* its number and the clauses are printed and the behaviour ends there.    *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,   \* number of the next event
          F,   \* slot -> last observation
          M,   \* slot -> entries of the pool that must be contained
          R    \* slot -> ranges of generated entries that must be contained
tvars == << l, F, M, R >>

SlotIds == 0..7

Runs(q) == UNION { q[2 * i - 1] .. q[2 * i] : i \in 1..(Len(q) \div 2) }

ToObs(j) == [ j EXCEPT !.bits = Runs(j.bits), !.cbits = Runs(j.cbits), !.in = ToSet(j.in) ]

None == [ none |-> TRUE ]

TInit == l = 1 /\ F = [ s \in SlotIds |-> None ] /\ M = [ s \in SlotIds |-> {} ] /\ R = [ s \in SlotIds |-> {} ]

Known(s, from, n, len) ==
  \A i \in {from, from + n - 1} \cup { r[1] + r[2] : r \in { q \in R[s] : q[1] + q[2] < from + n /\ q[1] + q[2] > from } } :
    \E r \in R[s] : r[3] = len /\ r[1] <= i /\ i < r[1] + r[2]

StepOf(ev) ==
  LET s    == ev.s
      base == [ op |-> ev.op, s |-> s, res |-> ev.res, pre |-> F[s], post |-> ToObs(ev.post), mem |-> M[s] ]
  IN
  CASE ev.op = "create"   -> [ base EXCEPT !.pre = base.post, !.mem = {} ]
    [] ev.op = "forge"    -> [ base EXCEPT !.pre = base.post, !.mem = {} ]
    [] ev.op = "insert"   -> IF "ref" \in DOMAIN ev
                             THEN base @@ [ e |-> ev.e, ref |-> ToObs(ev.ref), refres |-> ev.refres ]
                             ELSE base @@ [ e |-> ev.e ]
    [] ev.op = "contains" -> base @@ [ e |-> ev.e ]
    [] ev.op \in {"union", "inter"} ->
         base @@ [ o |-> ev.o, opre |-> F[ev.o], opost |-> ToObs(ev.opost), omem |-> M[ev.o] ]
    [] ev.op = "common"   -> base @@ [ o |-> ev.o, opre |-> F[ev.o], opost |-> ToObs(ev.opost),
                                       omem |-> M[ev.o], n |-> ev.n, n2 |-> ev.n2 ]
    [] ev.op = "clear"    -> base @@ [ fresh |-> ToObs(ev.fresh), tw1 |-> ev.tw1, tw2 |-> ev.tw2 ]
    [] ev.op = "clone"    -> base @@ [ o |-> ev.o, copy |-> ToObs(ev.opost) ]
    [] ev.op = "load"     -> base @@ [ tw1 |-> ev.tw1, tw2 |-> ev.tw2, alike |-> ev.alike ]
    [] ev.op = "partial"  -> base @@ [ meta |-> ev.meta ]
    [] ev.op = "save"     -> base @@ [ img |-> ev.img ]
    [] ev.op = "setdata"  -> base
    [] ev.op = "image"    -> base
    [] ev.op = "bulk"     -> base @@ [ n |-> ev.n, new |-> ev.new, fpnew |-> ev.fpnew, dup |-> ev.dup, lost |-> ev.lost,
                                       refused |-> ev.refused, bad |-> ev.bad, at |-> ev.at, acc |-> ev.acc ]
    [] ev.op = "sweep"    -> base @@ [ known |-> Known(s, ev.from, ev.n, ev.len), missing |-> ev.missing ]

Ranges(st, ev) ==
  CASE st.op \in {"create", "clear", "forge"} -> {}
    [] st.op = "bulk" -> R[st.s] \cup (IF st.acc > 0 THEN { << ev.from, ev.acc, ev.len >> } ELSE {})
    [] st.op = "union" /\ st.res = "ok" -> R[st.s] \cup R[ev.o]
    [] st.op = "inter" /\ st.res = "ok" -> R[st.s] \cap R[ev.o]
    [] OTHER -> R[st.s]

\* what the last event broke, if anything, is printed; such a step is not taken
Good(bad, ev) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" ->
            /\ F' = [ s \in SlotIds |-> None ] /\ M' = [ s \in SlotIds |-> {} ] /\ R' = [ s \in SlotIds |-> {} ]
       [] ev.op \in {"nocreate", "crash"} -> Good({ "a valid operation ends in " \o ev.res }, ev) /\ UNCHANGED << F, M, R >>
       [] OTHER ->
            LET st == StepOf(ev) IN
            /\ Good(Broken(Prop, st), ev)
            /\ F' = IF ev.op = "clone" THEN [ F EXCEPT ![ev.s] = st.post, ![ev.o] = st.copy ]
                    ELSE IF ev.op \in {"union", "inter", "common"}
                    THEN [ F EXCEPT ![ev.s] = st.post, ![ev.o] = st.opost ]
                    ELSE [ F EXCEPT ![ev.s] = st.post ]
            /\ M' = IF ev.op = "clone" THEN [ M EXCEPT ![ev.o] = M[ev.s] ]
                    ELSE [ M EXCEPT ![ev.s] = MembersAfter(st) ]
            /\ R' = IF ev.op = "clone" THEN [ R EXCEPT ![ev.o] = R[ev.s] ]
                    ELSE [ R EXCEPT ![ev.s] = Ranges(st, ev) ]

TSpec == TInit /\ [][TNext]_tvars

Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
