------------------------------ MODULE TraceBits ------------------------------
(* Validates what was observed of real bit sets, step by step.             *)
EXTENDS BitSets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, a
tvars == << l, a >>
Slots == {1, 2}
TInit == l = 1 /\ a = [ s \in Slots |-> Empty(0) ]

Runs(q) == UNION { q[2 * i - 1] .. q[2 * i] : i \in 1..(Len(q) \div 2) }
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

\* observation o of abstract bit set b
Sees(b, o) ==
  Cl("members as reported bit by bit", Runs(o.get) = b.s)
  \cup Cl("members in the bytes", Runs(o.bytes) = b.s)
  \cup Cl("count of ones", o.ones = Cardinality(b.s))
  \cup Cl("count of zeros", o.zeros = b.n - Cardinality(b.s))
  \cup Cl("whether there is room for any bit", o.empty = (b.n = 0))
  \cup Cl("size", o.bits = b.n /\ o.bytelen * 8 = b.n)

\* bits are allocated by whole bytes
Round8(n) == 8 * ((n + 7) \div 8)

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> a' = [ s \in Slots |-> Empty(0) ]
       [] ev.op = "crash" -> Good({ ev.res }) /\ a' = a
       [] ev.op = "new" -> LET b == [ n |-> Round8(ev.n), s |-> Runs(ev.init) ]
                           IN  Good(Sees(b, ev.post)) /\ a' = [ a EXCEPT ![ev.s] = b ]
       [] OTHER ->
            LET b == IF ev.op = "put" THEN Written(8, a[ev.s], ev.i, ev.val)
                     ELSE Post(ev.op, a[ev.s], a[ev.o], ev.i)
            IN  /\ Good(Cl("outcome", ev.res = Outcome(ev.op, a[ev.s], a[ev.o], ev.i))
                        \cup Sees(b, ev.post)
                        \cup (IF ev.s # ev.o THEN { "other: " \o c : c \in Sees(a[ev.o], ev.opost) } ELSE {}))
                /\ a' = [ a EXCEPT ![ev.s] = b ]
TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
