----------------------------- MODULE TraceExact -----------------------------
(***************************************************************************)
(* Runs the operational model with the real hash functions and sizes next  *)
(* to a recorded trace: every outcome, every bit, every answer and every   *)
(* saved byte has to be the one the model gives.                           *)
(***************************************************************************)
EXTENDS Bloom, Sizing, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* number of the next event
          E,    \* the pool of entries (bytes)
          F,    \* slot -> filter of the model
          X     \* slot -> positions of the entries of the pool
tvars == << l, E, F, X >>

SlotIds == 0..7
None == [ none |-> TRUE ]

TInit == l = 1 /\ E = << >> /\ F = [ s \in SlotIds |-> None ] /\ X = [ s \in SlotIds |-> << >> ]

Runs(q) == UNION { q[2 * i - 1] .. q[2 * i] : i \in 1..(Len(q) \div 2) }

Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

NewFilter(c, k) ==
  LET y == Layout(c.v, c.cap, c.opt, c.fpp)
  IN  [ v |-> c.v, opt |-> IF c.v = 1 THEN 0 ELSE c.opt, fpp |-> c.fpp, cap |-> c.cap, k |-> k, m |-> y.m, nb |-> y.nb, cb |-> y.cb,
        bits |-> {}, cbits |-> {}, cnt |-> 0, data |-> << >> ]

Indices(f) == [ i \in DOMAIN E |-> Index(f, E[i]) ]

\* what an observation must say about filter f of the model
Agrees(f, x, o) ==
  Cl("parameters and layout", << o.v, o.opt, o.fpp, o.cap, o.k, o.m, o.nb, o.cb >> = Params(f))
  \cup Cl("set bits", Runs(o.bits) = f.bits)
  \cup Cl("cache bits", Runs(o.cbits) = f.cbits)
  \cup Cl("count", o.cnt = f.cnt)
  \cup Cl("answers to queries", ToSet(o.in) = { i \in DOMAIN x : Has(f, x[i]) })
  \cup Cl("length of the saved bytes", o.len = ImageLen(f))

\* the next filter of slot s is f, seen as o, and other things hold
Becomes(s, f, x, o, bad) ==
  /\ Good(bad \cup Agrees(f, x, o))
  /\ F' = [ F EXCEPT ![s] = f ] /\ X' = [ X EXCEPT ![s] = x ] /\ E' = E

\* a typed value: its hash is that of the pieces it feeds to the hasher
TypedIndex(f, pieces) ==
  IF f.cap = 0 \/ f.nb = 0 THEN NoIndex ELSE V2Index(f, WyPieces(pieces))

MergeStep(ev, Post(_, _, _), S(_, _)) ==
  LET f == F[ev.s]
      g == F[ev.o]
      ok == SameParams(f, g)
      e == IF ok THEN EstOf(f, S(f, g)) ELSE << 0, 0 >>
      h == IF ok THEN Post(f, g, ev.post.cnt) ELSE f
  IN  Becomes(ev.s, h, X[ev.s], ev.post,
              Cl("outcome", ev.res = IF ok THEN "ok" ELSE "Merge")
              \cup Cl("count", ok => e[1] <= ev.post.cnt /\ ev.post.cnt <= e[2]))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> E' = << >> /\ F' = [ s \in SlotIds |-> None ] /\ X' = [ s \in SlotIds |-> << >> ]
       [] ev.op = "entry" -> E' = Append(E, ev.b) /\ UNCHANGED << F, X >>
       [] ev.op \in {"nocreate", "crash"} -> Good({ "a valid operation ends in " \o ev.res }) /\ UNCHANGED << E, F, X >>
       [] ev.op = "create" ->
            LET y == Layout(ev.cfg.v, ev.cfg.cap, ev.cfg.opt, ev.cfg.fpp)
                k == ev.post.k
                f == NewFilter(ev.cfg, k)
            IN  IF ~(y.klo <= k /\ k <= y.khi)
                THEN Good({ "number of hash functions: " \o ToString(y) }) /\ UNCHANGED << E, F, X >>
                ELSE Becomes(ev.s, f, Indices(f), ev.post, {})
       [] ev.op = "insert" ->
            LET f == F[ev.s]
                ix == X[ev.s][ev.e]
            IN  Becomes(ev.s, InsertPost(f, ix), X[ev.s], ev.post, Cl("outcome", ev.res = InsertRes(f, ix)))
       [] ev.op = "contains" ->
            Becomes(ev.s, F[ev.s], X[ev.s], ev.post,
                    Cl("outcome", ev.res = IF Has(F[ev.s], X[ev.s][ev.e]) THEN "true" ELSE "false"))
       [] ev.op = "tinsert" ->
            LET f == F[ev.s]
                ix == TypedIndex(f, ev.pieces)
            IN  Becomes(ev.s, InsertPost(f, ix), X[ev.s], ev.post,
                        Cl("outcome", ev.res = InsertRes(f, ix)) \cup Cl("outcome with prepared hash", ev.res2 = ev.res)
                        \cup Cl("state with prepared hash", ev.same)
                        \cup Cl("found again", InsertRes(f, ix) # "TooMany" => ev.found = "true"))
       [] ev.op = "tcontains" ->
            LET r == IF Has(F[ev.s], TypedIndex(F[ev.s], ev.pieces)) THEN "true" ELSE "false"
            IN  Becomes(ev.s, F[ev.s], X[ev.s], ev.post,
                        Cl("outcome", ev.res = r) \cup Cl("outcome with prepared hash", ev.res2 = r))
       [] ev.op = "spent" ->
            Becomes(ev.s, F[ev.s], X[ev.s], ev.post,
                    Cl("an unprepared hash is refused", ev.res = "UninitIter" /\ ev.res2 = "UninitIter"))
       [] ev.op = "union" -> MergeStep(ev, UnionPost, UnionBits)
       [] ev.op = "inter" -> MergeStep(ev, InterPost, InterBits)
       [] ev.op = "clear" -> Becomes(ev.s, Fresh(F[ev.s]), X[ev.s], ev.post, {})
       [] ev.op = "load"  -> Becomes(ev.s, F[ev.s], X[ev.s], ev.post, Cl("outcome", ev.res = "ok"))
       [] ev.op = "setdata" -> Becomes(ev.s, [ F[ev.s] EXCEPT !.data = ev.b ], X[ev.s], ev.post, {})
       [] ev.op = "clone" ->
            /\ Good(Agrees(F[ev.s], X[ev.s], ev.opost))
            /\ F' = [ F EXCEPT ![ev.o] = F[ev.s] ] /\ X' = [ X EXCEPT ![ev.o] = X[ev.s] ] /\ E' = E
       [] ev.op = "image" ->
            LET f == F[ev.s] IN
            /\ Good(Cl("header bytes", HeaderIs(ev.hdr, f))
                    \cup Cl("saved bytes", { << q[1], q[2] >> : q \in ToSet(ev.nz) } = Body(f))
                    \cup Cl("length of the saved bytes", ev.len = ImageLen(f)))
            /\ UNCHANGED << E, F, X >>

TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
