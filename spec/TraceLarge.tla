----------------------------- MODULE TraceLarge -----------------------------
(***************************************************************************)
(* Validates histories of filters too large for looking at every bit.      *)
(* What is saved is observed as a header and the bytes that are not zero.  *)
(* C09 runs the model of module Large next to the trace, the others only   *)
(* compare observations.                                                   *)
(***************************************************************************)
EXTENDS Large, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Exact == Prop = "C09"

VARIABLES l,    \* number of the next event
          E,    \* the pool of entries (bytes)
          F,    \* slot -> filter of the model
          X,    \* slot -> positions of the entries of the pool
          O,    \* slot -> last observation
          N,    \* slot -> observation when new
          M     \* slot -> entries that must be contained
tvars == << l, E, F, X, O, N, M >>

SlotIds == 0..7
None == [ none |-> TRUE ]
All(v) == [ s \in SlotIds |-> v ]
TInit == l = 1 /\ E = << >> /\ F = All(None) /\ X = All(<< >>) /\ O = All(None) /\ N = All(None) /\ M = All({})

Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(p, name, ok) == IF p # Prop \/ ok THEN {} ELSE {name}

BitsOf(nz) == UNION { { << SubSeq(q, 1, 8), j >> : j \in { i \in 0..7 : (q[9] \div 2 ^ i) % 2 = 1 } } : q \in ToSet(nz) }
Bits(o) == BitsOf(o.nz)

\* what an observation must say about filter f of the model
Agrees(f, x, o) ==
  Cl("C09", "header bytes", o.hdr = HeaderL(f))
  \cup Cl("C09", "saved bytes", Bits(o) = BodyL(f))
  \cup Cl("C09", "where the data starts", o.end = EndAt(f))
  \cup Cl("C09", "answers to queries", ToSet(o.in) = { i \in DOMAIN x : Has(f, x[i]) })
  \cup Cl("C09", "reported values", o.v = f.v /\ o.cap = f.cap8 /\ o.size = SizeL(f) /\ o.cnt = f.cnt)

Sound(o, mem) ==
  Cl("C01", "accepted entries are contained", mem \subseteq ToSet(o.in))
  \cup Cl("C13", "the size is that of the saved bits", o.size = Sub64(o.end, FromNat(IF o.v = 1 THEN 48 ELSE 56)) /\ ~Geq64(o.end, Add64(o.len, One64)))
  \cup Cl("C03", "it is full exactly when the count has reached the capacity", o.full = Geq64(FromNat(o.cnt), o.cap))
  \cup Cl(Prop, "queries do not panic", ~o.pan)
  \cup Cl(Prop, "the filter can be saved", Len(o.hdr) = 48)

\* slot s becomes filter f of the model, seen as o
Becomes(s, f, o, mem, bad) ==
  /\ Good(bad \cup Sound(o, mem) \cup IF Exact THEN Agrees(f, X'[s], o) ELSE {})
  /\ F' = [ F EXCEPT ![s] = f ] /\ O' = [ O EXCEPT ![s] = o ] /\ M' = [ M EXCEPT ![s] = mem ] /\ E' = E

Inserts(f, x, es) ==
  FoldLeft(LAMBDA acc, e : << InsertPost(acc[1], x[e]), Append(acc[2], InsertRes(acc[1], x[e])) >>, << f, << >> >>, es)

Accepted(ev) == { ev.es[i] : i \in { j \in DOMAIN ev.es : ev.res[j] \in {"true", "false"} } }

\* the same parameters, as far as they are saved: all of the header but the count
SameHead(a, b) == \A i \in 1..48 : i \in (IF a.hdr[1] = 1 THEN 41..48 ELSE 33..40) \/ a.hdr[i] = b.hdr[i]

Merge(ev, set, p, what) ==
  LET s == ev.s  o == ev.o  f == F[s]  g == F[o]
      same == SameHead(O[s], O[o])
      S == IF Exact THEN (IF p = "C05" THEN UnionBits(f, g) ELSE InterBits(f, g)) ELSE {}
      est == IF Exact /\ same THEN EstL(f, S) ELSE << 0, 0 >>
      h == IF Exact /\ same THEN (IF p = "C05" THEN UnionPost(f, g, ev.post.cnt) ELSE InterPost(f, g, ev.post.cnt)) ELSE f
  IN  Becomes(s, h, ev.post, IF ~same THEN M[s] ELSE IF p = "C05" THEN M[s] \cup M[o] ELSE M[s] \cap M[o],
              Cl(p, "outcome", ev.res = IF same THEN "ok" ELSE "Merge")
              \cup Cl(p, what, same => Bits(ev.post) = set /\ SameHead(ev.post, O[s]) /\ ev.post.data = O[s].data)
              \cup Cl("C09", "outcome", ev.res = IF same THEN "ok" ELSE "Merge")
              \cup Cl("C09", "count", same => est[1] <= ev.post.cnt /\ ev.post.cnt <= est[2]))

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> E' = << >> /\ F' = All(None) /\ X' = All(<< >>) /\ O' = All(None) /\ N' = All(None) /\ M' = All({})
       [] ev.op = "entry" -> E' = Append(E, ev.b) /\ UNCHANGED << F, X, O, N, M >>
       [] ev.op \in {"nocreate", "crash"} -> Good({ "a valid operation ends in " \o ev.res }) /\ UNCHANGED << E, F, X, O, N, M >>
       [] ev.op = "create" ->
            LET c == ev.cfg
                y == LayoutL(c.v, ev.cap8, c.opt, c.fpp)
                k == ToNat(SubSeq(ev.post.hdr, 25, 32))
                f == IF Exact THEN NewL(c.v, ev.cap8, c.opt, c.fpp, k) ELSE None
            IN  IF Exact /\ ~(y.klo <= k /\ k <= y.khi)
                THEN Good({ "number of hash functions: " \o ToString(y) }) /\ UNCHANGED << E, F, X, O, N, M >>
                ELSE /\ X' = [ X EXCEPT ![ev.s] = IF Exact THEN [ i \in DOMAIN E |-> IndexL(f, E[i]) ] ELSE << >> ]
                     /\ N' = [ N EXCEPT ![ev.s] = ev.post ]
                     /\ Becomes(ev.s, f, ev.post, {},
                                Cl("C13", "version, capacity and probability are reported", ev.post.v = c.v /\ ev.post.cap = ev.cap8 /\ ev.post.hdr[1] = c.v
                                          /\ SubSeq(ev.post.hdr, 9, 16) = ev.cap8)
                                \cup Cl("C13", "it starts empty", ev.post.cnt = 0 /\ ev.post.in = << >>))
       [] ev.op = "ghost" ->
            \* the metadata of a file of which not all is there
            /\ Assert(ev.end = HeadEnd(ev.hdr, ev.nb), "the driver announces something else")
            /\ UNCHANGED << E, F, X, O, N, M >>
            /\ LET g == ev.got  h == ev.hdr IN
               Good(Cl(Prop, "the metadata can be loaded", ev.res = "ok")
                    \cup IF ev.res # "ok" THEN {} ELSE
                         Cl("C08", "the metadata is as saved", g.v = h[1] /\ g.cap = At(h, 8) /\ g.fpp = At(h, 16) /\ g.cnt = HeadCount(h) /\ g.data)
                         \cup Cl("C13", "the size is that of the saved bits", g.size = HeadSize(h, ev.nb))
                         \cup Cl("C03", "it is full exactly when the count has reached the capacity", g.full = Geq64(HeadCount(h), At(h, 8)))
                         \cup Cl("C09", "the metadata is where the format has it",
                                  g.v = h[1] /\ g.cap = At(h, 8) /\ g.fpp = At(h, 16) /\ g.cnt = HeadCount(h) /\ g.size = HeadSize(h, ev.nb) /\ g.data))
       [] ev.op = "clone" ->
            /\ X' = [ X EXCEPT ![ev.o] = X[ev.s] ] /\ N' = [ N EXCEPT ![ev.o] = N[ev.s] ]
            /\ Becomes(ev.o, F[ev.s], ev.opost, M[ev.s], Cl("C09", "copies are equal", ev.opost = O[ev.s] /\ ev.post = O[ev.s]))
       [] OTHER ->
            /\ UNCHANGED << X, N >>
            /\ CASE ev.op = "inserts" ->
                      LET r == IF Exact THEN Inserts(F[ev.s], X[ev.s], ev.es) ELSE << None, << >> >>
                      IN  Becomes(ev.s, r[1], ev.post, M[ev.s] \cup Accepted(ev), Cl("C09", "outcome", ev.res = r[2])
                                  \cup Cl("C03", "below capacity nothing is refused", ~Geq64(FromNat(ev.post.cnt), ev.post.cap) => \A i \in DOMAIN ev.res : ev.res[i] \in {"true", "false"}))
                 [] ev.op = "union" -> Merge(ev, Bits(O[ev.s]) \cup Bits(O[ev.o]), "C05", "the union has the bits of both")
                 [] ev.op = "inter" -> Merge(ev, Bits(O[ev.s]) \cap Bits(O[ev.o]), "C06", "the intersection has the common bits")
                 [] ev.op = "clear" ->
                      Becomes(ev.s, IF Exact THEN Fresh(F[ev.s]) ELSE None, ev.post, {},
                              Cl("C07", "cleared it is as new", ev.res = "ok" /\ [ ev.post EXCEPT !.data = "", !.len = << >> ] = [ N[ev.s] EXCEPT !.data = "", !.len = << >> ]))
                 [] ev.op = "setdata" -> Becomes(ev.s, F[ev.s], ev.post, M[ev.s], {})
                 [] ev.op = "load" -> Becomes(ev.s, F[ev.s], ev.post, M[ev.s], Cl("C08", "loaded it is as saved", ev.res = "ok" /\ ev.post = O[ev.s]))
                 [] ev.op = "partial" ->
                      Becomes(ev.s, F[ev.s], ev.post, M[ev.s], Cl("C08", "the metadata is as saved", ev.res = "ok" /\ ev.same) \cup Cl("C13", "the metadata is as saved", ev.res = "ok" /\ ev.same) \cup Cl("C08", "saving changes nothing", ev.post = O[ev.s]))

TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
