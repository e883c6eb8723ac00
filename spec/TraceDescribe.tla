--------------------------- MODULE TraceDescribe ---------------------------
(***************************************************************************)
(* Validates, after every step of a history, what a DCSO filter says about *)
(* itself.  Events are those of TraceFilter, with desc in what is observed *)
(* (and desc for a filter of which only the metadata was loaded).          *)
(***************************************************************************)
EXTENDS Describe, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TInit == l = 1
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Zero(b) == \A i \in 1..8 : b[i] = 0 \/ (i = 8 /\ b[i] = 128)
\* between 0 and 1
Prob(b) == Zero(b) \/ (b[8] < 63) \/ (b[8] = 63 /\ b[7] < 240) \/ b = << 0, 0, 0, 0, 0, 0, 240, 63 >>

Sizes(d, o) ==
  Cl("number of bits", d.nbits = o.m)
  \cup Cl("number of positions per entry", d.nhash = o.k)
  \cup Cl("number of words", d.words = CeilDiv(o.m, 64) /\ 8 * d.words = o.size)
  \cup (IF o.m = 0 THEN {} ELSE
        Cl("the estimate is a probability", Prob(d.p))
        \cup Cl("without entries the estimate is zero", o.cnt = 0 => Zero(d.p))
        \cup Cl("the estimate is that of the entries",
                Computable(o.cnt, o.m) => IF Zero(d.p) THEN Leq(Estimate(o.cnt, o.m), Norm(1, -60))
                                          ELSE About(FromF64(d.p), Estimate(o.cnt, o.m), HashCount(o.m, o.cnt))))

Observed(o) ==
  IF "panic" \in DOMAIN o.desc THEN {"describing the filter panics"}
  ELSE Sizes(o.desc, o)
       \cup Cl("as many bits are listed as there are", o.desc.nlist = o.m)
       \cup Cl("the bits listed are the bits set", o.desc.bits = o.bits)

Partial(ev) ==
  IF ev.res # "ok" THEN {} ELSE
  IF "panic" \in DOMAIN ev.desc THEN {"describing a metadata-only load panics"}
  ELSE Cl("metadata-only load: same description", [ ev.desc EXCEPT !.bits = << >>, !.nlist = 0 ] = [ ev.post.desc EXCEPT !.bits = << >>, !.nlist = 0 ])

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op \in {"reset", "nocreate", "crash"} -> TRUE
       [] OTHER -> Good(IF ev.post.v # 1 THEN {} ELSE
                        Observed(ev.post) \cup (IF ev.op = "partial" /\ Observed(ev.post) = {} THEN Partial(ev) ELSE {})
                        \cup (IF "opost" \in DOMAIN ev /\ ev.opost.v = 1 THEN Observed(ev.opost) ELSE {}))
TSpec == TInit /\ [][TNext]_l
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
