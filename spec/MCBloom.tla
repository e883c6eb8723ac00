------------------------------ MODULE MCBloom ------------------------------
(***************************************************************************)
(* The operational model of a few filters under every hash function of a   *)
(* small scope.  Every step taken is checked against every clause of       *)
(* module Contract, so TLC establishes that the model meets the contract   *)
(* (and that the clauses are satisfiable together).  Behaviours of this    *)
(* model, projected to the operations, are what is replayed on the code    *)
(* (GenBloom).                                                             *)
(***************************************************************************)
EXTENDS Contract

CONSTANTS Entries,   \* entries, 1..n
          Slots,     \* filters, 1..n
          Regions,   \* number of regions
          RegionBits,\* bits per region
          K,         \* positions per entry
          CacheBits, \* cache sizes to consider (0 = none)
          Caps,      \* capacities to consider
          MaxCnt,    \* bound on counts (estimates saturate there)
          Datas,     \* attached data, "none" or more
          Check      \* the properties whose clauses are evaluated

VARIABLES hash,   \* entry -> [pos, c]
          conf,   \* the two parameter sets in use
          filt,   \* slot -> filter
          mem     \* slot -> entries inserted

vars == << hash, conf, filt, mem >>

Hashes(cb) ==
  { [ pos |-> [ i \in 1..K |-> r * RegionBits + p[i] ], c |-> c ] :
      r \in 0..(Regions - 1), p \in [ 1..K -> 0..(RegionBits - 1) ],
      c \in 0..(IF cb = 0 THEN 0 ELSE cb - 1) }

NewFilter(cf) ==
  [ v |-> 2, opt |-> cf.opt, fpp |-> "p", cap |-> cf.cap, k |-> K,
    m |-> RegionBits, nb |-> IF cf.cap = 0 THEN 0 ELSE Regions, cb |-> cf.cb,
    bits |-> {}, cbits |-> {}, cnt |-> 0, data |-> "none" ]

\* what a user sees of a filter
Obs(f) ==
  f @@ [ full |-> Full(f), in |-> { e \in Entries : Has(f, hash[e]) },
         img |-> f, pimg |-> [ f EXCEPT !.data = "none" ],
         size |-> f.nb * f.m + f.cb, acap |-> f.cap, afpp |-> f.fpp, aver |-> f.v ]

\* what becomes of a filter when all entries are inserted in turn
Afterwards(f) ==
  FoldLeft(LAMBDA acc, e : << InsertPost(acc[1], hash[e]), Append(acc[2], InsertRes(acc[1], hash[e])) >>,
           << [ f EXCEPT !.data = "none" ], << >> >>, SetToSeq(Entries))

Meets(st) ==
  Assert(\A p \in Check : Broken(p, st) = {},
         << "broken", [ p \in Check |-> Broken(p, st) ], st >>)

Init ==
  /\ \E cap \in Caps, cb \in CacheBits :
       /\ conf = << [ cap |-> cap, cb |-> cb, opt |-> 0 ], [ cap |-> cap, cb |-> cb, opt |-> 1 ] >>
       /\ hash \in [ Entries -> Hashes(cb) ]
  /\ filt = [ s \in Slots |-> NewFilter(conf[1]) ]
  /\ mem = [ s \in Slots |-> {} ]

Counts(f, S) == LET r == EstOf(f, S) IN { IF c > MaxCnt THEN MaxCnt ELSE c : c \in {r[1], r[2]} }

\* with a bounded count the estimate clause is evaluated on the exact value
MeetsBut(st) ==
  Assert(\A p \in Check \ {"C19"} : Broken(p, st) = {},
         << "broken", [ p \in Check |-> Broken(p, st) ], st >>)

Create(s, c) ==
  /\ filt[s].cnt + Cardinality(filt[s].bits) > 0 \/ Params(filt[s]) # Params(NewFilter(conf[c]))
  /\ filt' = [ filt EXCEPT ![s] = NewFilter(conf[c]) ]
  /\ mem' = [ mem EXCEPT ![s] = {} ]
  /\ Meets([ op |-> "create", res |-> "ok", pre |-> Obs(filt'[s]), post |-> Obs(filt'[s]), mem |-> {} ])

Insert(s, e) ==
  LET f  == filt[s]
      g  == InsertPost(f, hash[e])
      r  == InsertRes(f, hash[e])
      st == [ op |-> "insert", s |-> s, e |-> e, res |-> r, pre |-> Obs(f), post |-> Obs(g),
              mem |-> mem[s], ref |-> Obs(g), refres |-> r ]
  IN  /\ filt' = [ filt EXCEPT ![s] = g ]
      /\ mem' = [ mem EXCEPT ![s] = MembersAfter(st) ]
      /\ Meets(st)
      /\ Assert(StepsAgree(f, hash[e]), << "bit by bit insertion differs", f, hash[e] >>)

Query(s, e) ==
  /\ UNCHANGED << filt, mem >>
  /\ Meets([ op |-> "contains", e |-> e, res |-> IF Has(filt[s], hash[e]) THEN "true" ELSE "false",
             pre |-> Obs(filt[s]), post |-> Obs(filt[s]), mem |-> mem[s] ])

Merge(op, s, o, Post(_, _, _), S(_, _)) ==
  LET f == filt[s]
      g == filt[o]
      ok == SameParams(f, g)
  IN  \E c \in (IF ok THEN Counts(f, S(f, g)) ELSE {0}) :
        LET h  == IF ok THEN Post(f, g, c) ELSE f
            st == [ op |-> op, s |-> s, o |-> o, res |-> IF ok THEN "ok" ELSE "Merge",
                    pre |-> Obs(f), post |-> Obs(h), opre |-> Obs(g), opost |-> Obs(g),
                    mem |-> mem[s], omem |-> mem[o] ]
        IN  /\ filt' = [ filt EXCEPT ![s] = h ]
            /\ mem' = [ mem EXCEPT ![s] = MembersAfter(st) ]
            /\ IF c = MaxCnt THEN MeetsBut(st) ELSE Meets(st)

Union(s, o) == Merge("union", s, o, UnionPost, UnionBits)
Inter(s, o) == Merge("inter", s, o, InterPost, InterBits)

Common(s, o) ==
  LET ok == SameParams(filt[s], filt[o])
      n  == EstOf(filt[s], InterBits(filt[s], filt[o]))[1]
      n2 == EstOf(filt[o], InterBits(filt[o], filt[s]))[1]
  IN  /\ UNCHANGED << filt, mem >>
      /\ Meets([ op |-> "common", res |-> IF ok THEN "ok" ELSE "Merge", n |-> n, n2 |-> n2,
                 pre |-> Obs(filt[s]), post |-> Obs(filt[s]),
                 opre |-> Obs(filt[o]), opost |-> Obs(filt[o]), mem |-> mem[s], omem |-> mem[o] ])

Clear(s) ==
  LET f == filt[s]
      g == Fresh(f)
  IN  /\ filt' = [ filt EXCEPT ![s] = g ]
      /\ mem' = [ mem EXCEPT ![s] = {} ]
      /\ Meets([ op |-> "clear", res |-> "ok", pre |-> Obs(f), post |-> Obs(g),
                 fresh |-> Obs([ NewFilter(conf[1]) EXCEPT !.opt = f.opt ]), mem |-> mem[s],
                 tw1 |-> Afterwards(g), tw2 |-> Afterwards([ NewFilter(conf[1]) EXCEPT !.opt = f.opt ]) ])

Clone(s, o) ==
  /\ filt' = [ filt EXCEPT ![o] = filt[s] ]
  /\ mem' = [ mem EXCEPT ![o] = mem[s] ]
  /\ Meets([ op |-> "clone", res |-> "ok", copy |-> Obs(filt'[o]), pre |-> Obs(filt[s]), post |-> Obs(filt[s]), mem |-> mem[s] ])

Load(s) ==
  /\ UNCHANGED << filt, mem >>
  /\ Meets([ op |-> "load", res |-> "ok", tw1 |-> Afterwards(filt[s]), tw2 |-> Afterwards(filt[s]), alike |-> SameParams(filt[s], filt[s]), pre |-> Obs(filt[s]), post |-> Obs(filt[s]), mem |-> mem[s] ])

Partial(s) ==
  /\ UNCHANGED << filt, mem >>
  /\ Meets([ op |-> "partial", res |-> "ok", meta |-> Obs(filt[s]),
             pre |-> Obs(filt[s]), post |-> Obs(filt[s]), mem |-> mem[s] ])

SetData(s) ==
  /\ \E d \in Datas \ {filt[s].data} : filt' = [ filt EXCEPT ![s].data = d ]
  /\ mem' = mem
  /\ Meets([ op |-> "setdata", res |-> "ok", pre |-> Obs(filt[s]), post |-> Obs(filt'[s]), mem |-> mem[s] ])

Next ==
  /\ UNCHANGED << hash, conf >>
  /\ \E s \in Slots :
       \/ \E e \in Entries : Insert(s, e) \/ Query(s, e)
       \/ \E o \in Slots \ {s} : Union(s, o) \/ Inter(s, o) \/ Common(s, o) \/ Clone(s, o)
       \/ \E c \in 1..2 : Create(s, c)
       \/ Clear(s) \/ Load(s) \/ Partial(s) \/ SetData(s)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants of the model itself *)

NoFalseNegative == \A s \in Slots : \A e \in mem[s] : Has(filt[s], hash[e])

Shape == \A s \in Slots :
  /\ filt[s].bits \subseteq 0..(Regions * RegionBits - 1)
  /\ filt[s].cb = 0 => filt[s].cbits = {}
  /\ filt[s].cap = 0 => filt[s].bits = {} /\ filt[s].cnt = 0

\* the bits are explained by inserted entries: nothing is contained in an
\* empty filter
NothingFromNothing == \A s \in Slots :
  filt[s].bits = {} => { e \in Entries : Has(filt[s], hash[e]) } = {}
=============================================================================
