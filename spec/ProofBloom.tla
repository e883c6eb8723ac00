----------------------------- MODULE ProofBloom -----------------------------
(***************************************************************************)
(* What the checks of the model (MCBloom) establish for a small scope is   *)
(* proved here, with TLAPS, for any number of filters, entries, bits and   *)
(* positions, for any parameters and any hash functions whatsoever: the    *)
(* operators of module BloomCore guarantee the properties.  The recorded   *)
(* behaviour of the code is compared with the same operators (TraceExact). *)
(*                                                                         *)
(* Positions depend on the parameters of the filter and on the entry and   *)
(* on nothing else; that is all that is assumed about the hash functions,  *)
(* apart from there being at least one position.                           *)
(***************************************************************************)
EXTENDS BloomCore, TLAPS

CONSTANTS Slots, Entries, Versions, Opts, Probs, Datas, hash(_, _)

Index == [ pos : Seq(Nat), c : Nat ]
Filter == [ v : Versions, opt : Opts, fpp : Probs, cap : Nat, k : Nat, m : Nat, nb : Nat, cb : Nat,
            bits : SUBSET Nat, cbits : SUBSET Nat, cnt : Nat, data : Datas ]
Ix(f, e) == hash(Params(f), e)
Contains(f, e) == Has(f, Ix(f, e))

ASSUME Hashing == \A f \in Filter : \A e \in Entries : Ix(f, e) \in Index /\ Ix(f, e).pos # << >>

VARIABLES filt, mem
vars == << filt, mem >>

TypeOK == filt \in [ Slots -> Filter ] /\ mem \in [ Slots -> SUBSET Entries ]

Init ==
  /\ filt \in [ Slots -> Filter ]
  /\ \A s \in Slots : filt[s] = Fresh(filt[s])
  /\ mem = [ s \in Slots |-> {} ]

Create(s, f) ==
  /\ f = Fresh(f)
  /\ filt' = [ filt EXCEPT ![s] = f ] /\ mem' = [ mem EXCEPT ![s] = {} ]
Insert(s, e) ==
  /\ filt' = [ filt EXCEPT ![s] = InsertPost(filt[s], Ix(filt[s], e)) ]
  /\ mem' = [ mem EXCEPT ![s] = IF InsertRes(filt[s], Ix(filt[s], e)) = "TooMany" THEN mem[s] ELSE mem[s] \cup {e} ]
Union(s, o, est) ==
  IF SameParams(filt[s], filt[o])
  THEN /\ filt' = [ filt EXCEPT ![s] = UnionPost(filt[s], filt[o], est) ]
       /\ mem' = [ mem EXCEPT ![s] = mem[s] \cup mem[o] ]
  ELSE UNCHANGED vars
Inter(s, o, est) ==
  IF SameParams(filt[s], filt[o])
  THEN /\ filt' = [ filt EXCEPT ![s] = InterPost(filt[s], filt[o], est) ]
       /\ mem' = [ mem EXCEPT ![s] = mem[s] \cap mem[o] ]
  ELSE UNCHANGED vars
Clear(s) == filt' = [ filt EXCEPT ![s] = Fresh(filt[s]) ] /\ mem' = [ mem EXCEPT ![s] = {} ]
Copy(s, o) == filt' = [ filt EXCEPT ![o] = filt[s] ] /\ mem' = [ mem EXCEPT ![o] = mem[s] ]
SetData(s, d) == filt' = [ filt EXCEPT ![s].data = d ] /\ mem' = mem

Next ==
  \E s \in Slots :
    \/ \E f \in Filter : Create(s, f)
    \/ \E e \in Entries : Insert(s, e)
    \/ \E o \in Slots, est \in Nat : Union(s, o, est) \/ Inter(s, o, est)
    \/ \E o \in Slots : Copy(s, o)
    \/ Clear(s)
    \/ \E d \in Datas : SetData(s, d)
Spec == Init /\ [][Next]_vars

NoFalseNegative == \A s \in Slots : \A e \in mem[s] : Contains(filt[s], e)

----------------------------------------------------------------------------
(* Types, and what does not depend on the parameters *)

LEMMA InsertParams ==
  ASSUME NEW f \in Filter, NEW ix \in Index
  PROVE  InsertPost(f, ix) \in Filter /\ Params(InsertPost(f, ix)) = Params(f)
BY DEF Filter, Index, InsertPost, InsertRes, Missing, Rng, Params, Full, HasStorage, HasCache

LEMMA FreshParams ==
  ASSUME NEW f \in Filter PROVE Fresh(f) \in Filter /\ Params(Fresh(f)) = Params(f)
BY DEF Filter, Fresh, Params

LEMMA MergeParams ==
  ASSUME NEW f \in Filter, NEW g \in Filter, NEW est \in Nat
  PROVE  /\ UnionPost(f, g, est) \in Filter /\ Params(UnionPost(f, g, est)) = Params(f)
         /\ InterPost(f, g, est) \in Filter /\ Params(InterPost(f, g, est)) = Params(f)
BY DEF Filter, UnionPost, InterPost, UnionBits, InterBits, Params

LEMMA SameIndex ==
  ASSUME NEW f \in Filter, NEW g \in Filter, Params(f) = Params(g), NEW e \in Entries
  PROVE  /\ Ix(f, e) = Ix(g, e)
         /\ HasStorage(f) = HasStorage(g) /\ HasCache(f) = HasCache(g)
BY DEF Ix, Params, Filter, HasStorage, HasCache

LEMMA Extensional ==
  ASSUME NEW f \in Filter, NEW g \in Filter, Params(f) = Params(g),
         f.bits = g.bits, f.cbits = g.cbits, f.cnt = g.cnt, f.data = g.data
  PROVE  f = g
BY DEF Filter, Params

----------------------------------------------------------------------------
(* C01, C02, C03: one insertion *)

THEOREM InsertedIsContained ==
  ASSUME NEW f \in Filter, NEW ix \in Index, InsertRes(f, ix) # "TooMany"
  PROVE  Has(InsertPost(f, ix), ix)
BY DEF Has, InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full

THEOREM InsertionKeeps ==
  ASSUME NEW f \in Filter, NEW ix \in Index, NEW jx \in Index, Has(f, jx)
  PROVE  Has(InsertPost(f, ix), jx)
BY DEF Has, InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full

THEOREM InsertionOutcome ==
  ASSUME NEW f \in Filter, NEW ix \in Index
  PROVE  /\ InsertRes(f, ix) \in {"true", "false", "TooMany"}
         /\ InsertRes(f, ix) = "true" => ~Has(f, ix)
         /\ InsertRes(f, ix) = "false" /\ ~HasCache(f) => Has(f, ix)
         /\ InsertPost(f, ix).cnt = f.cnt + (IF InsertRes(f, ix) = "true" THEN 1 ELSE 0)
         /\ InsertRes(f, ix) = "TooMany" => InsertPost(f, ix) = f
         /\ ~HasStorage(f) => InsertRes(f, ix) = "TooMany" /\ ~Has(f, ix)
         /\ Full(f) => InsertRes(f, ix) # "true"
         /\ Full(f) /\ ~HasCache(f) /\ ~Has(f, ix) => InsertRes(f, ix) = "TooMany"
         /\ HasStorage(f) /\ Has(f, ix) => InsertRes(f, ix) = "false"
         /\ HasStorage(f) /\ ~Full(f) => InsertRes(f, ix) # "TooMany"
BY DEF Has, InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full

THEOREM InsertionTwice ==
  ASSUME NEW f \in Filter, NEW ix \in Index, InsertRes(f, ix) # "TooMany"
  PROVE  /\ InsertRes(InsertPost(f, ix), ix) = "false"
         /\ InsertPost(InsertPost(f, ix), ix) = InsertPost(f, ix)
<1>1. InsertPost(f, ix) \in Filter BY InsertParams
<1>2. Missing(InsertPost(f, ix), ix) = {}
  BY DEF InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full
<1>3. HasStorage(InsertPost(f, ix))
  BY DEF InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full
<1>4. InsertRes(InsertPost(f, ix), ix) = "false" BY <1>2, <1>3 DEF InsertRes
<1>5. /\ Rng(ix.pos) \subseteq InsertPost(f, ix).bits
      /\ HasCache(InsertPost(f, ix)) => ix.c \in InsertPost(f, ix).cbits
  BY DEF InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full
<1>6. ASSUME NEW g \in Filter, InsertRes(g, ix) = "false", Rng(ix.pos) \subseteq g.bits, HasCache(g) => ix.c \in g.cbits
      PROVE  InsertPost(g, ix) = g
  <2>1. InsertPost(g, ix) \in Filter /\ Params(InsertPost(g, ix)) = Params(g) BY InsertParams
  <2>2. Missing(g, ix) = {} BY <1>6 DEF Missing
  <2>3. g.bits \cup Rng(ix.pos) = g.bits BY <1>6
  <2>4. HasCache(g) => g.cbits \cup {ix.c} = g.cbits BY <1>6
  <2>5. InsertPost(g, ix) = [ g EXCEPT !.bits = g.bits, !.cbits = g.cbits, !.cnt = g.cnt ]
    BY <1>6, <2>2, <2>3, <2>4 DEF InsertPost, Filter
  <2> QED BY <2>5 DEF Filter
<1> QED BY <1>1, <1>4, <1>5, <1>6

\* the capacity is never passed by inserting
THEOREM CapacityBound ==
  ASSUME NEW f \in Filter, NEW ix \in Index
  PROVE  f.cnt <= f.cap => InsertPost(f, ix).cnt <= f.cap
BY DEF InsertPost, InsertRes, Filter, Index, HasStorage, HasCache, Rng, Missing, Full

\* the order of two accepted insertions does not matter for the bits
THEOREM InsertionsCommute ==
  ASSUME NEW f \in Filter, NEW ix \in Index, NEW jx \in Index,
         InsertRes(f, ix) # "TooMany", InsertRes(InsertPost(f, ix), jx) # "TooMany",
         InsertRes(f, jx) # "TooMany", InsertRes(InsertPost(f, jx), ix) # "TooMany"
  PROVE  /\ InsertPost(InsertPost(f, ix), jx).bits = InsertPost(InsertPost(f, jx), ix).bits
         /\ InsertPost(InsertPost(f, ix), jx).cbits = InsertPost(InsertPost(f, jx), ix).cbits
<1>1. ASSUME NEW g \in Filter, NEW x \in Index, InsertRes(g, x) # "TooMany"
      PROVE  /\ InsertPost(g, x).bits = g.bits \cup Rng(x.pos)
             /\ InsertPost(g, x).cbits = IF HasCache(g) THEN g.cbits \cup {x.c} ELSE g.cbits
             /\ HasCache(InsertPost(g, x)) = HasCache(g)
  BY <1>1 DEF InsertPost, Filter, Index, HasCache
<1>2. InsertPost(f, ix) \in Filter /\ InsertPost(f, jx) \in Filter BY InsertParams
<1> QED BY <1>1, <1>2

----------------------------------------------------------------------------
(* C05, C06: merging *)

THEOREM UnionContains ==
  ASSUME NEW f \in Filter, NEW g \in Filter, SameParams(f, g), NEW est \in Nat, NEW ix \in Index
  PROVE  Has(f, ix) \/ Has(g, ix) => Has(UnionPost(f, g, est), ix)
BY DEF Has, UnionPost, UnionBits, SameParams, Params, Filter, Index, HasStorage, HasCache

THEOREM UnionAlgebra ==
  ASSUME NEW f \in Filter, NEW g \in Filter, NEW h \in Filter, NEW est \in Nat, NEW est2 \in Nat
  PROVE  /\ UnionPost(f, g, est).bits = UnionPost(g, f, est2).bits
         /\ UnionPost(f, g, est).cbits = UnionPost(g, f, est2).cbits
         /\ UnionPost(f, f, f.cnt) = f
         /\ UnionPost(UnionPost(f, g, est), g, est) = UnionPost(f, g, est)
         /\ UnionPost(UnionPost(f, g, est), h, est2).bits = UnionPost(f, UnionPost(g, h, est), est2).bits
<1>1. UnionPost(f, f, f.cnt) = f
  <2>1. UnionPost(f, f, f.cnt) \in Filter /\ Params(UnionPost(f, f, f.cnt)) = Params(f) BY MergeParams DEF Filter
  <2>2. /\ UnionPost(f, f, f.cnt).bits = f.bits /\ UnionPost(f, f, f.cnt).cbits = f.cbits
        /\ UnionPost(f, f, f.cnt).cnt = f.cnt /\ UnionPost(f, f, f.cnt).data = f.data
    BY DEF UnionPost, UnionBits, Filter
  <2> QED BY <2>1, <2>2, Extensional
<1>2. UnionPost(UnionPost(f, g, est), g, est) = UnionPost(f, g, est)
  <2> DEFINE u == UnionPost(f, g, est)
  <2>1. u \in Filter BY MergeParams
  <2>2. UnionPost(u, g, est) \in Filter /\ Params(UnionPost(u, g, est)) = Params(u) BY <2>1, MergeParams
  <2>3. u.bits = f.bits \cup g.bits /\ u.cbits = f.cbits \cup g.cbits /\ u.cnt = est
    BY DEF UnionPost, UnionBits, Filter
  <2>4. /\ UnionPost(u, g, est).bits = u.bits \cup g.bits /\ UnionPost(u, g, est).cbits = u.cbits \cup g.cbits
        /\ UnionPost(u, g, est).cnt = est /\ UnionPost(u, g, est).data = u.data
    BY <2>1 DEF UnionPost, UnionBits, Filter
  <2> HIDE DEF u
  <2>5. UnionPost(u, g, est) = u BY <2>1, <2>2, <2>3, <2>4, Extensional
  <2> QED BY <2>5 DEF u
<1>3. /\ UnionPost(f, g, est).bits = UnionPost(g, f, est2).bits
      /\ UnionPost(f, g, est).cbits = UnionPost(g, f, est2).cbits
      /\ UnionPost(UnionPost(f, g, est), h, est2).bits = UnionPost(f, UnionPost(g, h, est), est2).bits
  BY DEF UnionPost, UnionBits, Filter
<1> QED BY <1>1, <1>2, <1>3

THEOREM InterContainsPrecisely ==
  ASSUME NEW f \in Filter, NEW g \in Filter, SameParams(f, g), NEW est \in Nat, NEW ix \in Index
  PROVE  Has(InterPost(f, g, est), ix) <=> Has(f, ix) /\ Has(g, ix)
BY DEF Has, InterPost, InterBits, SameParams, Params, Filter, Index, HasStorage, HasCache

THEOREM InterAlgebra ==
  ASSUME NEW f \in Filter, NEW g \in Filter, NEW est \in Nat, NEW est2 \in Nat
  PROVE  /\ InterPost(f, g, est).bits = InterPost(g, f, est2).bits
         /\ InterPost(f, g, est).cbits = InterPost(g, f, est2).cbits
         /\ InterPost(f, f, f.cnt) = f
         /\ InterPost(UnionPost(f, g, est), f, f.cnt) = f
         /\ UnionPost(InterPost(f, g, est), f, f.cnt) = f
BY DEF UnionPost, UnionBits, InterPost, InterBits, Filter

----------------------------------------------------------------------------
(* C07: clearing *)

THEOREM ClearedIsNew ==
  ASSUME NEW f \in Filter, NEW g \in Filter, SameParams(f, g), f.data = g.data, g = Fresh(g)
  PROVE  /\ Fresh(f) = g
         /\ Fresh(f).cnt = 0
         /\ Full(Fresh(f)) <=> f.cap = 0
BY DEF Fresh, SameParams, Params, Filter, Full

THEOREM ClearedContainsNothing ==
  ASSUME NEW f \in Filter, NEW e \in Entries
  PROVE  ~Contains(Fresh(f), e)
<1>1. Fresh(f) \in Filter /\ Fresh(f).bits = {} BY FreshParams DEF Fresh, Filter
<1>2. Ix(Fresh(f), e) \in Index /\ Ix(Fresh(f), e).pos # << >> BY <1>1, Hashing
<1>3. Rng(Ix(Fresh(f), e).pos) # {} BY <1>2 DEF Index, Rng
<1> QED BY <1>1, <1>3 DEF Contains, Has

----------------------------------------------------------------------------
(* C01: nothing inserted is ever lost, whatever happens afterwards *)

LEMMA TypeInv == Spec => []TypeOK
<1>1. Init => TypeOK BY DEF Init, TypeOK
<1>2. TypeOK /\ [Next]_vars => TypeOK'
  <2> SUFFICES ASSUME TypeOK, [Next]_vars PROVE TypeOK' OBVIOUS
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, TypeOK
  <2>2. ASSUME NEW s \in Slots, NEW f \in Filter, Create(s, f) PROVE TypeOK' BY <2>2 DEF Create, TypeOK
  <2>3. ASSUME NEW s \in Slots, NEW e \in Entries, Insert(s, e) PROVE TypeOK'
    <3>1. InsertPost(filt[s], Ix(filt[s], e)) \in Filter BY InsertParams, Hashing DEF TypeOK
    <3> QED BY <3>1, <2>3 DEF Insert, TypeOK
  <2>4. ASSUME NEW s \in Slots, NEW o \in Slots, NEW est \in Nat, Union(s, o, est) PROVE TypeOK'
    <3>1. UnionPost(filt[s], filt[o], est) \in Filter BY MergeParams DEF TypeOK
    <3> QED BY <3>1, <2>4 DEF Union, TypeOK, vars
  <2>5. ASSUME NEW s \in Slots, NEW o \in Slots, NEW est \in Nat, Inter(s, o, est) PROVE TypeOK'
    <3>1. InterPost(filt[s], filt[o], est) \in Filter BY MergeParams DEF TypeOK
    <3> QED BY <3>1, <2>5 DEF Inter, TypeOK, vars
  <2>6. ASSUME NEW s \in Slots, NEW o \in Slots, Copy(s, o) PROVE TypeOK' BY <2>6 DEF Copy, TypeOK
  <2>7. ASSUME NEW s \in Slots, Clear(s) PROVE TypeOK'
    <3>1. Fresh(filt[s]) \in Filter BY FreshParams DEF TypeOK
    <3> QED BY <3>1, <2>7 DEF Clear, TypeOK
  <2>8. ASSUME NEW s \in Slots, NEW d \in Datas, SetData(s, d) PROVE TypeOK' BY <2>8 DEF SetData, TypeOK, Filter
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM NothingIsLost == Spec => []NoFalseNegative
<1> DEFINE Inv == TypeOK /\ NoFalseNegative
<1>1. Init => NoFalseNegative BY DEF Init, NoFalseNegative
<1>2. TypeOK /\ TypeOK' /\ NoFalseNegative /\ [Next]_vars => NoFalseNegative'
  <2> SUFFICES ASSUME TypeOK, TypeOK', NoFalseNegative, [Next]_vars, NEW t \in Slots, NEW x \in mem'[t]
               PROVE  Contains(filt'[t], x)
      BY DEF NoFalseNegative
  <2> x \in Entries BY DEF TypeOK
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, NoFalseNegative
  <2>2. ASSUME NEW s \in Slots, NEW f \in Filter, Create(s, f) PROVE Contains(filt'[t], x)
    BY <2>2 DEF Create, TypeOK, NoFalseNegative
  <2>3. ASSUME NEW s \in Slots, NEW e \in Entries, Insert(s, e) PROVE Contains(filt'[t], x)
    <3>1. CASE t # s BY <2>3, <3>1 DEF Insert, TypeOK, NoFalseNegative
    <3>2. CASE t = s
      <4> DEFINE f == filt[s]  ix == Ix(filt[s], e)  jx == Ix(filt[s], x)
      <4>1. f \in Filter /\ ix \in Index /\ jx \in Index BY Hashing DEF TypeOK
      <4>2. filt'[t] = InsertPost(f, ix) /\ Params(filt'[t]) = Params(f) BY <2>3, <3>2, <4>1, InsertParams DEF Insert, TypeOK
      <4>3. Ix(filt'[t], x) = jx BY <4>2 DEF Ix
      <4>4. CASE x \in mem[s]
        BY <4>4, <4>1, <4>2, <4>3, InsertionKeeps DEF NoFalseNegative, Contains
      <4>5. CASE x \notin mem[s]
        <5>1. x = e /\ InsertRes(f, ix) # "TooMany" BY <4>5, <2>3, <3>2 DEF Insert, TypeOK
        <5> QED BY <5>1, <4>1, <4>2, <4>3, InsertedIsContained DEF Contains
      <4> QED BY <4>4, <4>5
    <3> QED BY <3>1, <3>2
  <2>4. ASSUME NEW s \in Slots, NEW o \in Slots, NEW est \in Nat, Union(s, o, est) PROVE Contains(filt'[t], x)
    <3>1. CASE t # s \/ ~SameParams(filt[s], filt[o]) BY <2>4, <3>1 DEF Union, TypeOK, NoFalseNegative, vars
    <3>2. CASE t = s /\ SameParams(filt[s], filt[o])
      <4> DEFINE f == filt[s]  g == filt[o]  jx == Ix(filt[s], x)
      <4>1. f \in Filter /\ g \in Filter /\ jx \in Index BY Hashing DEF TypeOK
      <4>2. filt'[t] = UnionPost(f, g, est) /\ Params(filt'[t]) = Params(f) BY <2>4, <3>2, <4>1, MergeParams DEF Union, TypeOK
      <4>3. Ix(filt'[t], x) = jx /\ Ix(g, x) = jx BY <4>2, <3>2 DEF Ix, SameParams
      <4>4. x \in mem[s] \/ x \in mem[o] BY <2>4, <3>2 DEF Union, TypeOK
      <4>5. Has(f, jx) \/ Has(g, jx) BY <4>3, <4>4 DEF NoFalseNegative, Contains
      <4> QED BY <4>1, <4>2, <4>3, <4>5, <3>2, UnionContains DEF Contains
    <3> QED BY <3>1, <3>2
  <2>5. ASSUME NEW s \in Slots, NEW o \in Slots, NEW est \in Nat, Inter(s, o, est) PROVE Contains(filt'[t], x)
    <3>1. CASE t # s \/ ~SameParams(filt[s], filt[o]) BY <2>5, <3>1 DEF Inter, TypeOK, NoFalseNegative, vars
    <3>2. CASE t = s /\ SameParams(filt[s], filt[o])
      <4> DEFINE f == filt[s]  g == filt[o]  jx == Ix(filt[s], x)
      <4>1. f \in Filter /\ g \in Filter /\ jx \in Index BY Hashing DEF TypeOK
      <4>2. filt'[t] = InterPost(f, g, est) /\ Params(filt'[t]) = Params(f) BY <2>5, <3>2, <4>1, MergeParams DEF Inter, TypeOK
      <4>3. Ix(filt'[t], x) = jx /\ Ix(g, x) = jx BY <4>2, <3>2 DEF Ix, SameParams
      <4>4. x \in mem[s] /\ x \in mem[o] BY <2>5, <3>2 DEF Inter, TypeOK
      <4>5. Has(f, jx) /\ Has(g, jx) BY <4>3, <4>4 DEF NoFalseNegative, Contains
      <4> QED BY <4>1, <4>2, <4>3, <4>5, <3>2, InterContainsPrecisely DEF Contains
    <3> QED BY <3>1, <3>2
  <2>6. ASSUME NEW s \in Slots, NEW o \in Slots, Copy(s, o) PROVE Contains(filt'[t], x)
    BY <2>6 DEF Copy, TypeOK, NoFalseNegative
  <2>7. ASSUME NEW s \in Slots, Clear(s) PROVE Contains(filt'[t], x)
    BY <2>7 DEF Clear, TypeOK, NoFalseNegative
  <2>8. ASSUME NEW s \in Slots, NEW d \in Datas, SetData(s, d) PROVE Contains(filt'[t], x)
    <3>1. CASE t # s BY <2>8, <3>1 DEF SetData, TypeOK, NoFalseNegative
    <3>2. CASE t = s
      <4>1. filt[s] \in Filter /\ filt'[t] = [ filt[s] EXCEPT !.data = d ] /\ mem'[t] = mem[s] BY <2>8, <3>2 DEF SetData, TypeOK
      <4>2. Params(filt'[t]) = Params(filt[s]) BY <4>1 DEF Params, Filter
      <4>3. Ix(filt'[t], x) = Ix(filt[s], x) BY <4>2 DEF Ix
      <4>4. Has(filt[s], Ix(filt[s], x)) BY <4>1 DEF NoFalseNegative, Contains
      <4> QED BY <4>1, <4>3, <4>4 DEF Contains, Has, HasStorage, HasCache, Filter
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8 DEF Next
<1> QED BY <1>1, <1>2, TypeInv, PTL DEF Spec
=============================================================================
