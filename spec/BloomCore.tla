----------------------------- MODULE BloomCore -----------------------------
(***************************************************************************)
(* Operational model of a poppy filter, in both formats.                   *)
(*                                                                         *)
(* A filter is a record                                                    *)
(*   v     format: 1 (DCSO) or 2 (Poppy)                                   *)
(*   opt   optimisation level 0..3 (part of the parameters)                *)
(*   fpp   probability (an opaque value; part of the parameters)           *)
(*   cap   capacity                                                        *)
(*   k     number of positions per entry                                   *)
(*   m     bits per region (v1: one region; v2: one region per bucket)     *)
(*   nb    number of regions                                               *)
(*   cb    bits of the lookup cache, 0 if there is none                    *)
(*   bits  set bits, numbered region * m + position                        *)
(*   cbits set bits of the lookup cache                                    *)
(*   cnt   element count                                                   *)
(*   data  attached data (opaque)                                          *)
(*                                                                         *)
(* What the hash functions make of an entry is a record                    *)
(*   pos   the positions of its bits, in the order in which they are tried *)
(*   c     its position in the lookup cache                                *)
(* The operators below do not look into hashes, so that the model can be   *)
(* checked for every hash function (MCBloom), proved for every number of   *)
(* filters, entries and bits (ProofBloom) and run with the real hashes     *)
(* (TraceExact).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == { s[i] : i \in DOMAIN s }

HasStorage(f) == f.cap > 0 /\ f.m > 0 /\ f.nb > 0
HasCache(f)   == f.cb > 0

Params(f) == << f.v, f.opt, f.fpp, f.cap, f.k, f.m, f.nb, f.cb >>
SameParams(f, g) == Params(f) = Params(g)

Fresh(f) == [ f EXCEPT !.bits = {}, !.cbits = {}, !.cnt = 0 ]

----------------------------------------------------------------------------
(* Queries *)

Full(f) == f.cnt >= f.cap

Has(f, ix) ==
  /\ HasStorage(f)
  /\ HasCache(f) => ix.c \in f.cbits
  /\ Rng(ix.pos) \subseteq f.bits

----------------------------------------------------------------------------
(* Insertion: the outcome is "true" (new), "false" (nothing new) or        *)
(* "TooMany"; a refused insertion has no effect.                           *)

Missing(f, ix) == Rng(ix.pos) \ f.bits

InsertRes(f, ix) ==
  IF ~HasStorage(f) THEN "TooMany"
  ELSE IF Full(f) /\ Missing(f, ix) # {} THEN "TooMany"
  ELSE IF Missing(f, ix) # {} THEN "true" ELSE "false"

InsertPost(f, ix) ==
  IF InsertRes(f, ix) = "TooMany" THEN f
  ELSE [ f EXCEPT !.bits  = @ \cup Rng(ix.pos),
                  !.cbits = IF HasCache(f) THEN @ \cup {ix.c} ELSE @,
                  !.cnt   = IF Missing(f, ix) # {} THEN @ + 1 ELSE @ ]

----------------------------------------------------------------------------
(* Merging.  The count after a merge is an estimate and is supplied.       *)

UnionBits(f, g)  == f.bits \cup g.bits
InterBits(f, g)  == f.bits \cap g.bits
UnionPost(f, g, est) == [ f EXCEPT !.bits = UnionBits(f, g), !.cbits = @ \cup g.cbits, !.cnt = est ]
InterPost(f, g, est) == [ f EXCEPT !.bits = InterBits(f, g), !.cbits = @ \cap g.cbits, !.cnt = est ]

=============================================================================
