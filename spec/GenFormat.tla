------------------------------ MODULE GenFormat ------------------------------
(***************************************************************************)
(* All ways to damage a saved filter by at most two of: another value in a *)
(* field, an end before the end, more bytes after the end.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Kinds == {"v1", "v1one", "v2", "v2cache", "v2many", "v2empty"}
Sizes == {"zero", "one", "less", "more", "more9", "big31", "big32", "big50", "big61", "big63", "top"}
Change == [ field : {"ver"}, to : {"0", "1", "2", "3", "255"} ]
     \cup [ field : {"opt"}, to : {"0", "1", "2", "3", "4", "255"} ]
     \cup [ field : {"reserved"}, to : {"1"} ]
     \cup [ field : {"fpp"}, to : {"zero", "negzero", "neg", "above", "two", "inf", "neginf", "nan", "nnan", "subnormal", "min", "one"} ]
     \cup [ field : {"cap", "k", "cnt", "m", "cb", "nb"}, to : Sizes ]
Cut == [ field : {"cut"}, to : {"0", "1", "7", "8", "9", "15", "16", "23", "24", "31", "32", "39", "40", "47", "48", "cache-1", "cache",
                                "nb-1", "nb", "bits-1", "bits+1", "end-4096", "end-8", "end-1", "end"} ]
     \cup [ field : {"tail"}, to : {"1", "9000"} ]

VARIABLES kind, dmg, done
gvars == << kind, dmg, done >>
Init == kind \in Kinds /\ dmg = {} /\ done = FALSE
Add == /\ ~done /\ Cardinality(dmg) < 2 /\ UNCHANGED << kind, done >>
       /\ \E d \in Change \cup Cut : (\A e \in dmg : e.field # d.field) /\ dmg' = dmg \cup {d}
Spec == Init /\ [][Add]_gvars
Emit == PrintT("SCRIPT " \o ToJson([ kind |-> kind, dmg |-> dmg ]))
=============================================================================
