------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What each property demands of one step of a filter, in terms of what a  *)
(* user can observe.  The clauses do not mention hashes: they relate what  *)
(* was observed before the step, the outcome, and what is observed after.  *)
(*                                                                         *)
(* An observation of a filter is a record                                  *)
(*   v, opt, fpp, cap, k, m, nb, cb   parameters, as in module Bloom       *)
(*   bits, cbits                      the set bits                         *)
(*   cnt, full                        count and is-full as reported        *)
(*   in     the entries (of a fixed pool) that are reported as contained   *)
(*   data   attached data                                                  *)
(*   img    the saved bytes, and pimg the same without the attached data   *)
(*   size   reported size in bytes; acap, afpp, aver: reported parameters  *)
(*                                                                         *)
(* A step is a record                                                      *)
(*   op     what was done                                                  *)
(*   res    outcome ("true"/"false"/"ok", or the kind of error)            *)
(*   pre, post    the filter operated on, before and after                 *)
(*   opre, opost  the second operand, before and after (if any)            *)
(*   e, n, n2, ... arguments and numeric results                           *)
(*   mem, omem    history: entries successfully inserted into the filter   *)
(*                (second operand) and not since cleared or intersected    *)
(*                                                                         *)
(* MCBloom shows that the operational model of module Bloom satisfies all  *)
(* clauses whatever the hash functions are; TraceLib evaluates them on     *)
(* steps recorded from the real code.                                      *)
(***************************************************************************)
EXTENDS Bloom, TLC

InsertOps == {"insert"}
MergeOps  == {"union", "inter"}
QueryOps  == {"contains", "sweep", "common", "save", "partial", "image"}
Accepted(st) == st.res \in {"true", "false"}

\* everything that can be seen of a filter
Same(a, b) == a = b
NoCache(o) == o.cb = 0
Stores(o)  == o.cap > 0 /\ o.m > 0 /\ o.nb > 0

\* entries that must be contained after the step
MembersAfter(st) ==
  CASE st.op = "insert" /\ Accepted(st)      -> st.mem \cup {st.e}
    [] st.op = "union" /\ st.res = "ok"      -> st.mem \cup st.omem
    [] st.op = "inter" /\ st.res = "ok"      -> st.mem \cap st.omem
    [] st.op = "clear"                       -> {}
    [] OTHER                                 -> st.mem

----------------------------------------------------------------------------
(* Each property maps a step to the set of names of the clauses it breaks. *)

Cl(name, ok) == IF ok THEN {} ELSE {name}

C01(st) ==
  Cl("every inserted entry is contained", MembersAfter(st) \subseteq st.post.in)
  \cup Cl("a contained inserted entry is found",
          st.op = "contains" /\ st.e \in st.mem => st.res = "true")
  \cup Cl("insertion keeps what was contained",
          st.op = "insert" => st.pre.in \subseteq st.post.in /\ st.pre.bits \subseteq st.post.bits)
  \cup (IF st.op \in MergeOps \cup {"common"}
        THEN Cl("the other filter keeps its entries", st.omem \subseteq st.opost.in) ELSE {})
  \cup (IF st.op = "clone"
        THEN Cl("a copy has all entries", st.mem \subseteq st.copy.in) ELSE {})
  \cup (IF st.op = "sweep"
        THEN Cl("none of many inserted entries is missing", st.known => st.missing = 0) ELSE {})

\* Insertion of st.n distinct entries in a row: st.new of them reported new,
\* st.dup not new, st.refused refused (the first after st.acc others, with the
\* count at st.at), st.fpnew reported new although contained, st.lost reported
\* not new although not contained.
C02(st) ==
  IF st.op = "bulk" THEN
       Cl("count goes up by one exactly when new", st.post.cnt = st.pre.cnt + st.new)
       \cup Cl("new only if it was not contained", st.fpnew = 0)
       \cup Cl("not new only if it was contained", NoCache(st.pre) => st.lost = 0)
       \cup Cl("all insertions have an outcome", st.new + st.dup + st.refused = st.n)
  ELSE IF st.op = "insert" THEN
       Cl("new only if it was not contained", st.res = "true" => st.e \notin st.pre.in)
       \cup Cl("not new only if it was contained",
               st.res = "false" /\ NoCache(st.pre) => st.e \in st.pre.in)
       \cup Cl("count goes up by one exactly when new",
               st.post.cnt = st.pre.cnt + (IF st.res = "true" THEN 1 ELSE 0))
  ELSE IF st.op \in {"create", "clear"} THEN Cl("count is zero", st.post.cnt = 0)
  ELSE IF st.op \in MergeOps /\ st.res = "ok" THEN {}
  ELSE IF st.op = "load" THEN Cl("count is kept", st.post.cnt = st.pre.cnt)
  ELSE Cl("count is unchanged", st.post.cnt = st.pre.cnt)

C03(st) ==
  Cl("full exactly when the count reached capacity", st.post.full = (st.post.cnt >= st.post.cap))
  \cup Cl("no storage, no content", ~Stores(st.post) => st.post.in = {})
  \cup IF st.op = "bulk" THEN
       Cl("nothing is refused below capacity",
          Stores(st.pre) => (st.refused > 0 => st.at >= st.pre.cap))
       \cup Cl("nothing new is accepted when full",
               st.post.cnt <= (IF st.pre.cnt > st.pre.cap THEN st.pre.cnt ELSE st.pre.cap))
       \cup Cl("outcome is accept or too many entries", st.bad = 0)
  ELSE IF st.op # "insert" THEN {} ELSE
       Cl("outcome is accept or too many entries", st.res \in {"true", "false", "TooMany"})
       \cup Cl("without capacity or storage everything is refused",
               ~Stores(st.pre) => st.res = "TooMany")
       \cup Cl("nothing new is accepted when full", st.pre.cnt >= st.pre.cap => st.res # "true")
       \cup Cl("what is not contained is refused when full",
               st.pre.cnt >= st.pre.cap /\ NoCache(st.pre) /\ st.e \notin st.pre.in
                 => st.res = "TooMany")
       \cup Cl("what is contained is accepted",
               Stores(st.pre) /\ st.e \in st.pre.in => st.res = "false")
       \cup Cl("nothing is refused below capacity",
               Stores(st.pre) /\ st.pre.cnt < st.pre.cap => st.res # "TooMany")

C04(st) ==
  (IF st.op \in QueryOps
   THEN Cl("queries change nothing", Same(st.pre, st.post)) ELSE {})
  \cup (IF (st.op = "insert" /\ ~Accepted(st)) \/ (st.op \in MergeOps /\ st.res # "ok")
        THEN Cl("a refused operation changes nothing", Same(st.pre, st.post)) ELSE {})
  \cup (IF st.op \in MergeOps \cup {"common"}
        THEN Cl("the other filter is unchanged", Same(st.opre, st.opost)) ELSE {})
  \cup (IF st.op = "clone"
        THEN Cl("copying changes nothing", Same(st.pre, st.post))
             \cup Cl("a copy is like the original", Same(st.pre, st.copy)) ELSE {})
  \cup (IF st.op = "contains"
        THEN Cl("the same query gives the same answer", (st.res = "true") = (st.e \in st.pre.in)) ELSE {})

Compatible(st) == SameParams(st.pre, st.opre)

C05(st) ==
  IF st.op # "union" THEN {} ELSE
  Cl("refused exactly when the parameters differ",
     st.res = (IF Compatible(st) THEN "ok" ELSE "Merge"))
  \cup IF st.res # "ok" THEN {} ELSE
       Cl("bits are those of either", st.post.bits = st.pre.bits \cup st.opre.bits)
       \cup Cl("cache bits are those of either", st.post.cbits = st.pre.cbits \cup st.opre.cbits)
       \cup Cl("contains what either contained", (st.pre.in \cup st.opre.in) \subseteq st.post.in)
       \cup Cl("parameters and data are kept",
               SameParams(st.pre, st.post) /\ st.post.data = st.pre.data)

C06(st) ==
  IF st.op # "inter" THEN {} ELSE
  Cl("refused exactly when the parameters differ",
     st.res = (IF Compatible(st) THEN "ok" ELSE "Merge"))
  \cup IF st.res # "ok" THEN {} ELSE
       Cl("bits are those of both", st.post.bits = st.pre.bits \cap st.opre.bits)
       \cup Cl("cache bits are those of both", st.post.cbits = st.pre.cbits \cap st.opre.cbits)
       \cup Cl("contains what both contained", st.post.in = st.pre.in \cap st.opre.in)
       \cup Cl("parameters and data are kept",
               SameParams(st.pre, st.post) /\ st.post.data = st.pre.data)

\* st.fresh: a filter newly created with the same parameters
\* st.tw1, st.tw2: what becomes of the cleared filter and of the new one when
\* the same entries are inserted into both
C07(st) ==
  IF st.op # "clear" THEN {} ELSE
  Cl("contains nothing", st.post.in = {} /\ st.post.bits = {} /\ st.post.cbits = {})
  \cup Cl("counts zero", st.post.cnt = 0)
  \cup Cl("full only without capacity", st.post.full = (st.post.cap = 0))
  \cup Cl("saves like a new one", st.post.pimg = st.fresh.pimg)
  \cup Cl("fills up again like a new one", st.tw1 = st.tw2)
  \cup Cl("parameters and data are kept",
          SameParams(st.pre, st.post) /\ st.post.data = st.pre.data)

\* st.meta: what a metadata-only load reports
C08(st) ==
  (IF st.op = "load"
   THEN Cl("loading succeeds", st.res = "ok")
        \cup Cl("the loaded filter is the saved one", st.res = "ok" => Same(st.pre, st.post))
        \cup Cl("the loaded filter goes on like the saved one", st.tw1 = st.tw2)
        \cup Cl("the loaded filter can be merged with the saved one", st.res = "ok" => st.alike)
   ELSE {})
  \cup (IF st.op = "partial"
        THEN Cl("metadata load succeeds", st.res = "ok")
             \cup Cl("metadata is that of the filter",
                     st.res = "ok" =>
                       /\ st.meta.aver = st.pre.aver /\ st.meta.acap = st.pre.acap
                       /\ st.meta.afpp = st.pre.afpp /\ st.meta.cnt = st.pre.cnt
                       /\ st.meta.size = st.pre.size /\ st.meta.data = st.pre.data
                       /\ st.meta.full = st.pre.full)
        ELSE {})
  \cup (IF st.op = "save" THEN Cl("saving succeeds", st.res = "ok")
                               \cup Cl("saving gives the same bytes", st.img = st.pre.img) ELSE {})

\* st.n = estimate of common entries, st.n2 = the same with operands swapped
C19(st) ==
  (IF st.op \in MergeOps /\ st.res = "ok"
   THEN LET r == EstOf(st.post, st.post.bits)
        IN  Cl("count is the estimate of the set bits", r[1] <= st.post.cnt /\ st.post.cnt <= r[2])
   ELSE {})
  \cup (IF st.op # "common" THEN {} ELSE
        Cl("refused exactly when the parameters differ",
           st.res = (IF Compatible(st) THEN "ok" ELSE "Merge"))
        \cup IF st.res # "ok" THEN {} ELSE
             LET r == EstOf(st.pre, st.pre.bits \cap st.opre.bits)
             IN  Cl("is the estimate of the common bits", r[1] <= st.n /\ st.n <= r[2])
                 \cup Cl("is symmetric", st.n = st.n2))
  \cup (IF st.op \in MergeOps
        THEN Cl("merging yields an outcome", st.res \in {"ok", "Merge"}) ELSE {})
  \cup (IF "ones" \in DOMAIN st.post
        THEN Cl("set and unset bits are counted exactly",
                /\ st.post.ones = Cardinality(st.post.bits)
                /\ st.post.ones + st.post.zeros = st.post.m * st.post.nb)
        ELSE {})

\* st.ref: the filter after inserting the same bytes the plain way into a copy
C20(st) ==
  IF st.op # "insert" \/ ~("ref" \in DOMAIN st) THEN {} ELSE
  Cl("same outcome as inserting the bytes", st.res = st.refres)
  \cup Cl("same effect as inserting the bytes", Same(st.post, st.ref))

Broken(p, st) ==
  CASE p = "C01" -> C01(st) [] p = "C02" -> C02(st) [] p = "C03" -> C03(st)
    [] p = "C04" -> C04(st) [] p = "C05" -> C05(st) [] p = "C06" -> C06(st)
    [] p = "C07" -> C07(st) [] p = "C08" -> C08(st) [] p = "C19" -> C19(st)
    [] p = "C20" -> C20(st)

AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C19", "C20"}
=============================================================================
