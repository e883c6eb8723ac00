------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Validates recorded commands.  An event "cmd" has the command, what it   *)
(* was given (inputs, stdin), its exit status (as text), the lines it      *)
(* printed (full: it was to print to a full device), which files changed,  *)
(* and what is in the target afterwards (file: "none", "junk" or "filter", *)
(* then post, and ent: what the lines hash to in it).                      *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F
tvars == << l, F >>
Slots == {"a", "b", "c"}
None == [ file |-> "none" ]
TInit == l = 1 /\ F = [ s \in Slots |-> None ]
Good(bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("REJECTED " \o ToJson([ line |-> l, clauses |-> bad ])) /\ FALSE
Cl(name, ok) == IF ok THEN {} ELSE {name}

Runs(q) == UNION { q[2 * i - 1] .. q[2 * i] : i \in 1..(Len(q) \div 2) }
State(ev) ==
  IF ev.file # "filter" THEN [ file |-> ev.file ]
  ELSE [ file |-> "filter", f |-> [ v |-> ev.post.v, opt |-> ev.post.opt, fpp |-> ev.post.fpp, cap |-> ev.post.cap, k |-> ev.post.k,
                                    m |-> ev.post.m, nb |-> ev.post.nb, cb |-> ev.post.cb, bits |-> Runs(ev.post.bits),
                                    cbits |-> Runs(ev.post.cbits), cnt |-> ev.post.cnt, data |-> ev.post.data ],
         in |-> ToSet(ev.post.in), meta |-> ev.post ]

\* stdin comes first
Given(ev) == (IF ev.stdin.used THEN << ev.stdin >> ELSE << >>) \o ev.inputs
Lines(ev) == AllLines(Given(ev))
Ok(ev) == ev.exit = "0"
\* a dataset is read twice, which a pipe does not allow
Piped(ev) == \E i \in DOMAIN ev.inputs : ev.inputs[i].via = "pipe"
Orderly(ev) == ev.exit \in {"0", "1", "2", "101"}

\* the filter before the lines go in, if there is one
Start(ev) ==
  IF ev.cmd = "create" THEN [ State(ev).f EXCEPT !.bits = {}, !.cbits = {}, !.cnt = 0 ] ELSE F[ev.s].f
Sequential(ev) == InsertAll(Start(ev), Lines(ev), ev.ent)
OneJob(ev) == ev.jobs = 1 \/ Len(ev.inputs) <= 1

C14(ev) ==
  IF ev.cmd \notin {"create", "insert"} THEN {} ELSE
  Cl("ends in success or failure", Orderly(ev))
  \cup Cl("an input that cannot be read makes the command fail", ~Readable(Given(ev)) => ~Ok(ev))
  \cup (IF ~Ok(ev) THEN {} ELSE
        Cl("the result is a filter", ev.file = "filter")
        \cup IF ev.file # "filter" THEN {} ELSE
        LET p == State(ev).f
            s == Start(ev)
        IN  Cl("every line is in the filter and nothing else is added",
               p.bits = s.bits \cup Added(s, Lines(ev), ev.ent) /\ p.cbits = s.cbits \cup AddedCache(s, Lines(ev), ev.ent))
            \cup Cl("every line is contained", HasStorage(p) => ToSet(Lines(ev)) \subseteq State(ev).in)
            \cup (IF ev.cmd = "create"
                  THEN Cl("parameters are those asked for", p.v = ev.v /\ p.fpp = ev.fpp /\ (ev.v = 2 => p.opt = ev.opt))
                       \cup Cl("capacity is the number of lines, or as asked for",
                               p.cap = (IF ev.inputs = << >> THEN ev.cap ELSE Len(Lines(ev))))
                  ELSE Cl("parameters and data are kept", SameParams(p, s) /\ p.data = s.data)
                       \cup (IF OneJob(ev) \/ ev.strict THEN Cl("the capacity is enforced", Sequential(ev).ok) ELSE {})))
  \cup (IF ev.cmd = "insert" /\ F[ev.s].file = "filter" /\ Readable(Given(ev)) /\ ~Ok(ev)
        THEN Cl("the command succeeds when there is room", ~Fits(F[ev.s].f, Lines(ev), ev.ent)) ELSE {})
  \cup (IF ev.cmd = "create" /\ F[ev.s].file # "junk" /\ Readable(Given(ev)) /\ ~Ok(ev)
        THEN Cl("the command succeeds with valid parameters", ev.bad = "params" \/ Piped(ev)) ELSE {})

C15(ev) ==
  IF ev.cmd # "check" THEN {} ELSE
  Cl("ends in success or failure", Orderly(ev))
  \cup (IF F[ev.s].file # "filter" THEN {} ELSE
        LET want == SortSeq(SelectSeq(Lines(ev), LAMBDA e : (e \in F[ev.s].in) # ev.verify), <)
        IN  Cl("nothing is printed if silent", ev.silent => ev.out = << >>)
            \cup Cl("checking readable input succeeds", Readable(Given(ev)) /\ ~ev.full => Ok(ev))
            \cup Cl("what cannot be printed makes the command fail", ev.full /\ ~ev.silent /\ want # << >> => ~Ok(ev))
            \cup Cl("only the right lines are printed, unaltered",
                    \A i \in DOMAIN ev.out : ev.out[i].e > 0 /\ ev.out[i].nok = ev.verify)
            \cup (IF ev.silent \/ ev.full \/ ~Ok(ev) THEN {} ELSE
                  Cl("lines are printed as often as they occur",
                     SortSeq([ i \in DOMAIN ev.out |-> ev.out[i].e ], <) = want)))

C16(ev) ==
  LET ch == ToSet(ev.changed) IN
  Cl("no other file is touched", ch \subseteq {ev.s})
  \cup (IF ev.cmd \in {"create", "insert"}
        THEN Cl("a failing command leaves the target as it was", ~Ok(ev) => ch = {})
             \cup Cl("create does not overwrite what is not a filter", ev.cmd = "create" /\ F[ev.s].file = "junk" => ~Ok(ev) /\ ch = {})
             \cup Cl("insertion needs a filter", ev.cmd = "insert" /\ F[ev.s].file # "filter" => ~Ok(ev) /\ ch = {})
        ELSE Cl("looking changes nothing", ch = {}))

\* a number of bytes shown with one decimal: t tenths of a unit
Shows(q, n) ==
  LET u == CASE q.unit = "B" -> 1 [] q.unit = "KB" -> 1024 [] q.unit = "MB" -> 1048576 [] OTHER -> 0
  IN  /\ u > 0 /\ n < 100000000
      /\ n >= u \/ u = 1
      /\ u < 1048576 => n < 1024 * u
      /\ 2 * (IF 10 * n > q.t * u THEN 10 * n - q.t * u ELSE q.t * u - 10 * n) <= u

C21(ev) ==
  IF ev.cmd # "show" THEN {} ELSE
  Cl("ends in success or failure", ev.exit \in {"0", "1"})
  \cup (IF F[ev.s].file # "filter" THEN Cl("only filters are shown", F[ev.s].file = "none" => ~Ok(ev)) ELSE
        LET m == F[ev.s].meta IN
        Cl("a filter can be shown", Ok(ev))
        \cup IF ~Ok(ev) THEN {} ELSE
             Cl("all properties are shown once", ev.fields = 6)
             \cup IF ev.fields # 6 THEN {} ELSE
             Cl("version is shown", ev.show.version = ToString(m.aver))
             \cup Cl("capacity is shown", ev.show.capacity = m.acap)
             \cup Cl("count is shown", ev.show.n = m.cnt)
             \cup Cl("probability is shown", ev.show.fpp = m.afpp)
             \cup Cl("length of data is shown", Shows(ev.show.data, m.dlen))
             \cup Cl("size is shown", Shows(ev.show.size, m.size)))

Broken_(ev) == CASE Prop = "C14" -> C14(ev) [] Prop = "C15" -> C15(ev) [] Prop = "C16" -> C16(ev) [] Prop = "C21" -> C21(ev)

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> F' = [ s \in Slots |-> None ]
       [] ev.op = "file"  -> F' = [ F EXCEPT ![ev.s] = State(ev) ]
       [] ev.op = "cmd"   -> Good(Broken_(ev)) /\ F' = [ F EXCEPT ![ev.s] = State(ev) ]
TSpec == TInit /\ [][TNext]_tvars
Accepted_ == PrintT("REACHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
