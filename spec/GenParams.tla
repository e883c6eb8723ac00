------------------------------ MODULE GenParams ------------------------------
(* All combinations of ways to create a filter and kinds of parameters.    *)
EXTENDS Naturals, Sequences, TLC, Json

Rust   == {"params", "optbyte", "veropt", "ver", "cap", "v1", "v2", "intov1", "intov2", "macro"}
Python == {"pycap", "pyver", "pyparams"}
Ctors  == Rust \cup Python \cup {"cli"}
Takes(c) == [ ver |-> c \in {"params", "optbyte", "veropt", "ver", "intov1", "intov2", "pyver", "pyparams", "cli"},
              opt |-> c \in {"params", "optbyte", "veropt", "intov2", "pyparams", "cli"},
              anyopt |-> c \in {"optbyte", "pyparams", "cli"} ]
Caps == {"0", "1", "few", "many", "bucket", "most", "huge"}
Fpps == {"zero", "negzero", "neg", "above", "two", "inf", "neginf", "nan", "nnan", "subnormal", "subtop", "min", "tiny", "small", "usual", "half", "below1", "one"}

VARIABLES p
Init == \E c \in Ctors : \E cap \in Caps, f \in Fpps :
        \E v \in (IF Takes(c).ver THEN {0, 1, 2, 3, 255} ELSE {2}) :
        \E o \in (IF Takes(c).anyopt THEN {0, 1, 2, 3, 4, 255} ELSE IF Takes(c).opt THEN {0, 1, 2, 3} ELSE {0}) :
          p = [ ctor |-> c, cap |-> cap, fpp |-> f, v |-> v, opt |-> o ]
Spec == Init /\ [][FALSE]_p
Emit == PrintT("SCRIPT " \o ToJson(p))
=============================================================================
