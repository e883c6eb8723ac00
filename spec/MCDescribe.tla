----------------------------- MODULE MCDescribe -----------------------------
(* The estimate is sensible: at capacity it is the probability promised,   *)
(* with fewer entries it is less, with more it is more.                    *)
EXTENDS Describe
CONSTANTS MaxCap
VARIABLES cap, p
Init == /\ p \in { q \in DOMAIN PTable : PTable[q].bc <= 13076 /\ PTable[q].bc >= 569 }  \* 0.3 to 1e-12
        /\ cap = 32
Next == cap < MaxCap /\ cap' = cap + 1 + (cap \div 16) /\ UNCHANGED p
Spec == Init /\ [][Next]_<< cap, p >>
P == FromF64(PTable[p].bytes)
M == V1Layout(cap, p).m
At(n) == Estimate(n, M)
Tenth(x) == Times(x, Norm(18022, -14))
AsPromised == Leq(At(cap), Tenth(P)) /\ Leq(P, Times(At(cap), Norm(3, -1)))
FewerLess  == Leq(At(cap \div 2), At(cap)) /\ Leq(At(1), At(cap \div 2))
MoreMore   == Leq(At(cap), At(2 * cap)) /\ Leq(At(2 * cap), At(20 * cap)) /\ Leq(At(20 * cap), OneF)
=============================================================================
