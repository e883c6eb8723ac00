------------------------------ MODULE MCLarge ------------------------------
(* Large agrees with Sizing on filters that both can compute, and its      *)
(* arithmetic with that of small numbers.                                  *)
EXTENDS Large
CONSTANTS MaxCap
VARIABLES cap, p, opt
Entry == << 112, 111, 112, 112, 121, cap % 256, cap \div 256, 0, 1, opt >>
Init == cap = 1 /\ p \in { q \in DOMAIN PTable : PTable[q].bc < 8000000 /\ PTable[q].bc > 500 } /\ opt \in 0..4   \* 4: format 1
Next == cap < MaxCap /\ cap' = 2 * cap + (cap % 7) /\ UNCHANGED << p, opt >>
Spec == Init /\ [][Next]_<< cap, p, opt >>
V == IF opt = 4 THEN 1 ELSE 2
O == IF opt = 4 THEN 0 ELSE opt
S == Layout(V, cap, O, p)
L == LayoutL(V, FromNat(cap), O, p)
Small == V = 2 \/ (S.m > 0 /\ S.m < 8388608)
SameLayout == Small =>
  /\ L.m8 = FromNat(S.m) /\ L.nb = S.nb /\ L.cb8 = FromNat(S.cb)
  /\ V = 2 => L.klo <= S.khi /\ S.klo <= L.khi
  \* few entries: rounding down the number of bits may take a position away
  /\ V = 1 /\ cap > 300 => L.klo = S.klo
SamePlaces == Small =>
  LET k == S.khi
      f == [ v |-> V, opt |-> O, fpp |-> p, cap |-> cap, k |-> k, m |-> S.m, nb |-> S.nb, cb |-> S.cb, bits |-> {}, cbits |-> {}, cnt |-> 3, data |-> << >> ]
      g == NewL(V, FromNat(cap), O, p, k)
      a == Index(f, Entry)
      b == IndexL(g, Entry)
      fi == [ f EXCEPT !.bits = Rng(a.pos), !.cbits = IF S.cb > 0 THEN {a.c} ELSE {} ]
      gi == [ g EXCEPT !.bits = Rng(b.pos), !.cbits = IF S.cb > 0 THEN {b.c} ELSE {}, !.cnt = 3 ]
      bytes == UNION { { << FromNat(q[1]), j >> : j \in { i \in 0..7 : (q[2] \div 2 ^ i) % 2 = 1 } } : q \in Body(fi) }
  IN  /\ [ i \in 1..k |-> FromNat(a.pos[i]) ] = b.pos
      /\ S.cb > 0 => FromNat(a.c) = b.c
      /\ Header(fi) = HeaderL(gi)
      /\ bytes = BodyL(gi)
      /\ FromNat(ImageLen(fi)) = EndAt(gi)
      /\ HeadEnd(Header(fi), FromNat(S.nb)) = EndAt(gi) /\ HeadSize(Header(fi), FromNat(S.nb)) = SizeL(gi)
\* numbers x and y with x = q y + r, from their product
Division ==
  LET y == Add64(Shl64(FromNat(cap + 77), 9), FromNat(cap % 512))
      q == FromNat(3 * cap + opt)
      r == ModL(FromNat(1000003 * (cap % 1000)), y)
  IN  /\ Sub64(Add64(q, y), y) = q /\ ModL(Add64(Mul64(q, y), r), y) = r
      /\ DivNat(Add64(Mul64(q, FromNat(cap + 5)), FromNat(cap % 5)), cap + 5) = << q, cap % 5 >>
      /\ ModPow2(Add64(Shl64(q, 37), y), 37) = ModPow2(y, 37) /\ ModL(Add64(Shl64(q, 37), y), Pow2L(37)) = ModPow2(y, 37)
=============================================================================
