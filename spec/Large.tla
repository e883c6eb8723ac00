------------------------------- MODULE Large -------------------------------
(***************************************************************************)
(* Layout, positions and saved bytes of filters of which the numbers do    *)
(* not fit in 31 bits: capacities, bits and positions are 64 bit numbers   *)
(* as in module U64.  MCLarge shows that this is the same as Sizing where  *)
(* both can be computed.                                                   *)
(*                                                                         *)
(* A filter is a record as in BloomCore, where cap, m, nb and cb are       *)
(* clipped at BIG, with cap8, m8, cb8 for their values, and ce for the     *)
(* exponent of cb8.  Bits are numbered by 64 bit numbers.                  *)
(***************************************************************************)
EXTENDS Bloom, Sizing

One64 == FromNat(1)
Pow2L(e) == Shl64(One64, e)
Sub64(a, b) == Add64(Add64(a, [ i \in 1..8 |-> 255 - b[i] ]), One64)
ClipL(a) == IF FitsNat(a) /\ ToNat(a) < BIG THEN ToNat(a) ELSE BIG

\* quotient and remainder by a number below 2^23
DivNat(a, n) ==
  FoldLeft(LAMBDA acc, i : LET x == acc[2] * 256 + a[9 - i] IN << << x \div n >> \o acc[1], x % n >>,
           << << >>, 0 >>, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
CeilDivL(a, n) == LET q == DivNat(a, n) IN IF q[2] = 0 THEN q[1] ELSE Add64(q[1], One64)

\* the smallest e such that 2^e >= a
RECURSIVE LogFrom(_, _)
LogFrom(a, e) == IF Geq64(Pow2L(e), a) THEN e ELSE LogFrom(a, e + 1)
LogL(a) == LogFrom(a, 0)

\* a mod 2^e
ModPow2(a, e) == [ i \in 1..8 |-> IF 8 * i <= e THEN a[i] ELSE IF 8 * (i - 1) >= e THEN 0 ELSE a[i] % 2 ^ (e % 8) ]

\* a mod m for m < 2^40, bit by bit, with numbers in two parts
B24 == 16777216
Parts(a) == << a[4] + 256 * a[5], a[1] + 256 * a[2] + 65536 * a[3] >>
ModL(a, m) ==
  LET p == Parts(m)
      step(r, b) == LET lo == 2 * r[2] + b
                        hi == 2 * r[1] + lo \div B24
                        l2 == lo % B24
                    IN  IF hi > p[1] \/ (hi = p[1] /\ l2 >= p[2])
                        THEN IF l2 >= p[2] THEN << hi - p[1], l2 - p[2] >> ELSE << hi - p[1] - 1, l2 + B24 - p[2] >>
                        ELSE << hi, l2 >>
      bits == [ i \in 1..64 |-> (a[8 - ((i - 1) \div 8)] \div 2 ^ (7 - ((i - 1) % 8))) % 2 ]
      r == FoldLeft(step, << 0, 0 >>, bits)
  IN  << r[2] % 256, (r[2] \div 256) % 256, r[2] \div 65536, r[1] % 256, r[1] \div 256, 0, 0, 0 >>

----------------------------------------------------------------------------
(* Layout of a new filter *)

V1LayoutL(cap8, p) ==
  LET m == SubSeq(Mul128(cap8, PTable[p].a), 7, 14)
      x == Mul128(PTable[p].a, LN2_48)
      k == x[13] + 256 * x[14] + 1
  IN  [ m8 |-> m, nb |-> 1, cb8 |-> Zero64, klo |-> k, khi |-> k ]

V2LayoutL(cap8, opt, p) ==
  LET bc  == BucketCap(p)
      nb0 == ClipL(CeilDivL(cap8, bc))
      bpe == (2 * BUCKET_BITS + bc) \div (2 * bc)
      k0  == HashCount(BUCKET_BITS, bc)
      ce  == LogL(cap8)
      \* the share of the cache that is used decides; 20 bits of it are enough
      s   == IF ce > 20 THEN ce - 20 ELSE 0
      r   == CacheRate(ToNat(Shr64(cap8, s)), 2 ^ (ce - s))
      kk(x) == IF x * bpe <= 0 THEN 0 ELSE (MulFix(x * bpe, LN2_48) + ExpScale) \div ExpScale
  IN  IF opt \in {0, 1} THEN [ m8 |-> FromNat(BUCKET_BITS), nb |-> nb0, cb8 |-> Zero64, klo |-> k0, khi |-> k0 ]
      ELSE [ m8 |-> FromNat(BUCKET_BITS), nb |-> IF opt = 2 THEN NextPow2(nb0) ELSE nb0,
             cb8 |-> Pow2L(IF ce < 3 THEN 3 ELSE ce), klo |-> kk(r[1]), khi |-> kk(r[2]) ]

LayoutL(v, cap8, opt, p) == IF v = 1 THEN V1LayoutL(cap8, p) ELSE V2LayoutL(cap8, opt, p)

NewL(v, cap8, opt, p, k) ==
  LET y == LayoutL(v, cap8, opt, p)
  IN  [ v |-> v, opt |-> IF v = 1 THEN 0 ELSE opt, fpp |-> p, cap |-> ClipL(cap8), cap8 |-> cap8, k |-> k,
        m |-> ClipL(y.m8), m8 |-> y.m8, nb |-> y.nb, cb |-> ClipL(y.cb8), cb8 |-> y.cb8, ce |-> IF y.cb8 = Zero64 THEN 0 ELSE LogL(y.cb8),
        bits |-> {}, cbits |-> {}, cnt |-> 0 ]

----------------------------------------------------------------------------
(* Positions of an entry *)
IndexL(f, b) ==
  IF f.v = 1 THEN LET w == V1Walk(b, f.k) IN [ pos |-> [ i \in 1..f.k |-> ModL(w[i], f.m8) ], c |-> Zero64 ]
  ELSE LET h == H1(b)
           x == XorShiftStar(h)
           r == Shl64(FromNat(ModNat(x, f.nb)), 15)
           w == V2Walk(h, f.k)
       IN  [ pos |-> [ i \in 1..f.k |-> Add64(r, FromNat(w[i])) ], c |-> IF f.cb8 = Zero64 THEN Zero64 ELSE ModPow2(x, f.ce) ]

\* number of entries behind the bits S
EstL(f, S) ==
  IF f.v = 1
  THEN \* so few of the bits are set that each entry has its own; rounding may lose one
       LET x == Cardinality(S) \div f.k IN << IF x > 0 THEN x - 1 ELSE 0, x >>
  ELSE LET rs == { Shr64(x, 15) : x \in S }
           sum(g(_)) == FoldLeft(LAMBDA acc, r : acc + g(r), 0, SetToSeq(rs))
           e(r) == RegionEst(Cardinality({ x \in S : Shr64(x, 15) = r }), BUCKET_BITS, f.k)
       IN  << sum(LAMBDA r : e(r)[1]), sum(LAMBDA r : e(r)[2]) >>

----------------------------------------------------------------------------
(* Saved bytes *)
Fixed == FromNat(48)
CacheBytes(f) == Shr64(f.cb8, 3)
BitsAt(f) == IF f.v = 1 THEN Fixed ELSE Add64(Add64(Fixed, CacheBytes(f)), FromNat(8))
EndAt(f) == IF f.v = 1 THEN Add64(Fixed, Shl64(Shr64(Add64(f.m8, FromNat(63)), 6), 3))
            ELSE Add64(BitsAt(f), Shl64(FromNat(f.nb), 12))
SizeL(f) == IF f.v = 1 THEN Shl64(Shr64(Add64(f.m8, FromNat(63)), 6), 3) ELSE Add64(CacheBytes(f), Shl64(FromNat(f.nb), 12))

\* << offset, number of the bit in its byte >>
BitsIn(base, S) == { << Add64(base, Shr64(x, 3)), x[1] % 8 >> : x \in S }
NumberIn(base, n) == { << Add64(base, FromNat(q[1] - 1)), q[2] >> : q \in { r \in (1..8) \X (0..7) : (n[r[1]] \div 2 ^ r[2]) % 2 = 1 } }
BodyL(f) ==
  IF f.v = 1 THEN BitsIn(Fixed, f.bits)
  ELSE BitsIn(Fixed, f.cbits) \cup NumberIn(Add64(Fixed, CacheBytes(f)), FromNat(f.nb)) \cup BitsIn(BitsAt(f), f.bits)

HeaderL(f) ==
  << f.v, f.opt, 0, 0, 0, 0, 0, 0 >> \o f.cap8 \o PTable[f.fpp].bytes \o FromNat(f.k)
  \o (IF f.v = 1 THEN f.m8 \o FromNat(f.cnt) ELSE FromNat(f.cnt) \o f.cb8)

\* what a header h of 48 bytes and, in format 2, the number n of buckets announce
At(h, i) == SubSeq(h, i + 1, i + 8)
HeadCache(h) == Shr64(Add64(At(h, 40), FromNat(7)), 3)
HeadWords(h) == Shl64(Shr64(Add64(At(h, 32), FromNat(63)), 6), 3)
HeadSize(h, n) == IF h[1] = 1 THEN HeadWords(h) ELSE Add64(HeadCache(h), Shl64(n, 12))
HeadEnd(h, n) == Add64(HeadSize(h, n), FromNat(IF h[1] = 1 THEN 48 ELSE 56))
HeadCount(h) == At(h, IF h[1] = 1 THEN 40 ELSE 32)
=============================================================================
