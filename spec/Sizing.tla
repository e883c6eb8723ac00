------------------------------- MODULE Sizing -------------------------------
(***************************************************************************)
(* The layout of a new filter, as a function of its parameters.            *)
(***************************************************************************)
EXTENDS PoppyHash, SizeTable, Naturals, Integers

BIG == 2000000000

\* floor(n * x) for x given as x * 2^48
MulFix(n, x) == LET p == Mul128(FromNat(n), x) IN ToNat(<< p[7], p[8], p[9], p[10], 0, 0, 0, 0 >>)

CeilDiv(a, b) == IF a = 0 THEN 0 ELSE ((a - 1) \div b) + 1

RECURSIVE Pow2AtLeast(_, _)
Pow2AtLeast(n, p) == IF p >= n THEN p ELSE Pow2AtLeast(n, 2 * p)
NextPow2(n) == Pow2AtLeast(n, 1)

\* ceil(ln 2 * bits / n); ln 2 * bits is never an integer
HashCount(bits, n) == IF bits = 0 THEN 0 ELSE (MulFix(bits, LN2_48) \div n) + 1

----------------------------------------------------------------------------
(* DCSO format: optimal number of bits, rounded down *)

V1Bits_(cap, p) == MulFix(cap, PTable[p].a)

V1Layout(cap, p) ==
  LET m == V1Bits_(cap, p)
  IN  [ m |-> m, nb |-> 1, cb |-> 0, klo |-> IF cap = 0 THEN 0 ELSE HashCount(m, cap),
        khi |-> IF cap = 0 THEN 0 ELSE HashCount(m, cap) ]

----------------------------------------------------------------------------
(* Poppy format: as many buckets of 32768 bits as the capacity needs; with *)
(* optimisation level 2 (speed) a power of two of them, with levels 2 and  *)
(* 3 a lookup cache of one bit per entry (rounded up to a power of two and *)
(* to bytes) that takes its share of the false positives, so that fewer    *)
(* positions per entry are needed.                                         *)

\* exp(-num/den) * 32768, by its Taylor series; 0 <= num/den <= 2, den a power of two
ExpScale == 32768
ExpNeg(num, den) ==
  LET y == IF den >= ExpScale THEN num \div (den \div ExpScale) ELSE num * (ExpScale \div den)
      step(acc, i) == LET t == (acc[1] * y) \div (ExpScale * i)
                      IN  << t, IF i % 2 = 1 THEN acc[2] - t ELSE acc[2] + t >>
  IN  FoldLeft(step, << ExpScale, ExpScale >>, [ i \in 1..16 |-> i ])[2]

\* false positive rate of a cache of m bits holding n entries with the usual
\* number of hash functions, as an interval in units of 1/32768
CacheRate(n, m) ==
  LET k == HashCount(m, n)
      q == ExpScale - ExpNeg(k * n, m)
      p == IF k = 1 THEN q ELSE (q * q) \div ExpScale
  IN  << p - 12, p + 12 >>

BucketCap(p) == PTable[p].bc

V2Layout(cap, opt, p) ==
  LET bc  == BucketCap(p)
      nb0 == IF cap = 0 THEN 0 ELSE CeilDiv(cap, bc)
      bpe == IF bc > 2 * BUCKET_BITS THEN 0 ELSE (2 * BUCKET_BITS + bc) \div (2 * bc)  \* bits per entry, rounded
      k0  == HashCount(BUCKET_BITS, bc)
      c   == NextPow2(cap)
      r   == IF cap = 0 THEN << 0, 0 >> ELSE CacheRate(cap, c)
      \* ceil(ln 2 * rate * bits per entry)
      kk(x) == IF x * bpe <= 0 THEN 0 ELSE (MulFix(x * bpe, LN2_48) + ExpScale) \div ExpScale
  IN  IF opt \in {0, 1} THEN [ m |-> BUCKET_BITS, nb |-> nb0, cb |-> 0, klo |-> k0, khi |-> k0 ]
      ELSE [ m |-> BUCKET_BITS, nb |-> IF opt = 2 THEN NextPow2(nb0) ELSE nb0,
             cb |-> IF c < 8 THEN 8 ELSE c,
             klo |-> kk(r[1]), khi |-> kk(r[2]) ]

Layout(v, cap, opt, p) == IF v = 1 THEN V1Layout(cap, p) ELSE V2Layout(cap, opt, p)

----------------------------------------------------------------------------
(* The positions of an entry in a filter f (a record as in module Bloom).  *)
(* h: what the entry hashes to first (Poppy format); b: its bytes.         *)

ModPow2OrNat(h, n) == ModNat(h, n)

V2Index(f, h1) ==
  LET x == XorShiftStar(h1)
      r == ModPow2OrNat(x, f.nb)
      w == V2Walk(h1, f.k)
  IN  [ pos |-> [ i \in 1..f.k |-> r * BUCKET_BITS + w[i] ],
        c |-> IF f.cb = 0 THEN 0 ELSE ModNat(x, f.cb) ]

NoIndex == [ pos |-> << >>, c |-> 0 ]

Index(f, b) ==
  IF f.cap = 0 \/ f.m = 0 \/ f.nb = 0 THEN NoIndex
  ELSE IF f.v = 1 THEN [ pos |-> V1Bits(b, f.k, f.m), c |-> 0 ]
  ELSE V2Index(f, H1(b))

----------------------------------------------------------------------------
(* The saved bytes: a header of 48 bytes and, of the rest, the non-zero    *)
(* bytes by offset, and the total length.                                  *)

LE64(n) == FromNat(n)

BitBytes(base, S) ==
  LET at == { x \div 8 : x \in S }
  IN  { << base + q, FoldLeft(LAMBDA acc, j : acc + (IF (8 * q + j) \in S THEN 2 ^ j ELSE 0), 0,
                              << 0, 1, 2, 3, 4, 5, 6, 7 >>) >> : q \in at }

Header(f) ==
  << f.v, IF f.v = 1 THEN 0 ELSE f.opt, 0, 0, 0, 0, 0, 0 >> \o LE64(f.cap) \o PTable[f.fpp].bytes \o LE64(f.k)
  \o (IF f.v = 1 THEN LE64(f.m) \o LE64(f.cnt) ELSE LE64(f.cnt) \o LE64(f.cb))

\* a saturated count is only known to be large
CountAt(f) == IF f.v = 1 THEN 41..48 ELSE 33..40
HeaderIs(b, f) ==
  LET h == Header(f)
  IN  /\ Len(b) = Len(h)
      /\ \A i \in DOMAIN h : b[i] = h[i] \/ (f.cnt >= BIG /\ i \in CountAt(f))
      /\ f.cnt >= BIG => \E i \in CountAt(f) : i >= 4 + (IF f.v = 1 THEN 40 ELSE 32) /\ b[i] > 0

BodyLen(f) == IF f.v = 1 THEN 8 * CeilDiv(f.m, 64) ELSE f.cb \div 8 + 8 + 4096 * f.nb
ImageLen(f) == 48 + BodyLen(f) + Len(f.data)

NonZero(base, bytes) == { << base + i - 1, bytes[i] >> : i \in { j \in DOMAIN bytes : bytes[j] # 0 } }

Body(f) ==
  (IF f.v = 1 THEN BitBytes(48, f.bits)
   ELSE LET c == f.cb \div 8
        IN  BitBytes(48, f.cbits) \cup NonZero(48 + c, LE64(f.nb)) \cup BitBytes(48 + c + 8, f.bits))
  \cup NonZero(48 + BodyLen(f), f.data)
=============================================================================
