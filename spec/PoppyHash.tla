----------------------------- MODULE PoppyHash -----------------------------
(***************************************************************************)
(* Where an entry's bits live, in both filter formats.                     *)
(*                                                                         *)
(*  - DCSO format ("v1"): FNV-1 of the bytes, reduced modulo the largest   *)
(*    64-bit prime, then a multiplicative walk modulo the filter size.     *)
(*  - Poppy format ("v2"): the bytes themselves when there are at most 8,  *)
(*    wyhash (fixed seed) otherwise; the bucket comes from a xorshift* of  *)
(*    that hash and the bits inside the bucket from double hashing.        *)
(*                                                                         *)
(* Bytes are tuples of 0..255; 64-bit numbers are limb tuples (U64).       *)
(***************************************************************************)
EXTENDS U64

BUCKET_BITS == 32768

----------------------------------------------------------------------------
(* FNV-1, 64 bits *)
FNV_OFFSET == << 37, 35, 34, 132, 228, 156, 242, 203 >>   \* 0xcbf29ce484222325
FNV_PRIME  == << 179, 1, 0, 0, 0, 1, 0, 0 >>              \* 0x100000001b3

Fnv1(bytes) ==
  FoldLeft(LAMBDA h, b : LET p == Mul64(h, FNV_PRIME) IN [ p EXCEPT ![1] = @ ^^ b ],
           FNV_OFFSET, bytes)

\* 2^64 - 59, the largest 64-bit prime, and the DCSO generator 2^64 - 1469
V1_M == << 197, 255, 255, 255, 255, 255, 255, 255 >>
V1_G == << 67, 250, 255, 255, 255, 255, 255, 255 >>

\* x mod V1_M: x < 2^64 < 2 * V1_M, and x - (2^64 - 59) = x + 59 (mod 2^64)
ModM(x) == IF Geq64(x, V1_M) THEN Add64(x, << 59, 0, 0, 0, 0, 0, 0, 0 >>) ELSE x

\* the k bit positions of an entry in a DCSO filter of m bits
V1Walk(bytes, k) ==
  FoldLeft(LAMBDA acc, i : LET h == ModM(Mul64(acc[1], V1_G)) IN << h, Append(acc[2], h) >>,
           << ModM(Fnv1(bytes)), << >> >>, [ i \in 1..k |-> i ])[2]

V1Bits(bytes, k, m) == LET w == V1Walk(bytes, k) IN [ i \in 1..k |-> ModNat(w[i], m) ]

----------------------------------------------------------------------------
(* wyhash 0.5 *)
WY_SEED == << 66, 61, 83, 121, 112, 112, 111, 112 >>      \* 0x706f707079533d42
P0 == << 47, 100, 189, 120, 100, 29, 118, 160 >>          \* 0xa0761d6478bd642f
P1 == << 219, 40, 180, 160, 209, 126, 3, 231 >>           \* 0xe7037ed1a0b428db
P2 == << 227, 198, 136, 156, 240, 106, 188, 142 >>        \* 0x8ebc6af09c88c6e3
P3 == << 195, 76, 55, 117, 204, 101, 153, 88 >>           \* 0x589965cc75374cc3
P4 == << 79, 18, 125, 196, 39, 78, 142, 29 >>             \* 0x1d8e4e27c47d124f
P5 == << 101, 209, 85, 180, 202, 172, 68, 235 >>          \* 0xeb44accab455d165

\* 8 bytes starting after offset o
Rd64(b, o)  == << b[o+1], b[o+2], b[o+3], b[o+4], b[o+5], b[o+6], b[o+7], b[o+8] >>
\* the two 32-bit halves exchanged
Rd64s(b, o) == << b[o+5], b[o+6], b[o+7], b[o+8], b[o+1], b[o+2], b[o+3], b[o+4] >>
\* the last 1..8 bytes, in wyhash's peculiar order (limbs, low first)
RdRest(b, o, n) ==
  CASE n = 1 -> << b[o+1], 0, 0, 0, 0, 0, 0, 0 >>
    [] n = 2 -> << b[o+1], b[o+2], 0, 0, 0, 0, 0, 0 >>
    [] n = 3 -> << b[o+3], b[o+1], b[o+2], 0, 0, 0, 0, 0 >>
    [] n = 4 -> << b[o+1], b[o+2], b[o+3], b[o+4], 0, 0, 0, 0 >>
    [] n = 5 -> << b[o+5], b[o+1], b[o+2], b[o+3], b[o+4], 0, 0, 0 >>
    [] n = 6 -> << b[o+5], b[o+6], b[o+1], b[o+2], b[o+3], b[o+4], 0, 0 >>
    [] n = 7 -> << b[o+7], b[o+5], b[o+6], b[o+1], b[o+2], b[o+3], b[o+4], 0 >>
    [] n = 8 -> << b[o+5], b[o+6], b[o+7], b[o+8], b[o+1], b[o+2], b[o+3], b[o+4] >>

WyCore(b, seed0) ==
  LET n  == Len(b)
      s1 == FoldLeft(LAMBDA s, c :
                       LET o == 32 * (c - 1) IN
                       Mum(Xor64(s, P0),
                           Xor64(Mum(Xor64(Rd64(b, o), P1), Xor64(Rd64(b, o + 8), P2)),
                                 Mum(Xor64(Rd64(b, o + 16), P3), Xor64(Rd64(b, o + 24), P4)))),
                     seed0, [ c \in 1..(n \div 32) |-> c ])
      s  == Xor64(s1, P0)
      r  == n % 32
      o  == n - r
  IN  CASE r = 0  -> s
        [] r \in 1..8   -> Mum(s, Xor64(RdRest(b, o, r), P1))
        [] r \in 9..16  -> Mum(Xor64(Rd64s(b, o), s), Xor64(RdRest(b, o + 8, r - 8), P2))
        [] r \in 17..24 -> Xor64(Mum(Xor64(Rd64s(b, o), s), Xor64(Rd64s(b, o + 8), P2)),
                                 Mum(s, Xor64(RdRest(b, o + 16, r - 16), P3)))
        [] OTHER        -> Xor64(Mum(Xor64(Rd64s(b, o), s), Xor64(Rd64s(b, o + 8), P2)),
                                 Mum(Xor64(Rd64s(b, o + 16), s), Xor64(RdRest(b, o + 24, r - 24), P4)))

WyFinish(len, s) == Mum(s, Xor64(FromNat(len), P5))

\* hash of a sequence of writes (a hashable value may be fed in pieces)
WyPieces(pieces) ==
  LET acc == FoldLeft(LAMBDA a, p : << WyCore(p, a[1]), a[2] + Len(p) >>, << WY_SEED, 0 >>, pieces)
  IN  WyFinish(acc[2], acc[1])

Wy(b) == WyPieces(<< b >>)

----------------------------------------------------------------------------
(* Poppy format *)

\* first hash of a byte string
H1(b) == IF Len(b) > 8 THEN Wy(b)
         ELSE [ i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 0 ]

XorShiftStar(x) ==
  LET a == Xor64(x, Shl64(x, 12))
      b == Xor64(a, Shr64(a, 25))
      c == Xor64(b, Shl64(b, 27))
  IN  Mul64(c, << 29, 221, 108, 79, 145, 244, 69, 37 >>)   \* 0x2545f4914f6cdd1d

\* position within a bucket: the low 15 bits
Low15(h) == h[1] + 256 * (h[2] % 128)

\* the k successive positions of hash h1 inside its bucket
V2Walk(h1, k) ==
  IF k = 0 THEN << >>
  ELSE LET h2 == Wy(Reverse(h1))
           step(acc, i) == LET h == Add64(acc[1], acc[2])
                           IN  << h, Add64(acc[2], FromNat(i)), Append(acc[3], Low15(h)) >>
       IN  FoldLeft(step, << h1, h2, << Low15(h1) >> >>, [ i \in 1..(k - 1) |-> i ])[3]
=============================================================================
