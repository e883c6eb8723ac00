------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Which byte strings are filters.                                         *)
(*                                                                         *)
(* A byte string is described by its length and, as far as it has them,    *)
(* its first 48 bytes (head) and the 8 bytes of the number of buckets      *)
(* (nbf), which in the Poppy format follow the lookup cache.               *)
(*                                                                         *)
(*   DCSO (1):  flags cap fpp k bits count            words...      data   *)
(*   Poppy (2): flags cap fpp k count cachebits cache nb buckets... data   *)
(*                                                                         *)
(* All fields take 8 bytes, little-endian; flags are the format, the       *)
(* optimisation level and 6 bytes that are not used.                       *)
(***************************************************************************)
EXTENDS U64, Naturals, Integers, Sequences

U64At(b, o) == SubSeq(b, o + 1, o + 8)

Version(b) == b[1]
OptByte(b) == b[2]
FppField(b) == U64At(b, 16)
BitsField(b) == U64At(b, 32)    \* DCSO
CacheField(b) == U64At(b, 40)   \* Poppy

One == << 0, 0, 0, 0, 0, 0, 240, 63 >>       \* 1.0
MinNormal == << 0, 0, 0, 0, 0, 0, 16, 0 >>
Zero8 == << 0, 0, 0, 0, 0, 0, 0, 0 >>

\* floating point numbers in ]0;1] are ordered as their bits; "?" for the
\* positive numbers too small to be normal
FppClass(x) ==
  IF x = Zero8 THEN "bad"
  ELSE IF ~Geq64(One, x) THEN "bad"           \* above 1, infinite, NaN, or negative
  ELSE IF Geq64(x, MinNormal) THEN "good" ELSE "?"

\* sizes that no file can have
TooBig == 1000000000
Sized(x) == IF FitsNat(x) /\ ToNat(x) < TooBig THEN ToNat(x) ELSE TooBig
Ceil(n, d) == (n + d - 1) \div d
PlusBig(a, b) == IF a >= TooBig \/ b >= TooBig \/ a + b >= TooBig THEN TooBig ELSE a + b
TimesBig(n, c) == IF n > TooBig \div c THEN TooBig ELSE n * c

\* bytes up to the end of the bits that the header announces; nbf may be empty
\* when the file ends before
Needed(b, nbf) ==
  IF Version(b) = 1 THEN PlusBig(48, IF Sized(BitsField(b)) = TooBig THEN TooBig ELSE 8 * Ceil(Sized(BitsField(b)), 64))
  ELSE LET c == Sized(CacheField(b))
           start == PlusBig(56, IF c = TooBig THEN TooBig ELSE Ceil(c, 8))
       IN  IF nbf = << >> THEN start ELSE PlusBig(start, TimesBig(Sized(nbf), 4096))

\* loader: "gen", "v1" or "v2" and full; "partial" (generic, metadata only).
\* "refuse", "accept" or "either".  Only what was saved and possibly had data
\* appended (whole) must be accepted.
Verdict(loader, head, nbf, len, whole) ==
  IF len < 8 THEN IF loader = "partial" THEN "either" ELSE "refuse"
  ELSE IF Version(head) \notin {1, 2} \/ OptByte(head) > 3 THEN "refuse"
  ELSE IF (loader = "v1" /\ Version(head) = 2) \/ (loader = "v2" /\ Version(head) = 1) THEN "refuse"
  ELSE IF Version(head) = 2 /\ len >= 24 /\ FppClass(FppField(head)) = "bad" THEN "refuse"
  ELSE IF loader # "partial" /\ (len < 48 \/ (Version(head) = 2 /\ nbf = << >>) \/ len < Needed(head, nbf)) THEN "refuse"
  ELSE IF whole THEN "accept" ELSE "either"

\* most memory that loading a byte string of length len may take
MemoryLimit(len) == 67108864 + 16 * len
=============================================================================
