-------------------------------- MODULE U64 --------------------------------
(***************************************************************************)
(* 64-bit unsigned machine arithmetic, spelled out over eight base-256     *)
(* limbs (least significant first), because TLC's integers have 32 bits.   *)
(* A u64 is a tuple of 8 numbers in 0..255; a u128 is a tuple of 16.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* a small number (< 2^31) as a u64
FromNat(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256,
                 n \div 16777216, 0, 0, 0, 0 >>

\* the value of a u64 that fits in 31 bits
FitsNat(a) == a[5] = 0 /\ a[6] = 0 /\ a[7] = 0 /\ a[8] = 0 /\ a[4] < 128
ToNat(a) == a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * a[4]

Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4],
                  a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>

\* carries out a tuple of column sums into base-256 limbs, dropping overflow
Carry(cols) ==
  FoldLeft(LAMBDA acc, c : << Append(acc[1], (c + acc[2]) % 256), (c + acc[2]) \div 256 >>,
           << << >>, 0 >>, cols)[1]

Add64(a, b) == Carry([ i \in 1..8 |-> a[i] + b[i] ])

\* column i (0-based) of the schoolbook product of two u64
Col(a, b, i) ==
  LET lo == IF i > 7 THEN i - 7 ELSE 0
      hi == IF i > 7 THEN 7 ELSE i
  IN  FoldLeft(LAMBDA s, j : s + a[lo + j] * b[i - lo - j + 2], 0,
               [ j \in 1..(hi - lo + 1) |-> j ])

Mul128(a, b) == Carry([ i \in 1..16 |-> IF i = 16 THEN 0 ELSE Col(a, b, i - 1) ])
Mul64(a, b)  == Carry([ i \in 1..8 |-> Col(a, b, i - 1) ])

\* fold of a 128-bit product: high half xor low half
Mum(a, b) == LET p == Mul128(a, b)
             IN  Xor64(SubSeq(p, 1, 8), SubSeq(p, 9, 16))

\* shifts by s bits
Shl64(a, s) ==
  LET q == s \div 8
      f == 2 ^ (s % 8)
      sh == [ i \in 1..8 |-> IF i > q THEN a[i - q] ELSE 0 ]
  IN  Carry([ i \in 1..8 |-> sh[i] * f ])

Shr64(a, s) ==
  LET q == s \div 8
      r == s % 8
      at(i) == IF i <= 8 THEN a[i] ELSE 0
  IN  [ i \in 1..8 |-> ((at(i + q) + 256 * at(i + q + 1)) \div 2 ^ r) % 256 ]

\* a mod m for 0 < m < 2^23
ModNat(a, m) == FoldLeft(LAMBDA r, i : (r * 256 + a[9 - i]) % m, 0,
                         << 1, 2, 3, 4, 5, 6, 7, 8 >>)

\* a >= b
Geq64(a, b) ==
  FoldLeft(LAMBDA r, i : IF r # 0 THEN r
                         ELSE IF a[9 - i] > b[9 - i] THEN 1
                         ELSE IF a[9 - i] < b[9 - i] THEN 2 ELSE 0,
           0, << 1, 2, 3, 4, 5, 6, 7, 8 >>) # 2
=============================================================================
