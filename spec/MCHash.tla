------------------------------- MODULE MCHash -------------------------------
(***************************************************************************)
(* Checks the machine arithmetic and the hash functions of the             *)
(* specification themselves: laws of arithmetic on all pairs of corner     *)
(* values, and the published test vectors of FNV-1 and wyhash.             *)
(***************************************************************************)
EXTENDS PoppyHash, FiniteSets

CONSTANT Limbs        \* limb patterns the corner values are built from

VARIABLES a, b
vars == << a, b >>

\* values with one, all but one, or the lowest or highest limbs set
Corner ==
  { [ i \in 1..8 |-> IF i = p THEN x ELSE 0 ] : p \in 1..8, x \in Limbs }
  \cup { [ i \in 1..8 |-> IF i = p THEN 0 ELSE 255 ] : p \in 1..8 }
  \cup { [ i \in 1..8 |-> IF i < p THEN x ELSE y ] : p \in 1..9, x \in {0, 255}, y \in {0, 1, 128, 255} }
  \cup { FNV_OFFSET, FNV_PRIME, V1_M, V1_G, WY_SEED, P0, P1, P2, P3, P4, P5 }

Init == a \in Corner /\ b = Zero64
Pair == b = Zero64 /\ b' \in Corner /\ UNCHANGED a
Spec == Init /\ [][Pair]_vars

One64 == FromNat(1)
Neg(x) == Add64([ i \in 1..8 |-> 255 - x[i] ], One64)
Low(p) == SubSeq(p, 1, 8)
High(p) == SubSeq(p, 9, 16)
\* the sum does not fit
Overflows(x, y) == ~Geq64(Add64(x, y), x)
\* 2^64 modulo m
TwoTo64(m) == FoldLeft(LAMBDA r, i : (r * 256) % m, 1 % m, << 1, 2, 3, 4, 5, 6, 7, 8 >>)
Bit(s) == [ i \in 1..8 |-> IF i = s \div 8 + 1 THEN 2 ^ (s % 8) ELSE 0 ]

IsU64(x) == DOMAIN x = 1..8 /\ \A i \in 1..8 : x[i] \in 0..255
Types == IsU64(Add64(a, b)) /\ IsU64(Mul64(a, b)) /\ IsU64(Xor64(a, b)) /\ IsU64(Mum(a, b))

Adding == Add64(a, b) = Add64(b, a) /\ Add64(a, Neg(a)) = Zero64 /\ Add64(Add64(a, b), Neg(b)) = a
Multiplying ==
  /\ Mul64(a, b) = Mul64(b, a)
  /\ Mul128(a, b) = Mul128(b, a)
  /\ Low(Mul128(a, b)) = Mul64(a, b)
  /\ Mul64(a, Add64(b, One64)) = Add64(Mul64(a, b), a)
  /\ Mul64(Neg(a), b) = Neg(Mul64(a, b))
  \* (2^64 - a) * b = 2^64 * b - a * b
  /\ a # Zero64 => LET p == Mul128(a, b)
                       borrow == IF Low(p) = Zero64 THEN Zero64 ELSE One64
                   IN  High(Mul128(Neg(a), b)) = Add64(b, Neg(Add64(High(p), borrow)))
Shifting ==
  \A s \in {0, 1, 3, 7, 8, 12, 25, 27, 31, 32, 63} :
    /\ Shl64(a, s) = Mul64(a, Bit(s))
    /\ s > 0 => Shr64(a, s) = High(Mul128(a, Bit(64 - s)))
    /\ Add64(Shl64(Shr64(a, s), s),
             [ i \in 1..8 |-> IF i - 1 < s \div 8 THEN a[i] ELSE IF i - 1 = s \div 8 THEN a[i] % 2 ^ (s % 8) ELSE 0 ]) = a
Xoring == Xor64(a, b) = Xor64(b, a) /\ Xor64(Xor64(a, b), b) = a /\ Xor64(a, Zero64) = a
Comparing ==
  /\ Geq64(a, b) \/ Geq64(b, a)
  /\ (Geq64(a, b) /\ Geq64(b, a)) <=> (a = b)
  /\ b # Zero64 => (Geq64(a, b) <=> ~Geq64(Add64(b, Neg(One64)), a))
Remainders ==
  \A m \in {1, 2, 3, 64, 97, 255, 256, 257, 32768, 65537, 8388607} :
    /\ ModNat(a, m) < m
    /\ ModNat(Add64(a, b), m) = (ModNat(a, m) + ModNat(b, m) + (IF Overflows(a, b) THEN m - TwoTo64(m) ELSE 0)) % m
    /\ FitsNat(a) => ModNat(a, m) = ToNat(a) % m
Reducing ==
  /\ ~Geq64(ModM(a), V1_M)
  /\ Geq64(a, V1_M) => Add64(ModM(a), V1_M) = a
  /\ ~Geq64(a, V1_M) => ModM(a) = a

Laws == Types /\ Adding /\ Multiplying /\ Shifting /\ Xoring /\ Comparing /\ Remainders /\ Reducing

----------------------------------------------------------------------------
(* Published vectors *)
ASSUME Fnv1(<< >>) = << 37, 35, 34, 132, 228, 156, 242, 203 >>
ASSUME Fnv1(<< 97 >>) = << 190, 183, 1, 134, 76, 189, 99, 175 >>
ASSUME Fnv1(<< 102, 111, 111, 98, 97, 114 >>) = << 194, 169, 221, 164, 101, 135, 13, 52 >>

\* wyhash of the bytes 0, 1, .., n - 1 with seed n, for n = 0, 1, .. (from the C implementation)
Published == <<
  << 69, 147, 156, 226, 54, 249, 97, 249 >>,
  << 163, 48, 104, 18, 101, 190, 252, 131 >>,
  << 72, 116, 186, 191, 196, 56, 237, 202 >>,
  << 93, 217, 26, 11, 82, 65, 249, 176 >>,
  << 147, 85, 101, 181, 5, 13, 252, 34 >>,
  << 221, 185, 26, 165, 108, 59, 150, 175 >>,
  << 184, 65, 168, 165, 91, 215, 233, 138 >>,
  << 59, 108, 107, 214, 236, 70, 29, 253 >>,
  << 120, 11, 175, 21, 3, 141, 110, 39 >>,
  << 123, 114, 67, 213, 241, 219, 18, 135 >>,
  << 108, 20, 31, 78, 137, 230, 57, 155 >>,
  << 181, 28, 180, 101, 237, 36, 49, 196 >>,
  << 28, 159, 24, 32, 69, 253, 221, 211 >>,
  << 31, 109, 77, 252, 68, 29, 122, 14 >>,
  << 35, 177, 130, 168, 111, 175, 181, 77 >>,
  << 115, 173, 154, 202, 148, 243, 43, 231 >>,
  << 245, 185, 226, 103, 149, 118, 16, 149 >>,
  << 50, 211, 82, 94, 223, 173, 200, 228 >>,
  << 208, 240, 96, 19, 179, 135, 246, 123 >>,
  << 96, 27, 30, 62, 34, 244, 142, 219 >>,
  << 190, 152, 251, 195, 21, 181, 181, 67 >>,
  << 193, 80, 75, 54, 173, 206, 62, 81 >>,
  << 181, 211, 182, 72, 164, 248, 166, 81 >>,
  << 173, 85, 212, 130, 26, 150, 98, 173 >>,
  << 6, 73, 3, 122, 55, 44, 190, 188 >>,
  << 45, 188, 82, 8, 166, 243, 251, 137 >>,
  << 225, 91, 242, 29, 124, 20, 38, 15 >>,
  << 179, 24, 233, 101, 143, 69, 127, 40 >>,
  << 227, 3, 53, 254, 214, 162, 85, 80 >>,
  << 227, 79, 35, 245, 194, 142, 46, 135 >>,
  << 53, 172, 204, 92, 34, 194, 47, 240 >>,
  << 191, 120, 15, 94, 155, 33, 95, 133 >>,
  << 245, 68, 240, 12, 230, 36, 230, 57 >>,
  << 98, 80, 38, 96, 22, 149, 75, 149 >>,
  << 22, 128, 60, 212, 175, 124, 113, 16 >>,
  << 223, 12, 222, 106, 83, 249, 201, 170 >>,
  << 96, 251, 125, 132, 130, 106, 130, 133 >>,
  << 160, 37, 238, 110, 87, 96, 198, 30 >>,
  << 5, 20, 146, 71, 229, 97, 61, 126 >>,
  << 4, 88, 136, 208, 120, 2, 141, 4 >>,
  << 238, 209, 38, 85, 204, 45, 161, 249 >>,
  << 102, 195, 68, 251, 229, 90, 83, 127 >>,
  << 174, 83, 47, 162, 57, 100, 67, 145 >>,
  << 65, 163, 143, 110, 101, 99, 33, 80 >>,
  << 200, 226, 76, 145, 56, 97, 69, 27 >>,
  << 242, 136, 132, 0, 202, 6, 251, 49 >>,
  << 162, 62, 252, 124, 162, 144, 65, 34 >>,
  << 105, 209, 4, 195, 162, 206, 66, 208 >>,
  << 157, 102, 164, 149, 146, 123, 249, 130 >>,
  << 227, 174, 81, 109, 83, 204, 17, 185 >>,
  << 223, 135, 221, 57, 225, 98, 130, 15 >>,
  << 55, 58, 201, 83, 235, 191, 167, 70 >>,
  << 190, 139, 198, 129, 152, 52, 10, 91 >>,
  << 80, 122, 206, 101, 249, 216, 70, 115 >>,
  << 211, 2, 184, 129, 11, 206, 160, 106 >>,
  << 65, 137, 179, 206, 71, 61, 24, 193 >>,
  << 107, 66, 203, 141, 95, 17, 57, 60 >>,
  << 207, 167, 69, 123, 76, 59, 14, 146 >>,
  << 146, 1, 130, 64, 146, 9, 4, 150 >>,
  << 23, 217, 205, 57, 29, 189, 243, 142 >>,
  << 141, 33, 186, 51, 193, 125, 10, 130 >>,
  << 179, 211, 120, 81, 150, 244, 228, 101 >>,
  << 95, 72, 23, 161, 198, 37, 181, 222 >>,
  << 173, 167, 82, 142, 209, 199, 247, 32 >>,
  << 44, 75, 176, 176, 65, 238, 213, 86 >>,
  << 27, 43, 30, 42, 117, 237, 197, 58 >>,
  << 235, 58, 81, 142, 27, 165, 206, 50 >>,
  << 120, 143, 77, 87, 207, 59, 40, 108 >>,
  << 99, 159, 238, 253, 106, 186, 78, 141 >>,
  << 117, 121, 87, 111, 29, 100, 159, 176 >>,
  << 167, 187, 154, 112, 211, 240, 215, 141 >>,
  << 207, 89, 214, 70, 8, 169, 51, 173 >>,
  << 198, 221, 138, 197, 73, 202, 95, 226 >>,
  << 213, 14, 53, 29, 166, 246, 64, 36 >>,
  << 22, 63, 163, 87, 78, 114, 132, 107 >>,
  << 153, 43, 125, 57, 61, 220, 101, 181 >>,
  << 92, 181, 157, 77, 149, 118, 78, 97 >>,
  << 233, 232, 80, 40, 110, 225, 163, 91 >>,
  << 42, 177, 251, 236, 81, 167, 153, 61 >>,
  << 230, 112, 65, 204, 98, 222, 173, 188 >>,
  << 177, 231, 16, 122, 116, 59, 180, 20 >>,
  << 159, 103, 14, 32, 222, 22, 87, 150 >>,
  << 252, 115, 146, 217, 233, 52, 192, 207 >>,
  << 200, 6, 14, 36, 18, 66, 226, 230 >>,
  << 50, 88, 93, 235, 58, 164, 163, 7 >>,
  << 228, 194, 177, 213, 173, 107, 164, 83 >>,
  << 135, 178, 44, 7, 202, 241, 200, 239 >>,
  << 223, 216, 23, 96, 76, 175, 25, 162 >>,
  << 77, 91, 43, 6, 126, 29, 248, 252 >>,
  << 223, 21, 141, 108, 59, 196, 247, 153 >>,
  << 141, 207, 45, 110, 222, 67, 157, 250 >>,
  << 232, 101, 68, 2, 80, 2, 68, 73 >>,
  << 198, 104, 254, 29, 52, 192, 61, 201 >>,
  << 239, 60, 170, 223, 126, 17, 113, 115 >>,
  << 31, 134, 199, 199, 92, 124, 80, 218 >>,
  << 160, 223, 97, 222, 199, 185, 199, 141 >>,
  << 158, 220, 180, 160, 193, 170, 144, 55 >>,
  << 39, 99, 87, 27, 111, 39, 105, 0 >>,
  << 194, 157, 168, 169, 68, 163, 40, 219 >>,
  << 255, 234, 83, 237, 206, 70, 121, 211 >>,
  << 88, 152, 227, 2, 55, 222, 178, 32 >>,
  << 107, 91, 32, 143, 41, 11, 4, 236 >>,
  << 0, 37, 117, 168, 151, 205, 204, 233 >>,
  << 201, 88, 194, 75, 254, 223, 91, 90 >>,
  << 2, 147, 105, 108, 222, 167, 230, 165 >>,
  << 255, 47, 157, 73, 138, 207, 12, 170 >>,
  << 251, 245, 96, 134, 208, 250, 32, 63 >>,
  << 99, 200, 26, 168, 38, 30, 58, 212 >>,
  << 66, 146, 251, 4, 117, 72, 113, 16 >>,
  << 185, 165, 234, 230, 209, 84, 157, 196 >>,
  << 25, 240, 26, 43, 202, 107, 161, 22 >>,
  << 46, 245, 30, 6, 6, 122, 154, 228 >>,
  << 12, 157, 165, 97, 194, 104, 191, 80 >>,
  << 181, 25, 19, 191, 101, 55, 140, 63 >>,
  << 119, 200, 119, 216, 140, 113, 109, 68 >>,
  << 7, 34, 49, 148, 8, 138, 73, 34 >>,
  << 66, 21, 132, 92, 98, 4, 55, 107 >>,
  << 41, 78, 176, 228, 190, 53, 70, 245 >>,
  << 199, 72, 243, 219, 186, 27, 42, 1 >>,
  << 31, 142, 122, 161, 113, 68, 99, 49 >>,
  << 46, 205, 107, 196, 32, 69, 106, 219 >>,
  << 75, 82, 145, 226, 228, 194, 122, 20 >>,
  << 40, 84, 32, 110, 244, 157, 198, 176 >>,
  << 60, 185, 229, 91, 85, 192, 192, 62 >>,
  << 56, 131, 220, 0, 122, 252, 11, 126 >>,
  << 139, 149, 80, 168, 238, 92, 28, 243 >>,
  << 34, 238, 98, 77, 55, 17, 80, 179 >>,
  << 196, 249, 229, 231, 91, 73, 104, 23 >>,
  << 0, 85, 123, 32, 207, 135, 29, 236 >>,
  << 16, 224, 221, 55, 111, 180, 104, 120 >>,
  << 131, 67, 215, 56, 213, 184, 100, 197 >>,
  << 35, 6, 179, 180, 211, 54, 227, 235 >>,
  << 183, 42, 190, 118, 210, 99, 136, 240 >>,
  << 83, 35, 200, 130, 97, 160, 217, 177 >>,
  << 156, 120, 47, 26, 88, 110, 167, 116 >>,
  << 211, 173, 171, 15, 99, 238, 59, 189 >>,
  << 29, 175, 99, 77, 106, 134, 222, 167 >>,
  << 250, 69, 178, 50, 107, 23, 75, 69 >>,
  << 107, 59, 151, 115, 100, 96, 36, 2 >>,
  << 236, 223, 184, 195, 59, 170, 207, 181 >>,
  << 142, 189, 171, 205, 169, 42, 247, 213 >>,
  << 13, 162, 91, 146, 40, 82, 164, 167 >>,
  << 74, 103, 5, 141, 207, 116, 146, 149 >>,
  << 146, 192, 165, 127, 71, 123, 168, 46 >>,
  << 143, 44, 71, 101, 199, 163, 10, 113 >>,
  << 177, 163, 13, 171, 81, 193, 166, 208 >>,
  << 152, 188, 182, 75, 181, 164, 63, 50 >>,
  << 82, 54, 87, 35, 240, 52, 6, 214 >>,
  << 130, 152, 175, 50, 203, 107, 232, 60 >>,
  << 184, 194, 144, 251, 97, 85, 135, 29 >>,
  << 48, 164, 211, 197, 172, 133, 139, 54 >>,
  << 219, 179, 230, 117, 108, 129, 218, 250 >>,
  << 203, 30, 57, 17, 17, 66, 114, 119 >>,
  << 51, 106, 104, 185, 91, 132, 80, 103 >>,
  << 192, 66, 243, 90, 205, 73, 233, 230 >>,
  << 67, 46, 12, 105, 203, 211, 162, 73 >>,
  << 159, 99, 161, 160, 184, 154, 119, 141 >>,
  << 71, 169, 218, 43, 194, 152, 74, 222 >>,
  << 129, 234, 145, 83, 2, 51, 171, 201 >>,
  << 117, 221, 168, 106, 213, 147, 58, 235 >>,
  << 218, 249, 40, 61, 94, 79, 233, 101 >>,
  << 26, 125, 176, 61, 252, 79, 159, 63 >>,
  << 83, 7, 29, 94, 170, 246, 133, 4 >>,
  << 135, 193, 185, 82, 209, 54, 12, 183 >>,
  << 108, 254, 131, 63, 227, 113, 200, 42 >>,
  << 116, 1, 161, 10, 227, 65, 167, 29 >>,
  << 6, 11, 73, 125, 173, 8, 213, 187 >>,
  << 100, 57, 204, 137, 98, 177, 222, 36 >>,
  << 114, 121, 50, 119, 126, 16, 241, 182 >>,
  << 240, 254, 184, 133, 67, 219, 21, 102 >>,
  << 99, 78, 166, 15, 191, 34, 232, 210 >>,
  << 68, 183, 111, 8, 6, 99, 237, 83 >>,
  << 96, 36, 238, 225, 160, 10, 107, 203 >>,
  << 214, 14, 39, 80, 51, 75, 250, 59 >>,
  << 8, 77, 253, 65, 32, 253, 239, 89 >>,
  << 46, 99, 202, 2, 28, 198, 252, 67 >>,
  << 10, 253, 92, 150, 160, 83, 117, 175 >>,
  << 162, 39, 30, 152, 133, 113, 171, 15 >>,
  << 26, 12, 104, 201, 155, 117, 252, 195 >>,
  << 66, 123, 121, 248, 232, 62, 72, 50 >>,
  << 85, 82, 82, 27, 239, 249, 176, 78 >>,
  << 54, 100, 206, 68, 176, 255, 224, 156 >>,
  << 223, 68, 203, 203, 185, 47, 5, 99 >>,
  << 34, 209, 43, 7, 182, 34, 28, 48 >>,
  << 80, 148, 190, 205, 27, 15, 182, 104 >>,
  << 242, 40, 189, 142, 132, 84, 137, 30 >>,
  << 103, 46, 190, 43, 96, 205, 4, 1 >>,
  << 110, 199, 7, 145, 220, 70, 216, 252 >>,
  << 4, 222, 179, 70, 247, 158, 214, 87 >>,
  << 168, 234, 83, 171, 144, 118, 131, 212 >>,
  << 148, 120, 187, 153, 73, 234, 80, 142 >>,
  << 246, 147, 70, 167, 85, 234, 193, 204 >>,
  << 136, 192, 27, 250, 112, 16, 181, 146 >>,
  << 151, 245, 245, 207, 110, 192, 134, 123 >>,
  << 231, 177, 54, 73, 37, 253, 148, 75 >>,
  << 1, 142, 98, 192, 192, 31, 254, 88 >>,
  << 96, 215, 119, 105, 137, 248, 213, 147 >>,
  << 244, 182, 176, 45, 173, 111, 30, 118 >>,
  << 247, 252, 205, 229, 194, 60, 153, 142 >>,
  << 113, 44, 40, 94, 172, 77, 146, 54 >>,
  << 129, 38, 55, 4, 138, 173, 44, 162 >>,
  << 223, 173, 131, 243, 169, 150, 132, 78 >>,
  << 186, 146, 169, 49, 27, 98, 27, 32 >>,
  << 228, 149, 136, 17, 145, 240, 28, 224 >>,
  << 58, 171, 83, 121, 239, 155, 69, 38 >>,
  << 238, 113, 69, 234, 51, 232, 111, 192 >>,
  << 73, 136, 219, 186, 253, 2, 85, 84 >>,
  << 222, 224, 229, 93, 151, 172, 137, 244 >>,
  << 62, 248, 95, 77, 156, 214, 120, 197 >>,
  << 167, 15, 58, 205, 229, 113, 101, 20 >>,
  << 42, 107, 13, 199, 212, 161, 183, 92 >>,
  << 13, 95, 225, 255, 246, 227, 152, 82 >>,
  << 9, 114, 104, 39, 101, 119, 130, 54 >>,
  << 242, 219, 79, 82, 89, 154, 177, 17 >>,
  << 27, 139, 10, 214, 121, 2, 89, 169 >>,
  << 10, 18, 25, 136, 193, 162, 62, 170 >>,
  << 45, 84, 29, 60, 137, 173, 102, 39 >>,
  << 136, 214, 139, 73, 104, 119, 164, 226 >>,
  << 109, 41, 71, 30, 112, 10, 31, 46 >>,
  << 251, 201, 208, 212, 178, 99, 20, 79 >>,
  << 49, 250, 253, 3, 74, 140, 96, 238 >>,
  << 105, 203, 228, 114, 27, 22, 210, 212 >>,
  << 111, 158, 142, 207, 59, 158, 200, 95 >>,
  << 100, 16, 167, 163, 24, 173, 232, 140 >>,
  << 139, 203, 190, 86, 196, 227, 166, 1 >>,
  << 237, 131, 227, 91, 99, 166, 200, 227 >>,
  << 215, 220, 29, 98, 167, 128, 139, 243 >>,
  << 94, 132, 172, 249, 82, 33, 138, 144 >>,
  << 139, 2, 191, 99, 183, 82, 172, 141 >>,
  << 49, 144, 78, 4, 87, 176, 89, 223 >>,
  << 144, 137, 201, 117, 216, 160, 3, 213 >>,
  << 177, 63, 173, 14, 165, 193, 210, 158 >>,
  << 140, 18, 209, 77, 112, 193, 252, 242 >>,
  << 62, 85, 218, 145, 108, 34, 235, 145 >>,
  << 80, 100, 141, 58, 45, 122, 224, 33 >>,
  << 54, 211, 2, 64, 241, 43, 188, 37 >>,
  << 47, 222, 46, 33, 198, 36, 165, 115 >>,
  << 125, 252, 152, 167, 131, 63, 184, 199 >>,
  << 65, 55, 139, 158, 57, 143, 189, 51 >>,
  << 43, 153, 51, 124, 13, 143, 212, 178 >>,
  << 204, 57, 156, 37, 107, 91, 162, 168 >>,
  << 59, 255, 198, 54, 86, 185, 175, 74 >>,
  << 243, 203, 57, 103, 197, 192, 133, 246 >>,
  << 41, 96, 167, 173, 5, 86, 136, 95 >>,
  << 175, 124, 177, 81, 108, 45, 210, 110 >>,
  << 181, 192, 8, 200, 180, 4, 253, 107 >>,
  << 97, 188, 252, 104, 229, 141, 53, 171 >>,
  << 165, 220, 146, 249, 162, 45, 228, 151 >>,
  << 69, 96, 161, 196, 159, 228, 238, 234 >>,
  << 204, 239, 19, 206, 188, 247, 254, 168 >>,
  << 68, 15, 170, 10, 156, 186, 197, 211 >>,
  << 40, 75, 240, 195, 105, 217, 64, 210 >>,
  << 196, 141, 40, 64, 202, 235, 30, 84 >>,
  << 0, 220, 121, 119, 71, 104, 39, 41 >>,
  << 76, 3, 8, 150, 33, 136, 39, 23 >>,
  << 186, 6, 34, 39, 214, 36, 80, 13 >>
>>
ASSUME \A n \in 0..(Len(Published) - 1) :
         WyFinish(n, WyCore([ i \in 1..n |-> i - 1 ], FromNat(n))) = Published[n + 1]
=============================================================================
