----------------------------- MODULE SizeTable -----------------------------
(* Made by tools/mksizes.py.  For a probability p (named by the hexadecimal  *)
(* form of its 64 bit floating point number): its bytes, |ln p| / (ln 2)^2   *)
(* times 2^48 as limbs, and 32768 (ln 2)^2 / |ln p|, all rounded down.       *)
EXTENDS TLC

PTable ==
  "3ff0000000000000" :> [ bytes |-> << 0, 0, 0, 0, 0, 0, 240, 63 >>, a |-> << 0, 0, 0, 0, 0, 0, 0, 0 >>, bc |-> 2000000000 ] @@  \* 1
  "3fefae147ae147ae" :> [ bytes |-> << 174, 71, 225, 122, 20, 174, 239, 63 >>, a |-> << 18, 246, 121, 233, 90, 5, 0, 0 >>, bc |-> 1566463 ] @@  \* 0.99
  "3feccccccccccccd" :> [ bytes |-> << 205, 204, 204, 204, 204, 204, 236, 63 >>, a |-> << 121, 216, 162, 168, 35, 56, 0, 0 >>, bc |-> 149424 ] @@  \* 0.9
  "3fe999999999999a" :> [ bytes |-> << 154, 153, 153, 153, 153, 153, 233, 63 >>, a |-> << 17, 93, 106, 206, 229, 118, 0, 0 >>, bc |-> 70553 ] @@  \* 0.8
  "3fe8000000000000" :> [ bytes |-> << 0, 0, 0, 0, 0, 0, 232, 63 >>, a |-> << 203, 153, 69, 40, 73, 153, 0, 0 >>, bc |-> 54725 ] @@  \* 0.75
  "3fe3333333333333" :> [ bytes |-> << 51, 51, 51, 51, 51, 51, 227, 63 >>, a |-> << 221, 246, 175, 246, 46, 16, 1, 0 >>, bc |-> 30819 ] @@  \* 0.6
  "3fe0000000000000" :> [ bytes |-> << 0, 0, 0, 0, 0, 0, 224, 63 >>, a |-> << 47, 184, 82, 118, 84, 113, 1, 0 >>, bc |-> 22713 ] @@  \* 0.5
  "3fd3333333333333" :> [ bytes |-> << 51, 51, 51, 51, 51, 51, 211, 63 >>, a |-> << 13, 175, 2, 109, 131, 129, 2, 0 >>, bc |-> 13076 ] @@  \* 0.3
  "3fd0000000000000" :> [ bytes |-> << 0, 0, 0, 0, 0, 0, 208, 63 >>, a |-> << 95, 112, 165, 236, 168, 226, 2, 0 >>, bc |-> 11356 ] @@  \* 0.25
  "3fb999999999999a" :> [ bytes |-> << 154, 153, 153, 153, 153, 153, 185, 63 >>, a |-> << 161, 133, 98, 49, 227, 202, 4, 0 >>, bc |-> 6837 ] @@  \* 0.1
  "3fa999999999999a" :> [ bytes |-> << 154, 153, 153, 153, 153, 153, 169, 63 >>, a |-> << 208, 61, 181, 167, 55, 60, 6, 0 >>, bc |-> 5255 ] @@  \* 0.05
  "3f947ae147ae147b" :> [ bytes |-> << 123, 20, 174, 71, 225, 122, 148, 63 >>, a |-> << 18, 83, 114, 236, 113, 36, 8, 0 >>, bc |-> 4024 ] @@  \* 0.02
  "3f847ae147ae147b" :> [ bytes |-> << 123, 20, 174, 71, 225, 122, 132, 63 >>, a |-> << 66, 11, 197, 98, 198, 149, 9, 0 >>, bc |-> 3418 ] @@  \* 0.01
  "3f50624dd2f1a9fc" :> [ bytes |-> << 252, 169, 241, 210, 77, 98, 80, 63 >>, a |-> << 227, 144, 39, 148, 169, 96, 14, 0 >>, bc |-> 2279 ] @@  \* 0.001
  "3f1a36e2eb1c432d" :> [ bytes |-> << 45, 67, 28, 235, 226, 54, 26, 63 >>, a |-> << 132, 22, 138, 197, 140, 43, 19, 0 >>, bc |-> 1709 ] @@  \* 0.0001
  "3ee4f8b588e368f1" :> [ bytes |-> << 241, 104, 227, 136, 181, 248, 228, 62 >>, a |-> << 37, 156, 236, 246, 111, 246, 23, 0 >>, bc |-> 1367 ] @@  \* 1e-05
  "3eb0c6f7a0b5ed8d" :> [ bytes |-> << 141, 237, 181, 160, 247, 198, 176, 62 >>, a |-> << 198, 33, 79, 40, 83, 193, 28, 0 >>, bc |-> 1139 ] @@  \* 1e-06
  "3e112e0be826d695" :> [ bytes |-> << 149, 214, 38, 232, 11, 46, 17, 62 >>, a |-> << 169, 178, 118, 188, 252, 33, 43, 0 >>, bc |-> 759 ] @@  \* 1e-09
  "3d719799812dea11" :> [ bytes |-> << 17, 234, 45, 129, 153, 151, 113, 61 >>, a |-> << 140, 67, 158, 80, 166, 130, 57, 0 >>, bc |-> 569 ] @@  \* 1e-12
  "39b4484bfeebc2a0" :> [ bytes |-> << 160, 194, 235, 254, 75, 72, 180, 57 >>, a |-> << 223, 168, 139, 201, 159, 198, 143, 0 >>, bc |-> 227 ] @@  \* 1e-30
  "2b2bff2ee48e0530" :> [ bytes |-> << 48, 5, 142, 228, 46, 255, 43, 43 >>, a |-> << 233, 50, 124, 74, 191, 64, 223, 1 >>, bc |-> 68 ] @@  \* 1e-100
  "01a56e1fc2f8f359" :> [ bytes |-> << 89, 243, 248, 194, 31, 110, 165, 1 >>, a |-> << 187, 152, 116, 223, 61, 194, 157, 5 >>, bc |-> 22 ]  \* 1e-300

LN2_48 == << 207, 209, 247, 23, 114, 177, 0, 0 >>  \* ln 2 * 2^48
=============================================================================
