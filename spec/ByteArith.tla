------------------------------ MODULE ByteArith ------------------------------
(* 64-bit unsigned arithmetic on byte sequences.                             *)
(*                                                                           *)
(* TLC's integers have 32 bits, so every 64-bit quantity of the system (field *)
(* indices, tags, U64/S64/F64 values, sizes read from the wire) is a tuple of *)
(* eight bytes, least significant first.                                     *)
EXTENDS Integers, Sequences

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
One8  == <<1, 0, 0, 0, 0, 0, 0, 0>>
Max8  == <<255, 255, 255, 255, 255, 255, 255, 255>>

\* Two to the power k, for k in 0..16.
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(k) == Pow2[k + 1]

\* A natural number below 2^31 as eight bytes.
FromNat(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>

\* Sizes above BIG cannot matter: no buffer considered here is that long.
BIG == 1073741824
ToNat(v) ==
    IF v[5] + v[6] + v[7] + v[8] > 0 \/ v[4] >= 64 THEN BIG
    ELSE v[1] + 256 * v[2] + 65536 * v[3] + 16777216 * v[4]

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i = 0 THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessFrom(a, b, i - 1)
Less8(a, b) == LessFrom(a, b, 8)

\* (a + b) mod 2^64
Add8(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div 256)
        s3 == a[3] + b[3] + (s2 \div 256)
        s4 == a[4] + b[4] + (s3 \div 256)
        s5 == a[5] + b[5] + (s4 \div 256)
        s6 == a[6] + b[6] + (s5 \div 256)
        s7 == a[7] + b[7] + (s6 \div 256)
        s8 == a[8] + b[8] + (s7 \div 256)
    IN << s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256 >>

Not8(a) == << 255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4],
              255 - a[5], 255 - a[6], 255 - a[7], 255 - a[8] >>

\* (a - b) mod 2^64
Sub8(a, b) == Add8(Add8(a, Not8(b)), One8)

\* (a * 2^k) mod 2^64, 0 <= k <= 8
Shl8(a, k) ==
    LET p == P2(k)
    IN << (a[1] * p) % 256,
          ((a[2] * p) % 256) + ((a[1] * p) \div 256),
          ((a[3] * p) % 256) + ((a[2] * p) \div 256),
          ((a[4] * p) % 256) + ((a[3] * p) \div 256),
          ((a[5] * p) % 256) + ((a[4] * p) \div 256),
          ((a[6] * p) % 256) + ((a[5] * p) \div 256),
          ((a[7] * p) % 256) + ((a[6] * p) \div 256),
          ((a[8] * p) % 256) + ((a[7] * p) \div 256) >>

\* floor(a / 2^k), 0 <= k <= 8
Shr8(a, k) ==
    LET p == P2(k)  q == P2(8 - k)
    IN << (a[1] \div p) + ((a[2] % p) * q), (a[2] \div p) + ((a[3] % p) * q),
          (a[3] \div p) + ((a[4] % p) * q), (a[4] \div p) + ((a[5] % p) * q),
          (a[5] \div p) + ((a[6] % p) * q), (a[6] \div p) + ((a[7] % p) * q),
          (a[7] \div p) + ((a[8] % p) * q), a[8] \div p >>

-----------------------------------------------------------------------------
(* Variable-width integers (README, "Variable-width integers").              *)

\* VarBase[n + 1] is the least value encoded with n bytes after the first one.
VarBase == << Zero8,
              << 128, 0, 0, 0, 0, 0, 0, 0 >>,
              << 128, 64, 0, 0, 0, 0, 0, 0 >>,
              << 128, 64, 32, 0, 0, 0, 0, 0 >>,
              << 128, 64, 32, 16, 0, 0, 0, 0 >>,
              << 128, 64, 32, 16, 8, 0, 0, 0 >>,
              << 128, 64, 32, 16, 8, 4, 0, 0 >>,
              << 128, 64, 32, 16, 8, 4, 2, 0 >>,
              << 128, 64, 32, 16, 8, 4, 2, 1 >> >>

\* Number of bytes after the first one in the encoding of v.
RECURSIVE VarExtraFrom(_, _)
VarExtraFrom(v, n) ==
    IF n = 8 THEN 8
    ELSE IF Less8(v, VarBase[n + 2]) THEN n
    ELSE VarExtraFrom(v, n + 1)
VarExtra(v) == VarExtraFrom(v, 0)

VarintSize(v) == 1 + VarExtra(v)

VarintBytes(v) ==
    LET n == VarExtra(v)
        w == Sub8(v, VarBase[n + 1])
        p == P2(n + 1)
    IN IF n = 8 THEN <<0>> \o w
       ELSE [i \in 1..(n + 1) |->
               ((w[i] * p) % 256) + (IF i = 1 THEN P2(n) ELSE ((w[i - 1] * p) \div 256))]

RECURSIVE TrailingZerosFrom(_, _)
TrailingZerosFrom(b, n) ==
    IF n = 8 THEN 8 ELSE IF b % 2 = 1 THEN n ELSE TrailingZerosFrom(b \div 2, n + 1)
TrailingZeros(b) == TrailingZerosFrom(b, 0)

\* The value whose encoding is the 1 + n bytes b (n = trailing zeros of b[1]).
VarintValue(b) ==
    LET n == TrailingZeros(b[1])
        p == P2(n + 1)
        at(i) == IF i <= n + 1 THEN b[i] ELSE 0
        w == IF n = 8 THEN << b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9] >>
             ELSE [i \in 1..8 |-> IF i > n + 1 THEN 0
                                  ELSE (at(i) \div p) + ((at(i + 1) % p) * (256 \div p))]
    IN Add8(w, VarBase[n + 1])

\* ZigZag representation of a two's complement integer, and its inverse.
ZigZag(v) == IF v[8] >= 128 THEN Not8(Shl8(v, 1)) ELSE Shl8(v, 1)
UnZigZag(v) == IF v[1] % 2 = 1 THEN Not8(Shr8(v, 1)) ELSE Shr8(v, 1)

=============================================================================
