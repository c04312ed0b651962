-------------------------------- MODULE Quant --------------------------------
(* Weight quantization: groups, scales, zero points, codes, packing.
   Reals are [m, e] = m * 2^e with |m| < 2^24.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216,
          33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
P2(k) == Pow2[k + 1]
Big == 2000000000
\* m * 2^k, cut to integers; Big when it does not fit
Shift(m, k) == IF k >= 0 THEN (IF m = 0 THEN 0 ELSE IF k > 30 \/ Abs(m) > 1073741823 \div P2(k) THEN (IF m > 0 THEN Big ELSE -Big) ELSE m * P2(k))
               ELSE IF k < -30 THEN 0 ELSE (m + (P2(-k) \div 2)) \div P2(-k)

Low(type, bits) == IF type = "sym" THEN -P2(bits - 1) ELSE 0
High(type, bits) == IF type = "sym" THEN P2(bits - 1) - 1 ELSE P2(bits) - 1
Steps(type, bits) == IF type = "sym" THEN P2(bits - 1) - 1 ELSE P2(bits) - 1

\* ---------------------------------------------------------------- which scale belongs to an element of an R x C matrix
Blocks(C, block) == (C + block - 1) \div block
Groups(R, C, block) == IF block = 0 THEN 1 ELSE IF block = -1 THEN R ELSE R * Blocks(C, block)
GroupOf(i, j, C, block) == IF block = 0 THEN 1 ELSE IF block = -1 THEN i ELSE (((i - 1) * Blocks(C, block)) + ((j - 1) \div block)) + 1
ScaleDims(R, C, block) == IF block = 0 THEN <<>> ELSE IF block = -1 THEN <<R>> ELSE <<R, Blocks(C, block)>>

\* ---------------------------------------------------------------- the exact scheme on rationals n/d, used by the design check
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RoundEven(n, d) == LET f == n \div d r == n % d IN IF 2 * r > d \/ (2 * r = d /\ f % 2 = 1) THEN f + 1 ELSE f
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* scale of a group of integers, as <<numerator, denominator>>
RangeOf(xs, type) == IF type = "sym" THEN Max({Abs(x) : x \in xs}) ELSE Max(xs \cup {0}) - Min(xs \cup {0})
ScaleOf(xs, type, bits) == LET a == RangeOf(xs, type) IN IF a = 0 THEN <<1, 1>> ELSE <<a, Steps(type, bits)>>
ZeroOf(xs, type, bits) == IF type = "sym" THEN 0 ELSE LET s == ScaleOf(xs, type, bits) IN RoundEven((0 - Min(xs \cup {0})) * s[2], s[1])
CodeOf(x, xs, type, bits) == LET s == ScaleOf(xs, type, bits) IN Clip(RoundEven(x * s[2], s[1]) + ZeroOf(xs, type, bits), Low(type, bits), High(type, bits))

\* ---------------------------------------------------------------- four bits
Nibble(q) == q % 16
Byte(lo, hi) == Nibble(lo) + 16 * Nibble(hi)
Signed(n, type) == IF type = "sym" /\ n >= 8 THEN n - 16 ELSE n
PackedCols(C) == (C + 1) \div 2
\* code (i, j) out of rows of packed bytes
Unpacked(bytes, i, j, C, type) == LET b == bytes[((i - 1) * PackedCols(C)) + ((j + 1) \div 2)] IN Signed(IF j % 2 = 1 THEN b % 16 ELSE b \div 16, type)

\* ---------------------------------------------------------------- does a code stand for a value (stored scale s, zero point z)?
\* everything in units of 2^(s.e + 2), the mantissa of a scale has 24 bits
Norm(s) == s.m \div 4
InUnits(x, s) == Shift(x.m, (x.e - s.e) - 2)
Slack(s) == Norm(s) \div 1000 + 300
HalfStep(x, q, z, s) == LET X == InUnits(x, s) IN Abs(X) < Big /\ Abs(((q - z) * Norm(s)) - X) <= (Norm(s) \div 2) + Slack(s)
=============================================================================
