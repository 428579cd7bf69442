------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 64-bit two's-complement words.  TLC integers are 32-bit, so a word is a *)
(* 4-tuple of 16-bit limbs, least significant limb first.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LB == 65536

W0 == <<0, 0, 0, 0>>
W1 == <<1, 0, 0, 0>>
WM1 == <<65535, 65535, 65535, 65535>>

WAdd(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div LB)
        s3 == a[3] + b[3] + (s2 \div LB)
        s4 == a[4] + b[4] + (s3 \div LB)
    IN  <<s1 % LB, s2 % LB, s3 % LB, s4 % LB>>

WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WNeg(a) == WAdd(WNot(a), W1)
WSub(a, b) == WAdd(WAdd(a, WNot(b)), W1)

WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

\* Low and high limb of the product of two limbs, without leaving 31 bits.
LimbMul(x, y) ==
    LET p0 == x * (y % 256)
        p1 == x * (y \div 256)
        t  == p0 + 256 * (p1 % 256)
    IN  <<t % LB, (t \div LB) + (p1 \div 256)>>

WMul(a, b) ==
    LET m11 == LimbMul(a[1], b[1])
        m12 == LimbMul(a[1], b[2])   m21 == LimbMul(a[2], b[1])
        m13 == LimbMul(a[1], b[3])   m22 == LimbMul(a[2], b[2])
        m31 == LimbMul(a[3], b[1])
        m14 == LimbMul(a[1], b[4])   m23 == LimbMul(a[2], b[3])
        m32 == LimbMul(a[3], b[2])   m41 == LimbMul(a[4], b[1])
        c2 == m11[2] + m12[1] + m21[1]
        c3 == m12[2] + m21[2] + m13[1] + m22[1] + m31[1] + (c2 \div LB)
        c4 == m13[2] + m22[2] + m31[2] + m14[1] + m23[1] + m32[1] + m41[1] + (c3 \div LB)
    IN  <<m11[1], c2 % LB, c3 % LB, c4 % LB>>

WIsNeg(a) == a[4] >= 32768

WLtU(a, b) ==
    \/ a[4] < b[4]
    \/ a[4] = b[4] /\ \/ a[3] < b[3]
                      \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                        \/ a[2] = b[2] /\ a[1] < b[1]

WLtS(a, b) ==
    IF WIsNeg(a) # WIsNeg(b) THEN WIsNeg(a) ELSE WLtU(a, b)

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
          16384, 32768, 65536>>           \* Pow2[i+1] = 2^i

\* Limb i of a shifted left by n bits (0 <= n < 64).
WShl(a, n) ==
    LET q == n \div 16
        r == n % 16
        At(i) == IF i >= 1 THEN a[i] ELSE 0
        L(i) == (At(i - q) % Pow2[17 - r]) * Pow2[r + 1] + (At(i - q - 1) \div Pow2[17 - r])
    IN  <<L(1), L(2), L(3), L(4)>>

\* Shift right by n bits (0 <= n < 64), filling with the given limb.
WShrFill(a, n, fill) ==
    LET q == n \div 16
        r == n % 16
        At(i) == IF i <= 4 THEN a[i] ELSE fill
        L(i) == (At(i + q) \div Pow2[r + 1]) + (At(i + q + 1) % Pow2[r + 1]) * Pow2[17 - r]
    IN  <<L(1), L(2), L(3), L(4)>>

WShrU(a, n) == WShrFill(a, n, 0)
WShrS(a, n) == WShrFill(a, n, IF WIsNeg(a) THEN 65535 ELSE 0)

\* Unsigned short division: divisor d is a positive integer below 32768.
WDivSmall(a, d) ==
    LET q4 == a[4] \div d   r4 == a[4] % d
        n3 == r4 * LB + a[3]
        q3 == n3 \div d     r3 == n3 % d
        n2 == r3 * LB + a[2]
        q2 == n2 \div d     r2 == n2 % d
        n1 == r2 * LB + a[1]
    IN  [q |-> <<n1 \div d, q2, q3, q4>>, r |-> <<n1 % d, 0, 0, 0>>]

Bits64 == [i \in 1..64 |-> 64 - i]

WBit(a, i) == (a[(i \div 16) + 1] \div Pow2[(i % 16) + 1]) % 2

\* Unsigned long division, one quotient bit at a time.  The partial remainder can need a
\* 65th bit, which is the carry out of the shift.
WDivLong(a, b) ==
    FoldLeft(LAMBDA acc, i :
                LET c  == acc.r[4] >= 32768
                    r0 == WShl(acc.r, 1)
                    r1 == <<r0[1] + WBit(a, i), r0[2], r0[3], r0[4]>>
                IN  IF c \/ ~ WLtU(r1, b)
                    THEN [q |-> LET s == WShl(acc.q, 1) IN <<s[1] + 1, s[2], s[3], s[4]>>,
                          r |-> WSub(r1, b)]
                    ELSE [q |-> WShl(acc.q, 1), r |-> r1],
             [q |-> W0, r |-> W0], Bits64)

WDivModU(a, b) ==
    IF WLtU(a, b) THEN [q |-> W0, r |-> a]
    ELSE IF b[4] = 0 /\ b[3] = 0 /\ b[2] = 0 /\ b[1] < 32768
    THEN WDivSmall(a, b[1])
    ELSE WDivLong(a, b)

WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a

\* Signed division truncates towards zero; the remainder has the sign of the dividend.
WDivS(a, b) ==
    LET d == WDivModU(WAbs(a), WAbs(b))
    IN  IF WIsNeg(a) # WIsNeg(b) THEN WNeg(d.q) ELSE d.q
WModS(a, b) ==
    LET d == WDivModU(WAbs(a), WAbs(b))
    IN  IF WIsNeg(a) THEN WNeg(d.r) ELSE d.r

\* The word of a (small) integer, and back when it fits in 31 bits.
WOfInt(i) ==
    IF i >= 0 THEN <<i % LB, i \div LB, 0, 0>>
    ELSE WNeg(<<(-i) % LB, (-i) \div LB, 0, 0>>)

WFits31(a) == \/ a[4] = 0 /\ a[3] = 0 /\ a[2] < 32768
              \/ a[4] = 65535 /\ a[3] = 65535 /\ a[2] >= 32769
WToInt(a) == IF a[4] = 0 THEN a[2] * LB + a[1]
             ELSE (a[2] - 65535) * LB + (a[1] - 65535) - 1
=============================================================================
