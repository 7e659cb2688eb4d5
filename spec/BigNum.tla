------------------------------- MODULE BigNum -------------------------------
(* Integers of any size for TLC (whose own integers have 32 bits): a sign and *)
(* a little-endian sequence of digits to the base Base.                        *)
(* Canonical form: no leading zero digit; zero is [neg |-> FALSE, mag |-> <<>>]*)
EXTENDS Integers, Sequences

CONSTANT Base   \* at least 3; Base * Base + 2 * Base must be a 32-bit integer

Digit == 0 .. Base - 1
Canonical(m) == m = <<>> \/ m[Len(m)] # 0
WellFormed(x) == /\ Canonical(x.mag)
                 /\ \A i \in DOMAIN x.mag : x.mag[i] \in Digit
                 /\ x.neg => x.mag # <<>>

Max2(a, b) == IF a > b THEN a ELSE b
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE Trim(_)
Trim(m) == IF Canonical(m) THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))

(* --------------------------------------------------------- magnitudes *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(a, b, i - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
   IF i > Max2(Len(a), Len(b)) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
   ELSE LET s == At(a, i) + At(b, i) + carry
        IN  <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
MagAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
   IF i > Len(a) THEN <<>>
   ELSE LET s == a[i] - At(b, i) - borrow
        IN  <<s % Base>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == Trim(SubFrom(a, b, 1, 0))     \* a >= b

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, d, i, carry) ==
   IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
   ELSE LET s == a[i] * d + carry
        IN  <<s % Base>> \o ScaleFrom(a, d, i + 1, s \div Base)
MagScale(a, d) == Trim(ScaleFrom(a, d, 1, 0))  \* d a single digit

RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                    ELSE LET r == MulFrom(a, b, i + 1)
                         IN  MagAdd(MagScale(a, b[i]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MagMul(a, b) == Trim(MulFrom(a, b, 1))

(* the largest digit d in lo..hi with d * b <= r *)
RECURSIVE QuotientDigit(_, _, _, _)
QuotientDigit(r, b, lo, hi) ==
   IF lo = hi THEN lo
   ELSE LET m == (lo + hi + 1) \div 2
        IN  IF MagCmp(MagScale(b, m), r) <= 0 THEN QuotientDigit(r, b, m, hi) ELSE QuotientDigit(r, b, lo, m - 1)

(* long division: <<quotient, remainder>> of a by b # 0 *)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
   IF i = 0 THEN <<Trim(q), r>>
   ELSE LET r1 == Trim(<<a[i]>> \o r)
            d == IF MagCmp(r1, b) < 0 THEN 0 ELSE QuotientDigit(r1, b, 1, Base - 1)
        IN  DivFrom(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r1 ELSE MagSub(r1, MagScale(b, d)))
MagDivMod(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)

(* ------------------------------------------------------------ integers *)
Zero == [neg |-> FALSE, mag |-> <<>>]
Signed(n, m) == [neg |-> n /\ m # <<>>, mag |-> m]
IsZero(x) == x.mag = <<>>
Neg(x) == Signed(~x.neg, x.mag)
Abs(x) == Signed(FALSE, x.mag)
Cmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
             ELSE IF a.neg THEN MagCmp(b.mag, a.mag) ELSE MagCmp(a.mag, b.mag)
Add(a, b) == IF a.neg = b.neg THEN Signed(a.neg, MagAdd(a.mag, b.mag))
             ELSE IF MagCmp(a.mag, b.mag) >= 0 THEN Signed(a.neg, MagSub(a.mag, b.mag))
             ELSE Signed(b.neg, MagSub(b.mag, a.mag))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Signed(a.neg # b.neg, MagMul(a.mag, b.mag))
(* division truncates towards zero *)
Quo(a, b) == Signed(a.neg # b.neg, MagDivMod(a.mag, b.mag)[1])
(* the residue in 0..b-1, for b > 0 *)
Mod(a, b) == LET r == MagDivMod(a.mag, b.mag)[2]
             IN  IF a.neg /\ r # <<>> THEN Signed(FALSE, MagSub(b.mag, r)) ELSE Signed(FALSE, r)
RECURSIVE MagGcd(_, _)
MagGcd(a, b) == IF b = <<>> THEN a ELSE MagGcd(b, MagDivMod(a, b)[2])
Gcd(a, b) == Signed(FALSE, MagGcd(a.mag, b.mag))
Lcm(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero
             ELSE Signed(FALSE, MagMul(a.mag, MagDivMod(b.mag, MagGcd(a.mag, b.mag))[1]))

(* --------------------------------------------------- small TLC integers *)
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)
Of(n) == IF n < 0 THEN Signed(TRUE, MagOf(-n)) ELSE Signed(FALSE, MagOf(n))
RECURSIVE Power2(_)
Power2(k) == IF k = 0 THEN <<1>> ELSE MagScale(Power2(k - 1), 2)
=============================================================================
