---------------------------- MODULE IntegerTheory ----------------------------
(* The digit arithmetic of BigNum is integer arithmetic, and the guards of     *)
(* checked arithmetic are exact.  TLC checks both for every pair of operands   *)
(* of a small range: BigNum against the integers of TLC (with a tiny base, so  *)
(* that numbers have many digits), and the guards for a type of few bits.      *)
EXTENDS BigNum

CONSTANTS Range, Bits
VARIABLES a, b

Low == -(2^(Bits - 1))
High == 2^(Bits - 1) - 1
Fits(n) == Low <= n /\ n <= High

AbsI(n) == IF n < 0 THEN -n ELSE n
QuoI(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
RECURSIVE GcdI(_, _)
GcdI(x, y) == IF y = 0 THEN x ELSE GcdI(y, x % y)

Init == a \in -Range .. Range /\ b \in -Range .. Range
Next == UNCHANGED <<a, b>>

CmpI(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Exact ==
   /\ \A n \in {a, b} : WellFormed(Of(n))
   /\ Cmp(Of(a), Of(b)) = CmpI(a, b)
   /\ Add(Of(a), Of(b)) = Of(a + b)
   /\ Sub(Of(a), Of(b)) = Of(a - b)
   /\ Mul(Of(a), Of(b)) = Of(a * b)
   /\ Neg(Of(a)) = Of(-a) /\ Abs(Of(a)) = Of(AbsI(a))
   /\ b # 0 => Quo(Of(a), Of(b)) = Of(QuoI(a, b))
   /\ b > 0 => Mod(Of(a), Of(b)) = Of(a % b)
   /\ Gcd(Of(a), Of(b)) = Of(GcdI(AbsI(a), AbsI(b)))
   /\ (a # 0 /\ b # 0) => Lcm(Of(a), Of(b)) = Of(AbsI(a * b) \div GcdI(AbsI(a), AbsI(b)))
   /\ (a >= 0 /\ a <= 12) => Signed(FALSE, Power2(a)) = Of(2^a)

(* Guards that never leave the range themselves and are true exactly when the *)
(* exact result does not fit.                                                  *)
Limit == IF (a > 0) = (b > 0) THEN High ELSE Low
AddGuard == (a > 0 /\ b > 0 /\ b > High - a) \/ (a < 0 /\ b < 0 /\ b < Low - a)
SubGuard == (b < 0 /\ a > High + b) \/ (b > 0 /\ a < Low + b)
MulGuard == IF a = 0 \/ b = 0 THEN FALSE
            ELSE IF b = -1 THEN a = Low
            ELSE LET l == QuoI(Limit, b) IN (a > 0 /\ l < a) \/ (a < 0 /\ l > a)
QuoGuard == b = -1 /\ a = Low
Guards == (Fits(a) /\ Fits(b)) =>
   /\ AddGuard <=> ~Fits(a + b)
   /\ SubGuard <=> ~Fits(a - b)
   /\ MulGuard <=> ~Fits(a * b)
   /\ b # 0 => (QuoGuard <=> ~Fits(QuoI(a, b)))
   /\ b > 0 => Fits(a % b)
   /\ (a = Low) <=> ~Fits(-a)
=============================================================================
