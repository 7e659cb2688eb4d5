---------------------------- MODULE JudgeIntegers ----------------------------
(* Decides executions of programs on the real integer types.                   *)
(* An observation: [type, init, run, cmp] where                                *)
(*   type  "inf" (arbitrary precision) or "safe" (64 bits, checked)            *)
(*   init  the intended initial values; run[1] the observed ones               *)
(*   run   sequence of steps [op, d, s, ok, regs, int, sign, rel]              *)
(*         ok    FALSE when the operation raised an exception                  *)
(*         regs  the observed values after the step                            *)
(*         int   per register: [ok, v] the conversion to a 32-bit int          *)
(*         sign  per register: comparison with 0, by < == >                    *)
(*         rel   comparison of register 1 with 2 by < <= == != >= >             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, BigNum

CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

MaxSafe == MagSub(Power2(63), <<1>>)
MinSafe == Power2(63)
MaxInt == MagSub(Power2(31), <<1>>)
MinInt == Power2(31)
Within(x, lo, hi) == IF x.neg THEN MagCmp(x.mag, lo) <= 0 ELSE MagCmp(x.mag, hi) <= 0
Representable(t, x) == t = "inf" \/ Within(x, MinSafe, MaxSafe)
FitsInt(x) == Within(x, MinInt, MaxInt)

Positive(x) == ~x.neg /\ ~IsZero(x)

(* the set of acceptable outcomes of an operation: the exact value, or none    *)
Defined(op, x, y) ==
   CASE op \in {"quo", "Quo"} -> ~IsZero(y)
     [] op \in {"mod", "Mod"} -> Positive(y)
     [] OTHER -> TRUE
Value(op, x, y) ==
   CASE op \in {"add", "Add"} -> Add(x, y)
     [] op \in {"sub", "Sub"} -> Sub(x, y)
     [] op \in {"mul", "Mul"} -> Mul(x, y)
     [] op \in {"quo", "Quo"} -> Quo(x, y)
     [] op \in {"mod", "Mod"} -> Mod(x, y)
     [] op = "Gcd" -> Gcd(x, y)
     [] op = "Lcm" -> Lcm(x, y)
     [] op = "neg" -> Neg(y)
     [] op = "abs" -> Abs(y)
     [] op = "set" -> y

Sgn(x) == IF IsZero(x) THEN 0 ELSE IF x.neg THEN -1 ELSE 1
Relations(c) == <<c < 0, c <= 0, c = 0, c # 0, c >= 0, c > 0>>

Consistent(t, s) ==
   LET bad == {r \in DOMAIN s.regs :
                  \/ ~WellFormed(s.regs[r])
                  \/ s.sign[r] # Relations(Sgn(s.regs[r]))
                  \/ s.int[r].ok # FitsInt(s.regs[r])
                  \/ s.int[r].ok /\ s.int[r].v # s.regs[r]
                  \/ s.near[r] # Relations(Cmp(s.regs[r], s.pivot))}
   IN  IF bad # {} THEN "inconsistent sign, conversion or comparison with an int of register " \o ToString(bad)
       ELSE IF s.rel # Relations(Cmp(s.regs[1], s.regs[2])) THEN "wrong comparison"
       ELSE ""

Step(t, p, s) ==
   LET x == p.regs[s.d]
       y == p.regs[s.s]
       def == Defined(s.op, x, y)
       v == IF def THEN Value(s.op, x, y) ELSE Zero
       fits == def /\ Representable(t, v)
   IN  IF ~fits THEN (IF s.ok THEN "operation without a representable result does not raise an exception" ELSE "")
       ELSE IF ~s.ok THEN "operation with a representable result raises an exception"
       ELSE IF s.regs[s.d] # v THEN "wrong result; expected " \o ToString(v)
       ELSE IF \E r \in DOMAIN s.regs \ {s.d} : s.regs[r] # p.regs[r] THEN "other operand changed"
       ELSE Consistent(t, s)

RECURSIVE Walk(_, _, _)
Walk(t, run, k) ==
   IF k > Len(run) THEN ""
   ELSE LET v == Step(t, run[k - 1], run[k])
        IN  IF v # "" THEN "step " \o ToString(k - 1) \o ": " \o v
            ELSE IF ~run[k].ok THEN "" ELSE Walk(t, run, k + 1)

(* construction from a built-in type: [type, from (decimal value), ok, value]  *)
Verdict(o) ==
   IF o.kind = "make" THEN
      (IF Representable(o.type, o.want) # o.ok THEN "construction raises an exception wrongly or fails to"
       ELSE IF o.ok /\ o.got # o.want THEN "wrong value constructed" ELSE "")
   ELSE IF \E r \in DOMAIN o.init : o.init[r] # o.run[1].regs[r] THEN "wrong initial value or printing"
   ELSE IF Consistent(o.type, o.run[1]) # "" THEN Consistent(o.type, o.run[1])
   ELSE Walk(o.type, o.run, 2)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
