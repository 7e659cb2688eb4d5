-------------------------- MODULE PrintingUniverse --------------------------
(* Small rows, and the theory of Printing: the canonical spelling of a row is   *)
(* read as that row, and dropping or changing a coefficient is noticed.         *)
EXTENDS Printing, Sequences
CONSTANTS Length, Below, Hi
VARIABLE row

Init == row \in [1 .. Length -> -Below .. Hi]
Next == UNCHANGED row

Big == [i \in DOMAIN row |-> Of(row[i])]
Spell(c, x, first) == (IF c.neg THEN <<[k |-> "sign", v |-> "-"]>> ELSE IF first THEN <<>> ELSE <<[k |-> "sign", v |-> "+"]>>)
                      \o (IF c.mag = <<1>> THEN <<>> ELSE <<Num(c.mag)>>) \o <<[k |-> "name", v |-> x]>>
RECURSIVE Left(_, _)
Left(i, first) == IF i = Length THEN <<>>
                  ELSE IF IsZero(Big[i]) THEN Left(i + 1, first)
                  ELSE Spell(Big[i], i, first) \o Left(i + 1, FALSE)
Right == LET c == Neg(Big[Length]) IN (IF c.neg THEN <<[k |-> "sign", v |-> "-"]>> ELSE <<>>) \o <<Num(c.mag)>>
Written == Left(1, TRUE) \o <<[k |-> "rel", v |-> "<="]>> \o Right
ReadsBack == LET d == Denotes(Written, Length - 1, "<=") IN d.ok /\ d.row = Big
=============================================================================
