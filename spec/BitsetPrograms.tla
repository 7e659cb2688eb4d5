--------------------------- MODULE BitsetPrograms ---------------------------
(* All programs of a given length over symbolic indices: the driver maps the   *)
(* places 1..Places to the first and last index of words, the last index in    *)
(* use, and so on, for every capacity.                                         *)
EXTENDS Integers, Sequences
CONSTANTS Registers, Places, MaxLength
VARIABLE program
R == 1 .. Registers
Instructions ==
        {[op |-> "set", d |-> d, s |-> 0, t |-> 0, x |-> x] : d \in R, x \in 1 .. Places}
   \cup {[op |-> "merge", d |-> d, s |-> s, t |-> t, x |-> 0] : d \in R, s \in R, t \in R}
   \cup {[op |-> o, d |-> d, s |-> s, t |-> 0, x |-> 0] : o \in {"copy", "swap"}, d \in R, s \in R}
   \cup {[op |-> "grow", d |-> 0, s |-> 0, t |-> 0, x |-> x] : x \in 1 .. 2}
Init == program = <<>>
Next == Len(program) < MaxLength /\ \E i \in Instructions : program' = Append(program, i)
=============================================================================
