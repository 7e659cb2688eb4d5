--------------------------- MODULE RegisterMachine ---------------------------
(* Programs for an integer type: sequences of instructions on a few registers. *)
(* Compound assignment, binary operators, unary operators and assignment, with *)
(* every way in which operands and result may be the same object.              *)
EXTENDS Integers, Sequences

CONSTANTS Registers, MaxLength

Compound == {"add", "sub", "mul", "quo", "mod"}       \* d op= s
Binary == {"Add", "Sub", "Mul", "Quo", "Mod", "Gcd"}  \* d = d op s (via a temporary)
Unary == {"neg", "abs", "set"}                        \* d = op s

Reg == 1 .. Registers
Instructions == [op : Compound \cup Binary \cup Unary, d : Reg, s : Reg]

VARIABLE program
Init == program = <<>>
Next == /\ Len(program) < MaxLength
        /\ \E i \in Instructions : program' = Append(program, i)
=============================================================================
