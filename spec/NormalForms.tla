----------------------------- MODULE NormalForms -----------------------------
(* Rows modulo equations: a row is equivalent to its positive multiples and to   *)
(* what is left after adding equations.  Reducing a row by a triangular basis of  *)
(* the equations with positive leading entries is canonical.  (TLC visits all     *)
(* pairs of rows.)                                                                *)
EXTENDS LinearAlgebra
CONSTANTS Length, Below, Hi, MaxEqs
VARIABLES eqs, a, b
V == [1 .. Length -> -Below .. Hi]
Lead(e) == FirstNonZero(e)
(* in reduced echelon form: no equation mentions the lead of another one          *)
Basis(E) == /\ \A e \in Range(E) : ~IsZero(e) /\ e[Lead(e)] > 0
            /\ \A i, j \in DOMAIN E : i # j => E[j][Lead(E[i])] = 0
Reduce1(r, e) == LET c == Lead(e) IN IF r[c] = 0 THEN r ELSE [k \in 1 .. Length |-> e[c] * r[k] - r[c] * e[k]]
Reduce(r, E) == Primitive(FoldLeft(Reduce1, r, E))
(* the same up to a positive factor on the solutions of the equations             *)
Equivalent(r, s, E) ==
   \E x \in 1 .. 4, y \in 1 .. 4 : LET d == [k \in 1 .. Length |-> x * r[k] - y * s[k]] IN Rank(Append(E, d)) = Rank(E)
Init == /\ eqs \in UNION {[1 .. k -> V] : k \in 0 .. MaxEqs} /\ Basis(eqs)
        /\ a \in V /\ b \in V
Next == UNCHANGED <<eqs, a, b>>
Canonical == Equivalent(a, b, eqs) => Reduce(a, eqs) = Reduce(b, eqs)
Separates == Reduce(a, eqs) = Reduce(b, eqs) => Rank(eqs \o <<a, b>>) <= Rank(eqs) + 1
=============================================================================
