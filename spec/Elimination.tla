----------------------------- MODULE Elimination -----------------------------
(* The elimination as a transition system: columns of the matrix [A; -I] are    *)
(* combined until every row of A that is used as a pivot has one non-zero entry. *)
(* Any unused column may be chosen as pivot column; the invariants hold for all   *)
(* choices, so no particular choice is part of the specification.                *)
EXTENDS LinearAlgebra
CONSTANTS Rows, Cols, Below, Hi
VARIABLES A, top, bottom, row, used, pivots
Init == /\ A \in [1 .. Rows -> [1 .. Cols -> -Below .. Hi]]
        /\ top = A
        /\ bottom = [r \in 1 .. Cols |-> [c \in 1 .. Cols |-> IF r = c THEN -1 ELSE 0]]
        /\ row = 1 /\ used = {} /\ pivots = {}
M == top \o bottom
(* column e becomes x * column e + y * column c, divided by its content         *)
Combine(e, x, y, c) ==
   LET col == [r \in 1 .. Len(M) |-> x * M[r][e] + y * M[r][c]]
   IN  Primitive(col)
Pivot(c) ==
   LET a == -M[row][c]
       new == [e \in 1 .. Cols |-> IF e = c \/ M[row][e] = 0 THEN [r \in 1 .. Len(M) |-> M[r][e]] ELSE Combine(e, a, M[row][e], c)]
   IN  /\ top' = [r \in 1 .. Rows |-> [e \in 1 .. Cols |-> new[e][r]]]
       /\ bottom' = [r \in 1 .. Cols |-> [e \in 1 .. Cols |-> new[e][Rows + r]]]
       /\ used' = used \cup {c}
       /\ pivots' = pivots \cup {row}
Next == /\ row <= Rows
        /\ row' = row + 1
        /\ UNCHANGED A
        /\ \/ \E c \in (1 .. Cols) \ used : M[row][c] # 0 /\ Pivot(c)
           \/ (\A c \in (1 .. Cols) \ used : M[row][c] = 0) /\ UNCHANGED <<top, bottom, used, pivots>>

Column(X, c) == [r \in 1 .. Len(X) |-> X[r][c]]
Product == \A r \in 1 .. Rows, c \in 1 .. Cols : top[r][c] = -Dot(A[r], Column(bottom, c))
Invertible == Rank(bottom) = Cols
OneEntry == \A r \in pivots : Cardinality({c \in 1 .. Cols : top[r][c] # 0}) = 1
Done == row > Rows
Kernel == Done =>
   LET free == (1 .. Cols) \ used
       eqs == [k \in 1 .. Cardinality(free) |-> Column(bottom, SetToSortSeq(free, <)[k])]
   IN  /\ \A k \in DOMAIN eqs : \A r \in 1 .. Rows : Dot(A[r], eqs[k]) = 0
       /\ Rank(eqs) = Len(eqs)
       /\ Cardinality(pivots) = Rank(A) /\ Len(eqs) = Cols - Rank(A)
       /\ Rank(A) = RankByMinors(A)
       /\ Cardinality(pivots) > 0 => Rank(SubSeqOf(A, pivots)) = Cardinality(pivots)
=============================================================================
