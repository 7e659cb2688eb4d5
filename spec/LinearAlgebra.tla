--------------------------- MODULE LinearAlgebra ---------------------------
(* Exact integer linear algebra on small matrices: the vocabulary in which *)
(* the polyhedral specifications are written.  A vector is a sequence of   *)
(* integers, a matrix a sequence of vectors of equal length.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE GcdNat(_, _)
GcdNat(a, b) == IF b = 0 THEN a ELSE GcdNat(b, a % b)
Gcd(a, b) == GcdNat(Abs(a), Abs(b))

Dot(a, b) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Neg(a) == [i \in 1..Len(a) |-> -a[i]]
Content(a) == FoldLeft(LAMBDA acc, x : Gcd(acc, x), 0, a)
(* the primitive integer vector on the ray through a *)
Primitive(a) == LET c == Content(a) IN IF c <= 1 THEN a ELSE [i \in 1..Len(a) |-> a[i] \div c]
(* exact division of a negative number: TLA+ \div floors, which is exact   *)
(* here because c divides every entry                                      *)

(* ----- determinants and normals (definitions by cofactors) ------------- *)
RECURSIVE Det(_, _, _)
Det(M, rows, cols) ==
  IF rows = <<>> THEN 1
  ELSE FoldLeft(LAMBDA acc, k :
                  LET x == M[rows[1]][cols[k]]
                  IN IF x = 0 THEN acc
                     ELSE acc + (IF k % 2 = 1 THEN x ELSE -x) * Det(M, Tail(rows), RemoveAt(cols, k)),
                0, [k \in 1..Len(cols) |-> k])

Range1(n) == [k \in 1..n |-> k]
(* n-1 vectors in dimension n: the vector of signed maximal minors, which  *)
(* is orthogonal to all of them and zero iff they are dependent            *)
Normal(M, n) == Primitive([c \in 1..n |-> (IF c % 2 = 1 THEN 1 ELSE -1) * Det(M, Range1(n - 1), RemoveAt(Range1(n), c))])

(* ----- elimination ------------------------------------------------------ *)
(* Echelon(rows) = <<pivot columns, reduced rows>>, fraction free           *)
FirstNonZero(a) == IF IsZero(a) THEN 0 ELSE Min({i \in 1..Len(a) : a[i] # 0})
RECURSIVE Elim(_, _, _)
Elim(todo, cols, done) ==
  IF todo = <<>> THEN <<cols, done>>
  ELSE LET r == Head(todo)
           c == FirstNonZero(r)
       IN IF c = 0 THEN Elim(Tail(todo), cols, done)
          ELSE LET red(v) == IF v[c] = 0 THEN v
                             ELSE Primitive([i \in 1..Len(v) |-> r[c] * v[i] - v[c] * r[i]])
               IN Elim([k \in 1..(Len(todo) - 1) |-> red(todo[k + 1])], Append(cols, c), Append(done, r))
Echelon(rows) == Elim(rows, <<>>, <<>>)
PivotCols(rows) == Echelon(rows)[1]
Rank(rows) == Len(PivotCols(rows))
(* a maximal independent subsequence spans the same space *)
RowBasis(rows) == Echelon(rows)[2]
SpanEq(A, B) == Rank(A) = Rank(B) /\ Rank(A \o B) = Rank(A)
(* rank by its definition: the size of a largest nonzero minor             *)
RankByMinors(M) ==
  IF M = <<>> THEN 0 ELSE
  LET m == Len(M)  n == Len(M[1])
  IN Max({0} \cup {k \in 1..(IF m < n THEN m ELSE n) :
           \E R \in kSubset(k, 1..m), C \in kSubset(k, 1..n) :
             Det(M, SetToSortSeq(R, <), SetToSortSeq(C, <)) # 0})

SubSeqOf(s, S) == [k \in 1..Cardinality(S) |-> s[SetToSortSeq(S, <)[k]]]
Columns(v, cols) == [k \in 1..Len(cols) |-> v[cols[k]]]
=============================================================================
