-------------------------- MODULE PolytopeAlgebra --------------------------
(* Polyhedra whose facets are known in closed form, whatever their size.    *)
(* A term t denotes a list of generators (Realise) and the set of its       *)
(* facets as index sets (Facets).  PolytopeAlgebraMC checks for all small   *)
(* terms that Facets(t) is the set Polyhedra defines for Realise(t); with   *)
(* that the closed forms are the oracle for inputs far beyond enumeration.  *)
EXTENDS Polyhedra

Cat(a, b) == a \o b
Zeros(k) == [x \in 1..k |-> 0]
Unit(k, n) == [x \in 1..n |-> IF x = k THEN 1 ELSE 0]
Shift(F, k) == {x + k : x \in F}

(* the pair of two points, both in homogeneous coordinates *)
Times(a, b) == LET p == Len(a) - 1  q == Len(b) - 1
               IN [c \in 1..(p + q + 1) |-> IF c <= p THEN a[c] * b[q + 1] ELSE b[c - p] * a[p + 1]]

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)

(* number of generators and dimension of the ambient space *)
RECURSIVE NumGens(_), AmbientDim(_)
NumGens(t) ==
  CASE t.op = "simplex" -> t.d + 1
    [] t.op = "cyclic" -> t.n
    [] t.op = "cross" -> 2 * t.d
    [] t.op = "product" -> NumGens(t.a) * NumGens(t.b)
    [] t.op = "freesum" -> NumGens(t.a) + NumGens(t.b)
    [] t.op = "join" -> NumGens(t.a) + NumGens(t.b)
    [] t.op = "redundant" -> NumGens(t.a) + Len(t.s)
    [] t.op = "orthant" -> NumGens(t.a) + t.k
AmbientDim(t) ==
  CASE t.op = "simplex" -> t.d
    [] t.op = "cyclic" -> t.d
    [] t.op = "cross" -> t.d
    [] t.op = "product" -> AmbientDim(t.a) + AmbientDim(t.b)
    [] t.op = "freesum" -> AmbientDim(t.a) + AmbientDim(t.b)
    [] t.op = "join" -> AmbientDim(t.a) + AmbientDim(t.b) + 1
    [] t.op = "redundant" -> AmbientDim(t.a)
    [] t.op = "orthant" -> AmbientDim(t.a) + t.k

(* homogeneous generators <<x, h>>; h > 0 for points, 0 for rays *)
RECURSIVE Realise(_)
Realise(t) ==
  CASE t.op = "simplex" -> <<Append(Zeros(t.d), 1)>> \o [k \in 1..t.d |-> Append(Unit(k, t.d), 1)]
    [] t.op = "cyclic" -> [k \in 1..t.n |-> Append([e \in 1..t.d |-> Power(k - t.o, e)], 1)]
    [] t.op = "cross" -> [k \in 1..(2 * t.d) |-> Append([x \in 1..t.d |-> IF x # (k + 1) \div 2 THEN 0 ELSE IF k % 2 = 1 THEN 1 ELSE -1], 1)]
    [] t.op = "product" ->
         LET A == Realise(t.a)  B == Realise(t.b)  m == Len(B)
         IN [k \in 1..(Len(A) * m) |-> Times(A[((k - 1) \div m) + 1], B[((k - 1) % m) + 1])]
    [] t.op = "freesum" ->
         LET A == Realise(t.a)  B == Realise(t.b)  p == AmbientDim(t.a)  q == AmbientDim(t.b)
         IN [k \in 1..Len(A) |-> Cat(SubSeq(A[k], 1, p), Append(Zeros(q), A[k][p + 1]))]
            \o [k \in 1..Len(B) |-> Cat(Zeros(p), B[k])]
    [] t.op = "join" ->
         LET A == Realise(t.a)  B == Realise(t.b)  p == AmbientDim(t.a)  q == AmbientDim(t.b)
         IN [k \in 1..Len(A) |-> Cat(SubSeq(A[k], 1, p), Cat(Zeros(q), <<0, A[k][p + 1]>>))]
            \o [k \in 1..Len(B) |-> Cat(Zeros(p), Cat(SubSeq(B[k], 1, q), <<B[k][q + 1], B[k][q + 1]>>))]
    [] t.op = "redundant" ->
         LET A == Realise(t.a)
         IN A \o [k \in 1..Len(t.s) |->
               FoldLeft(LAMBDA acc, x : [c \in 1..Len(acc) |-> acc[c] + A[x][c]], Zeros(Len(A[1])), t.s[k])]
    [] t.op = "orthant" ->
         LET A == Realise(t.a)  p == AmbientDim(t.a)
         IN [k \in 1..Len(A) |-> Cat(SubSeq(A[k], 1, p), Append(Zeros(t.k), A[k][p + 1]))]
            \o [k \in 1..t.k |-> Cat(Zeros(p), Append(Unit(k, t.k), 0))]

(* Gale's evenness condition for the cyclic polytope, d < n                  *)
GaleFacets(n, d) ==
  {S \in kSubset(d, 1..n) :
     \A a \in 1..n, b \in 1..n :
        (a < b /\ a \notin S /\ b \notin S) => Cardinality({x \in S : a < x /\ x < b}) % 2 = 0}
(* the same for d = 2, quickly: consecutive points on a parabola, and d = 3 *)
CyclicFacets(n, d) ==
  IF d = 1 THEN {{1}, {n}}
  ELSE IF d = 2 THEN (IF n = 2 THEN {{1}, {2}} ELSE {{k, k + 1} : k \in 1..(n - 1)} \cup {{1, n}})
  ELSE IF d = 3 THEN {{1, k, k + 1} : k \in 2..(n - 1)} \cup {{k, k + 1, n} : k \in 1..(n - 2)}
  ELSE GaleFacets(n, d)

RECURSIVE Facets(_)
Facets(t) ==
  CASE t.op = "simplex" -> {(1..(t.d + 1)) \ {k} : k \in 1..(t.d + 1)}
    [] t.op = "cyclic" -> CyclicFacets(t.n, t.d)
    [] t.op = "cross" -> {{2 * k - (IF f[k] THEN 1 ELSE 0) : k \in 1..t.d} : f \in [1..t.d -> BOOLEAN]}
    [] t.op = "product" ->
         LET n == NumGens(t.a)  m == NumGens(t.b)
             S == {{(i - 1) * m + j : i \in F, j \in 1..m} : F \in Facets(t.a)}
                  \cup {{(i - 1) * m + j : i \in 1..n, j \in G} : G \in Facets(t.b)}
         IN IF S = {{}} THEN S ELSE S \ {{}}   \* the empty face of a point is no facet of the product
    [] t.op = "freesum" -> {F \cup Shift(G, NumGens(t.a)) : F \in Facets(t.a), G \in Facets(t.b)}
    [] t.op = "join" ->
         LET n == NumGens(t.a)  m == NumGens(t.b)
         IN {F \cup Shift(1..m, n) : F \in Facets(t.a)} \cup {(1..n) \cup Shift(G, n) : G \in Facets(t.b)}
    [] t.op = "redundant" ->
         LET n == NumGens(t.a)
         IN {F \cup {n + k : k \in {x \in 1..Len(t.s) : \A y \in 1..Len(t.s[x]) : t.s[x][y] \in F}} : F \in Facets(t.a)}
    [] t.op = "orthant" ->
         LET n == NumGens(t.a)
         IN {F \cup ((n + 1)..(n + t.k)) : F \in Facets(t.a)} \cup {(1..n) \cup (((n + 1)..(n + t.k)) \ {n + x}) : x \in 1..t.k}

(* facets of the polyhedron: the trivial face at infinity is no facet *)
FacetsOf(t) == LET G == Realise(t)  v == VertexIdx(G) IN {F \in Facets(t) : F \cap v # {}}
RECURSIVE HasRays(_)
HasRays(t) ==
  CASE t.op \in {"simplex", "cyclic", "cross"} -> FALSE
    [] t.op \in {"product", "freesum", "join"} -> HasRays(t.a) \/ HasRays(t.b)
    [] t.op = "redundant" -> HasRays(t.a)
    [] t.op = "orthant" -> TRUE
=============================================================================
