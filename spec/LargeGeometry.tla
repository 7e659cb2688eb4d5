---------------------------- MODULE LargeGeometry ----------------------------
(* The definitions of Polyhedra for coefficients of any size.                 *)
EXTENDS BigNum, FiniteSets, FiniteSetsExt, SequencesExt, TLC

BDot(a, b) == FoldLeft(LAMBDA acc, i : Add(acc, Mul(a[i], b[i])), Zero, [i \in 1 .. Len(a) |-> i])
BSgn(x) == IF IsZero(x) THEN 0 ELSE IF x.neg THEN -1 ELSE 1
BIsZero(v) == \A i \in 1 .. Len(v) : IsZero(v[i])
BSigns(a, G) == [i \in 1 .. Len(G) |-> BSgn(BDot(a, G[i]))]
BTight(s) == {i \in DOMAIN s : s[i] = 0}
BOneSided(s) == ~(\E i \in DOMAIN s : s[i] > 0) \/ ~(\E i \in DOMAIN s : s[i] < 0)

RECURSIVE BDet(_, _, _)
BDet(M, rows, cols) ==
   IF rows = <<>> THEN Of(1)
   ELSE FoldLeft(LAMBDA acc, k :
                   LET x == M[rows[1]][cols[k]]
                   IN  IF IsZero(x) THEN acc
                       ELSE Add(acc, Mul(IF k % 2 = 1 THEN x ELSE Neg(x), BDet(M, Tail(rows), RemoveAt(cols, k)))),
                 Zero, [k \in 1 .. Len(cols) |-> k])
UpTo(n) == [k \in 1 .. n |-> k]
BNormal(M, n) == [c \in 1 .. n |-> LET d == BDet(M, UpTo(n - 1), RemoveAt(UpTo(n), c)) IN IF c % 2 = 1 THEN d ELSE Neg(d)]

BContent(v) == FoldLeft(LAMBDA acc, x : MagGcd(acc, x.mag), <<>>, v)
BPrimitive(v) == LET c == BContent(v) IN IF MagCmp(c, <<1>>) <= 0 THEN v ELSE [i \in 1 .. Len(v) |-> Quo(v[i], Signed(FALSE, c))]
BFirst(v) == IF BIsZero(v) THEN 0 ELSE Min({i \in 1 .. Len(v) : ~IsZero(v[i])})
RECURSIVE BElim(_, _)
BElim(todo, cols) ==
   IF todo = <<>> THEN cols
   ELSE LET r == Head(todo)
            c == BFirst(r)
        IN  IF c = 0 THEN BElim(Tail(todo), cols)
            ELSE LET red(v) == IF IsZero(v[c]) THEN v ELSE BPrimitive([i \in 1 .. Len(v) |-> Sub(Mul(r[c], v[i]), Mul(v[c], r[i]))])
                 IN  BElim([k \in 1 .. (Len(todo) - 1) |-> red(todo[k + 1])], Append(cols, c))
BPivots(rows) == BElim(rows, <<>>)
BRank(rows) == Len(BPivots(rows))

BPick(s, S) == [k \in 1 .. Cardinality(S) |-> s[SetToSortSeq(S, <)[k]]]
(* The facets of the cone spanned by G, each as the set of generators on it.   *)
BFacetsOfCone(G) ==
   LET cols == BPivots(G)
       r == Len(cols)
       H == [i \in 1 .. Len(G) |-> [k \in 1 .. r |-> G[i][cols[k]]]]
       signs == {BSigns(BNormal(BPick(H, S), r), H) : S \in kSubset(r - 1, 1 .. Len(G))}
   IN  {BTight(s) : s \in {x \in signs : BOneSided(x) /\ \E i \in DOMAIN x : x[i] # 0}}
BVertices(G) == {i \in 1 .. Len(G) : ~IsZero(G[i][Len(G[i])])}
BFacetsOfPolyhedron(G) == {F \in BFacetsOfCone(G) : F \cap BVertices(G) # {}}

(* Images of a set of generators under permutations of the generators.        *)
RECURSIVE OrbitUnder(_, _)
OrbitUnder(Ts, perms) ==
   LET next == Ts \cup {{p[i] : i \in T} : T \in Ts, p \in Range(perms)}
   IN  IF next = Ts THEN Ts ELSE OrbitUnder(next, perms)

(* rows are the printed facets of the polyhedron with generators G, one of every *)
(* orbit under the maps, which permute the generators; eqs its equations.        *)
FacetVerdict(G, perms, eqs, rows) ==
   LET n == Len(G[1])
       r == BRank(G)
       expected == BFacetsOfPolyhedron(G)
       signs == [k \in DOMAIN rows |-> BSigns(rows[k], G)]
       tights == [k \in DOMAIN signs |-> BTight(signs[k])]
       orbits == [k \in DOMAIN tights |-> OrbitUnder({tights[k]}, perms)]
   IN  IF \E k \in DOMAIN eqs : \E i \in 1 .. Len(G) : ~IsZero(BDot(eqs[k], G[i])) THEN "equation does not hold"
       ELSE IF Len(eqs) # n - r \/ BRank(eqs) # n - r THEN "equations are no basis"
       ELSE IF \E k \in DOMAIN signs : \E i \in DOMAIN signs[k] : signs[k][i] > 0 THEN "inequality is not valid"
       ELSE IF Range(tights) \ expected # {} THEN "printed row is no facet"
       ELSE IF expected # UNION Range(orbits) THEN "facet missing"
       ELSE IF \E k, l \in DOMAIN orbits : k < l /\ tights[k] \in orbits[l] THEN "facet printed twice" ELSE ""

(* points are the printed vertices and rays of {y : A y <= 0}: the facets of the  *)
(* cone spanned by A and the row (0, ..., 0, -1).                                 *)
PointVerdict(A, points) ==
   LET n == Len(A[1])
       G == Append(A, [i \in 1 .. n |-> IF i = n THEN Of(-1) ELSE Zero])
       expected == BFacetsOfCone(G)
       signs == [k \in DOMAIN points |-> BSigns(points[k], G)]
       tights == {BTight(signs[k]) : k \in DOMAIN signs}
   IN  IF BRank(G) # n THEN "outside the domain"
       ELSE IF \E k \in DOMAIN signs : \E i \in DOMAIN signs[k] : signs[k][i] > 0 THEN "point outside of the polyhedron"
       ELSE IF tights \ expected # {} THEN "no vertex or ray of the polyhedron"
       ELSE IF expected \ tights # {} THEN "vertex or ray missing"
       ELSE IF Cardinality(tights) # Len(points) THEN "printed twice" ELSE ""
=============================================================================
