------------------------------ MODULE Symmetry ------------------------------
(* Symmetries given by affine maps: x |-> M x on homogeneous vectors.  A map  *)
(* moves vertices and rays; an inequality a . x <= 0 becomes (a M) . x <= 0.  *)
EXTENDS Polyhedra

Apply(M, v) == [r \in 1..Len(M) |-> Dot(M[r], v)]
ApplyRow(a, M) == [c \in 1..Len(a) |-> FoldLeft(LAMBDA acc, k : acc + a[k] * M[k][c], 0, [k \in 1..Len(a) |-> k])]

RECURSIVE CloseUnder(_, _, _)
(* all images of the points of X under the group (or monoid) of the maps      *)
CloseUnder(X, new, Ms) ==
  IF new = {} THEN X
  ELSE LET Y == {Primitive(Apply(M, x)) : M \in Range(Ms), x \in new} \ X
       IN CloseUnder(X \cup Y, Y, Ms)
ClosePoints(V, Ms) == LET S == {Primitive(v) : v \in Range(V)} IN CloseUnder(S, S, Ms)

(* rows modulo equations: one representative per class                        *)
PosLead(r, c) == IF r[c] > 0 THEN r ELSE Neg(r)
Canon(a, ech) == FoldLeft(LAMBDA v, k : LET c == ech[1][k]  r == PosLead(ech[2][k], c)
                                        IN IF v[c] = 0 THEN v ELSE Primitive([i \in 1..Len(v) |-> r[c] * v[i] - v[c] * r[i]]),
                          Primitive(a), [k \in 1..Len(ech[1]) |-> k])
RECURSIVE CloseRowsUnder(_, _, _, _)
CloseRowsUnder(X, new, Ms, ech) ==
  IF new = {} THEN X
  ELSE LET Y == {Canon(ApplyRow(x, M), ech) : M \in Range(Ms), x \in new} \ X
       IN CloseRowsUnder(X \cup Y, Y, Ms, ech)
CloseRows(A, Ms, E) == LET ech == Echelon(E)
                           S == {Canon(a, ech) : a \in Range(A)}
                       IN CloseRowsUnder(S, S, Ms, ech)

(* ---- the action on generators and on faces ---- *)
IsSymmetry(G, M) == \A i \in 1..Len(G) : \E j \in 1..Len(G) : Primitive(Apply(M, G[i])) = Primitive(G[j])
Perm(G, M) == [i \in 1..Len(G) |-> CHOOSE j \in 1..Len(G) : Primitive(Apply(M, G[i])) = Primitive(G[j])]
RECURSIVE OrbitOf(_, _, _)
OrbitOf(X, new, perms) ==
  IF new = {} THEN X
  ELSE LET Y == {{p[i] : i \in F} : p \in perms, F \in new} \ X
       IN OrbitOf(X \cup Y, Y, perms)
Orbit(F, perms) == OrbitOf({F}, {F}, perms)

(* ---- reduced facet enumeration: one facet of every orbit ---- *)
OrbitVerdict(G, Ms, eqs, ineqs) ==
  LET n == Len(G[1])
      r == Rank(G)
      perms == {Perm(G, M) : M \in Range(Ms)}
      expected == FacetsOfPolyhedron(G)
      signs == [k \in 1..Len(ineqs) |-> Signs(ineqs[k], G)]
      tights == [k \in 1..Len(ineqs) |-> TightIdx(signs[k])]
      got == [k \in 1..Len(ineqs) |-> Orbit(tights[k], perms)]
      wanted == {Orbit(F, perms) : F \in expected}
  IN IF \E e \in Range(eqs) \cup Range(ineqs) : Len(e) # n THEN {Problem("row of wrong length", {})}
     ELSE IF \E M \in Range(Ms) : ~IsSymmetry(G, M) THEN {Problem("outside the domain", {})}
     ELSE UNION {
       IF \E e \in Range(eqs) : ~IsZero(Signs(e, G)) THEN {Problem("equation does not hold", {})} ELSE {},
       IF Len(eqs) # n - r \/ Rank(eqs) # n - r THEN {Problem("equations are no basis", {})} ELSE {},
       IF \E k \in DOMAIN signs : \E i \in DOMAIN signs[k] : signs[k][i] > 0 THEN {Problem("inequality is not valid", {})} ELSE {},
       IF Range(tights) \ expected # {} THEN {Problem("printed row is no facet", Range(tights) \ expected)} ELSE {},
       IF wanted \ Range(got) # {} THEN {Problem("orbit of facets missing", CHOOSE x \in wanted \ Range(got) : TRUE)} ELSE {},
       IF \E k, m \in DOMAIN got : k # m /\ got[k] = got[m] THEN {Problem("two facets of one orbit", {})} ELSE {} }

(* ---- reduced vertex enumeration ---- *)
RECURSIVE PointOrbit(_, _, _)
PointOrbit(X, new, Ms) ==
  IF new = {} THEN X
  ELSE LET Y == {Primitive(Apply(M, y)) : M \in Range(Ms), y \in new} \ X IN PointOrbit(X \cup Y, Y, Ms)
VOrbitVerdict(A, E, Ms, n, reduced, points) ==
  LET ech == Echelon(E)
      all == CloseRows(A, Ms, E)
      rows == IF reduced THEN SetToSeq(all) ELSE A
      expected == ExtremeRays(rows, E, n)
      got == [k \in 1..Len(points) |-> Primitive(points[k])]
      orb == [k \in 1..Len(points) |-> PointOrbit({got[k]}, {got[k]}, Ms)]
      wanted == {PointOrbit({y}, {y}, Ms) : y \in expected}
  IN IF (\E M \in Range(Ms) : Rank(E \o [k \in 1..Len(E) |-> ApplyRow(E[k], M)]) # Rank(E)) \/ (~reduced /\ all # {Canon(a, ech) : a \in Range(A)}) \/ ~Pointed(rows, E, n)
     THEN {Problem("outside the domain", {})}
     ELSE IF \E k \in DOMAIN points : Len(points[k]) # n THEN {Problem("row of wrong length", {})}
     ELSE UNION {
       IF Range(got) \ expected # {} THEN {Problem("no vertex or ray of the polyhedron", Range(got) \ expected)} ELSE {},
       IF wanted \ Range(orb) # {} THEN {Problem("orbit of vertices or rays missing", CHOOSE x \in wanted \ Range(orb) : TRUE)} ELSE {},
       IF \E k, m \in DOMAIN orb : k # m /\ orb[k] = orb[m] THEN {Problem("two members of one orbit", {})} ELSE {} }
=============================================================================
