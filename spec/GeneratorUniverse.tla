------------------------- MODULE GeneratorUniverse -------------------------
(* The inputs of facet enumeration, as a transition system: a description   *)
(* grows by one generator at a time.  TLC visits every description over a   *)
(* finite pool; the invariants are the theory that makes FacetsOfPolyhedron *)
(* the right notion (they would expose a mistake in the definitions), and   *)
(* the visited states are the inputs replayed into the real program.        *)
EXTENDS Polyhedra
CONSTANTS Dim, Below, Hi, RayBelow, RayHi, MaxVertices, MaxRays
VARIABLES verts, rays        \* strictly increasing sequences of pool vectors

(* lexicographic order on vectors, to visit each set once *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
VertexPool == [1..Dim -> -Below..Hi]
RayPool == {v \in [1..Dim -> -RayBelow..RayHi] : ~IsZero(v) /\ Content(v) = 1}

Init == verts = <<>> /\ rays = <<>>
AddVertex == /\ Len(verts) < MaxVertices /\ rays = <<>>
             /\ \E v \in VertexPool : /\ (verts = <<>> \/ LexLess(verts[Len(verts)], v)) = TRUE
                                      /\ verts' = Append(verts, v)
             /\ UNCHANGED rays
AddRay == /\ verts # <<>> /\ Len(rays) < MaxRays
          /\ \E v \in RayPool : /\ (rays = <<>> \/ LexLess(rays[Len(rays)], v)) = TRUE
                                /\ rays' = Append(rays, v)
          /\ UNCHANGED verts
Next == AddVertex \/ AddRay

Gens == [k \in 1..Len(verts) |-> Append(verts[k], 1)] \o [k \in 1..Len(rays) |-> Append(rays[k], 0)]

(* ---- theory ---- *)
RankAgrees == verts # <<>> => Rank(Gens) = RankByMinors(Gens)
(* a facet has one dimension less than the cone, and facets are maximal faces *)
FacetsAreFacets ==
  verts # <<>> =>
    LET fs == FacetsOfCone(Gens)  r == Rank(Gens)
    IN /\ \A F \in fs : Rank(SubSeqOf(Gens, F)) = r - 1
       /\ \A F \in fs, H \in fs : F \subseteq H => F = H
(* the facet at infinity is the only one without vertices *)
OneAtInfinity == verts # <<>> => \A F \in FacetsOfCone(Gens) : F \cap VertexIdx(Gens) = {} => F = RayIdx(Gens)
(* Minkowski-Weyl: the cone is the intersection of its facet half spaces    *)
(* within its span, so a generator that lies in no ... set of facets of     *)
(* full rank is redundant, and the facets are those of the extreme ones     *)
Biduality ==
  verts # <<>> =>
    LET G == Gens  cols == PivotCols(G)  r == Len(cols)
        H == [k \in 1..Len(G) |-> Columns(G[k], cols)]
        normals == {x \in {Normal(SubSeqOf(H, S), r) : S \in kSubset(r - 1, 1..Len(G))} : ~IsZero(x) /\ OneSided(Signs(x, H))}
        out == {IF \E k \in 1..Len(G) : Signs(x, H)[k] > 0 THEN Neg(x) ELSE x : x \in normals}
        N == SetToSeq(out)
        pointed == Rank(N) = r
        dualRays == {TightIdx(s) : s \in {Signs(y, N) : y \in Range(H)}}
    IN pointed =>
         \* the extreme rays of the dual description are generators
         LET ext == {y \in {Normal(SubSeqOf(N, S), r) : S \in kSubset(r - 1, 1..Len(N))} : ~IsZero(y)}
             both == ext \cup {Neg(y) : y \in ext}
             feas == {y \in both : \A k \in 1..Len(N) : Dot(N[k], y) <= 0}
         IN feas \subseteq {Primitive(h) : h \in Range(H)}
=============================================================================
