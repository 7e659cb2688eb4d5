------------------------------ MODULE Variants ------------------------------
(* One description, many ways to run it: the rows permuted and repeated, and  *)
(* every combination of the options that must not matter.  TLC visits every   *)
(* variant and checks that the described object does not change; every        *)
(* variant is run through the real program.                                   *)
EXTENDS Polyhedra
CONSTANTS Kind,      \* "FE" or "VE"
          MaxEdits, Methods, Threads, Sortings, Types
VARIABLES base, rows, edits, method, threads, sorting, type
vars == <<base, rows, edits, method, threads, sorting, type>>

(* vertices (last entry 1) and rays (last entry 0): a degenerate pyramid-like *)
(* polytope with a redundant point, an unbounded polygon, a flat square       *)
FEBases == << <<<<0,0,0,1>>, <<2,0,0,1>>, <<0,2,0,1>>, <<2,2,0,1>>, <<1,1,1,1>>, <<1,1,0,1>>>>,
              <<<<0,0,1>>, <<1,0,1>>, <<1,1,0>>, <<0,1,0>>>>,
              <<<<0,0,1,1>>, <<1,0,1,1>>, <<0,1,1,1>>, <<1,1,1,1>>>>,
              <<<<0,0,0,1>>, <<1,0,0,1>>, <<0,1,0,1>>, <<0,0,1,1>>, <<1,1,1,1>>>> >>
(* a square with a redundant row, a wedge, a simplex with a tight extra row   *)
VEBases == << <<<<-1,0,0>>, <<0,-1,0>>, <<1,0,-1>>, <<0,1,-1>>, <<1,1,-3>>>>,
              <<<<-1,0,0>>, <<-1,1,-1>>, <<0,-1,-1>>>>,
              <<<<-1,0,0,0>>, <<0,-1,0,0>>, <<0,0,-1,0>>, <<1,1,1,-1>>, <<1,0,0,-1>>>>,
              <<<<2,1,-2>>, <<-2,1,0>>, <<0,-3,-1>>>> >>
Bases == IF Kind = "FE" THEN FEBases ELSE VEBases
R(b, s) == [k \in 1..Len(s) |-> Bases[b][s[k]]]

Init == /\ base \in 1..Len(Bases) /\ rows = [k \in 1..Len(Bases[base]) |-> k] /\ edits = 0
        /\ method \in Methods /\ threads \in Threads /\ sorting \in Sortings /\ type \in Types
Swap(i, j) == rows' = [rows EXCEPT ![i] = rows[j], ![j] = rows[i]]
Repeat(i, j) == rows' = SubSeq(rows, 1, j) \o <<rows[i]>> \o SubSeq(rows, j + 1, Len(rows))
Next == /\ edits < MaxEdits /\ edits' = edits + 1
        /\ (\E i \in 1..Len(rows), j \in 1..Len(rows) : i < j /\ Swap(i, j)) \/ (\E i \in 1..Len(rows), j \in 0..Len(rows) : Repeat(i, j))
        /\ UNCHANGED <<base, method, threads, sorting, type>>

Described(M) == IF Kind = "FE" THEN {{M[i] : i \in F} : F \in FacetsOfPolyhedron(M)} ELSE ExtremeRays(M, <<>>, Len(M[1]))
SameMeaning == (method = CHOOSE m \in Methods : TRUE) /\ (threads = CHOOSE t \in Threads : TRUE) /\ (sorting = CHOOSE s \in Sortings : TRUE) /\ (type = CHOOSE t \in Types : TRUE)
               => Described(R(base, rows)) = Described(Bases[base])
=============================================================================
