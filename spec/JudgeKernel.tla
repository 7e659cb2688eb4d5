----------------------------- MODULE JudgeKernel -----------------------------
(* Judges the results of the linear algebra of the real program.                 *)
EXTENDS LargeGeometry, Json, IOUtils
CONSTANT Stride
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLE i

Col(M, c) == [r \in 1 .. Len(M) |-> M[r][c]]
Leads(e) == ~BIsZero(e) /\ ~e[BFirst(e)].neg
(* [M, eqs]: a basis of the equations that hold on the rows of M                  *)
Equations(o) ==
   LET n == Len(o.M[1])  r == BRank(o.M)
   IN  IF \E k \in DOMAIN o.eqs : Len(o.eqs[k]) # n THEN "equation of wrong length"
       ELSE IF \E k \in DOMAIN o.eqs : \E p \in DOMAIN o.M : ~IsZero(BDot(o.M[p], o.eqs[k])) THEN "equation does not hold"
       ELSE IF Len(o.eqs) # n - r THEN "wrong number of equations"
       ELSE IF BRank(o.eqs) # n - r THEN "dependent equations"
       ELSE IF \E k \in DOMAIN o.eqs : ~Leads(o.eqs[k]) THEN "leading entry is not positive" ELSE ""
(* [A, M, L, T]: M is what became of [A; -I], rows and columns count from 1        *)
Elimination(o) ==
   LET m == Len(o.A)  n == Len(o.A[1])
       bottom == SubSeq(o.M, m + 1, m + n)
       T == {o.T[k] : k \in DOMAIN o.T}  L == {o.L[k] : k \in DOMAIN o.L}
       nz(r) == {c \in 1 .. n : ~IsZero(o.M[r][c])}
       pc(r) == CHOOSE c \in nz(r) : TRUE
   IN  IF Len(o.M) # m + n THEN "wrong number of rows"
       ELSE IF \E r \in 1 .. m, c \in 1 .. n : o.M[r][c] # Neg(BDot(o.A[r], Col(bottom, c))) THEN "columns are no combinations of the old columns"
       ELSE IF BRank(bottom) # n THEN "columns became dependent"
       ELSE IF Cardinality(T) # Len(o.T) \/ Cardinality(L) # Len(o.L) \/ ~(T \subseteq 1 .. m) \/ ~(L \subseteq 1 .. n) THEN "pivots out of range"
       ELSE IF Cardinality(T) # BRank(o.A) \/ Cardinality(L) # n - Cardinality(T) THEN "wrong number of pivots"
       ELSE IF \E r \in T : Cardinality(nz(r)) # 1 THEN "pivot row is not eliminated"
       ELSE IF Cardinality({pc(r) : r \in T}) # Cardinality(T) \/ {pc(r) : r \in T} \cap L # {} THEN "pivot columns are not distinct"
       ELSE IF \E r \in 1 .. m, c \in L : ~IsZero(o.M[r][c]) THEN "column of an equation is not zero"
       ELSE IF \E c \in 1 .. n : ~Leads(Col(o.M, c)) THEN "first entry of a column is not positive" ELSE ""
(* [M, rows, results]: rows are constraints; M spans the polyhedron                *)
Image(M, r) == BPrimitive([p \in DOMAIN M |-> BDot(M[p], r)])
Normalised(o) ==
   LET im == [k \in DOMAIN o.rows |-> Image(o.M, o.rows[k])]
   IN  IF \E k \in DOMAIN o.rows : Image(o.M, o.results[k]) # im[k] THEN "normalised row is not equivalent"
       ELSE IF \E k, l \in DOMAIN o.rows : im[k] = im[l] /\ o.results[k] # o.results[l] THEN "two normal forms of one constraint"
       ELSE IF \E k \in DOMAIN o.rows : MagCmp(BContent(o.results[k]), <<1>>) > 0 THEN "normal form is not primitive" ELSE ""
RowResult(o) ==
   LET n == Len(o.a)
       want == CASE o.op = "add" -> [k \in 1 .. n |-> Add(o.a[k], o.b[k])]
                 [] o.op = "sub" -> [k \in 1 .. n |-> Sub(o.a[k], o.b[k])]
                 [] o.op = "scale" -> [k \in 1 .. n |-> Mul(o.a[k], o.x)]
                 [] o.op = "divide" -> [k \in 1 .. n |-> Quo(o.a[k], o.x)]
                 [] o.op = "dot" -> <<BDot(o.a, o.b)>>
                 [] o.op = "distance" -> <<Neg(BDot(o.a, o.b))>>
                 [] o.op = "rhs" -> <<Neg(o.a[n])>>
                 [] o.op = "gcd" -> <<Signed(FALSE, BContent(o.a))>>
                 [] o.op = "lcm" -> <<FoldLeft(Lcm, Of(1), o.a)>>
   IN  IF o.result # want THEN o.op \o " is wrong" ELSE ""
MatrixResult(o) ==
   CASE o.op = "rank" -> (IF o.result # BRank(o.M) THEN "rank is wrong" ELSE "")
     [] o.op = "transpose" -> (IF o.result # [c \in 1 .. Len(o.M[1]) |-> Col(o.M, c)] THEN "transpose is wrong" ELSE "")
     [] o.op = "product" -> (IF o.result # [r \in DOMAIN o.M |-> BDot(o.M[r], o.a)] THEN "product is wrong" ELSE "")
     [] o.op \in {"nearest", "furthest"} ->
          LET d(v) == Neg(BDot(o.a, v))
          IN  IF o.result \notin Range(o.M) THEN o.op \o " is no vertex of the list"
              ELSE IF \E v \in Range(o.M) : Cmp(d(v), d(o.result)) = (IF o.op = "nearest" THEN -1 ELSE 1) THEN o.op \o " is wrong" ELSE ""
Verdict(o) ==
   CASE o.kind = "equations" -> Equations(o)
     [] o.kind = "elimination" -> Elimination(o)
     [] o.kind = "normalise" -> Normalised(o)
     [] o.kind = "row" -> RowResult(o)
     [] o.kind = "matrix" -> MatrixResult(o)

Init == i \in 1 .. Stride /\ i <= Len(Obs)
Next == i + Stride <= Len(Obs) /\ i' = i + Stride
Accepted == LET v == Verdict(Obs[i])
            IN  v = "" \/ (PrintT("REJECT " \o ToString(i) \o " " \o v \o " ENDREJECT") /\ FALSE)
=============================================================================
