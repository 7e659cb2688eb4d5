---------------------------- MODULE InputLanguage ----------------------------
(* The input files: a document is a sequence of sections, a section is a         *)
(* sequence of rows, a row is a sequence of tokens.  Meaning gives the data that  *)
(* a document denotes, or "error", or "any" where nothing is documented.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* ------------------------------------------------------------------- tokens *)
(* t: "int" 3 +3 -3, "var" x -x 2x +2x, "sign" + -, "slash", "rel", "id" (row),   *)
(*    "sum" of a map (u: its terms), "big", "junk"                                *)
(* s: attached sign "", "+" or "-"; v: value without sign, -1: none;              *)
(* n: number of the name, 0: not declared; w: relation                            *)
Tok(t, s, v, n, w) == [t |-> t, s |-> s, v |-> v, n |-> n, w |-> w, u |-> <<>>]
IntTok(s, v) == Tok("int", s, v, 0, "")
VarTok(s, v, n) == Tok("var", s, v, n, "")
SignTok(s) == Tok("sign", s, 0, 0, "")
RelTok(w) == Tok("rel", "", 0, 0, w)
Plain(t) == Tok(t, "", 0, 0, "")
SumTok(u) == [Plain("sum") EXCEPT !.u = u]
Signed1(tk) == (IF tk.s = "-" THEN -1 ELSE 1) * (IF tk.v = -1 THEN 1 ELSE tk.v)

Error == [ok |-> "error", row |-> <<>>]
Unclear == [ok |-> "any", row |-> <<>>]
Ok(row) == [ok |-> "ok", row |-> row]

WithoutId(row) == IF row # <<>> /\ row[1].t = "id" THEN Tail(row) ELSE row
Bad(row) == \E k \in DOMAIN row : row[k].t \in {"big", "junk", "id", "sum"}
(* ------------------------------------------------------- vertices and rays *)
(* rational numbers: int or int / int                                            *)
RECURSIVE ReadRationals(_)
ReadRationals(row) ==   \* a sequence of <<numerator, denominator>>, or <<<<0, 0>>>> for an error
   IF row = <<>> THEN <<>>
   ELSE IF row[1].t # "int" THEN <<<<0, 0>>>>
   ELSE IF Len(row) >= 2 /\ row[2].t = "slash" THEN
      (IF Len(row) = 2 \/ row[3].t # "int" \/ row[3].v = 0 THEN <<<<0, 0>>>>
       ELSE <<<<Signed1(row[1]) * (IF row[3].s = "-" THEN -1 ELSE 1), row[3].v>>>> \o ReadRationals(SubSeq(row, 4, Len(row))))
   ELSE <<<<Signed1(row[1]), 1>>>> \o ReadRationals(Tail(row))
ProductOf(S) == FoldLeft(LAMBDA acc, x : acc * x[2], 1, S)
ReadPoint(tokens, ray) ==
   LET row == WithoutId(tokens)  q == ReadRationals(row)  d == ProductOf(q)
   IN  IF row = <<>> \/ Bad(row) \/ \E k \in DOMAIN q : q[k][2] = 0 THEN Error
       ELSE Ok([k \in 1 .. Len(q) + 1 |-> IF k <= Len(q) THEN q[k][1] * (d \div q[k][2]) ELSE IF ray THEN 0 ELSE d])
(* -------------------------------------------------------------- constraints *)
RightRelation(w, equation) == IF equation THEN w = "=" ELSE w \in {"<=", ">="}
Oriented(row, w) == IF w = ">=" THEN [k \in DOMAIN row |-> -row[k]] ELSE row
ReadVector(row, equation) ==
   LET rels == {k \in DOMAIN row : row[k].t = "rel"}
       ints == \A k \in DOMAIN row \ rels : row[k].t = "int"
       v == [k \in DOMAIN row |-> Signed1(row[k])]
       L == Len(row)
   IN  IF row = <<>> \/ ~ints THEN Error
       ELSE IF rels = {} THEN Ok(v)
       ELSE IF Cardinality(rels) > 1 \/ L < 3 \/ row[L - 1].t # "rel" \/ row[L].t # "int" THEN Error
       ELSE IF ~RightRelation(row[L - 1].w, equation) THEN Error
       ELSE Ok(Oriented(SubSeq(v, 1, L - 2) \o <<-v[L]>>, row[L - 1].w))
(* a sign may be separated from what it belongs to                                *)
RECURSIVE Joined(_)
Joined(row) ==
   IF row = <<>> THEN <<>>
   ELSE IF row[1].t # "sign" THEN <<row[1]>> \o Joined(Tail(row))
   ELSE IF Len(row) = 1 \/ row[2].t \notin {"int", "var"} \/ row[2].s = "-" THEN <<Plain("junk")>> \o Joined(Tail(row))
   ELSE IF row[2].s = "+" THEN <<Plain("unclear")>> \o Joined(SubSeq(row, 3, Len(row)))
   ELSE <<[row[2] EXCEPT !.s = row[1].s]>> \o Joined(SubSeq(row, 3, Len(row)))
ReadNamed(tokens, equation, names) ==
   LET row == Joined(tokens)  L == Len(row)
       left == SubSeq(row, 1, L - 2)
       coeff(n) == FoldLeft(LAMBDA acc, tk : IF tk.n = n THEN acc + Signed1(tk) ELSE acc, 0, left)
       twice == \E k, l \in DOMAIN left : k < l /\ left[k].n = left[l].n
       shape == L >= 3 /\ row[L].t = "int" /\ row[L - 1].t = "rel" /\ \A k \in DOMAIN left : left[k].t = "var" /\ left[k].n \in 1 .. names
   IN  IF \E k \in DOMAIN row : row[k].t = "unclear" THEN Unclear
       ELSE IF Bad(row) \/ ~shape THEN Error
       ELSE IF ~RightRelation(row[L - 1].w, equation) THEN Error
       ELSE IF twice THEN (IF \E k \in DOMAIN left : left[k].v = 0 THEN Unclear ELSE Error)
       ELSE Ok(Oriented([k \in 1 .. names + 1 |-> IF k <= names THEN coeff(k) ELSE -Signed1(row[L])], row[L - 1].w))
ReadConstraint(tokens, equation, names) ==
   LET row == WithoutId(tokens)
   IN  IF Bad(row) THEN Error
       ELSE IF \E k \in DOMAIN row : row[k].t = "var" THEN ReadNamed(row, equation, names)
       ELSE ReadVector(row, equation)
(* --------------------------------------------------------------------- maps *)
(* an image is a sum of terms, written without blanks; columns are the images     *)
Terms(tk) == IF tk.t = "sum" THEN tk.u ELSE <<tk>>
BadImage(tk, names) == tk.t \notin {"sum", "int", "var"} \/ \E k \in DOMAIN Terms(tk) : LET x == Terms(tk)[k] IN x.t \notin {"int", "var"} \/ (x.t = "var" /\ x.n \notin 1 .. names)
ImageOf(tk, names) ==
   [c \in 1 .. names + 1 |-> FoldLeft(LAMBDA acc, x : IF (x.t = "var" /\ x.n = c) \/ (x.t = "int" /\ c = names + 1) THEN acc + Signed1(x) ELSE acc, 0, Terms(tk))]
ReadMap(row, names) ==
   IF names = 0 \/ Len(row) # names \/ \E k \in DOMAIN row : BadImage(row[k], names) THEN Error
   ELSE Ok([k \in 1 .. names |-> ImageOf(row[k], names)])

(* ---------------------------------------------------------------- documents *)
(* section: [kind, rows, value]; value: dimension (-1: not a number) or number of  *)
(* names                                                                           *)
Inner == {"conv", "cone"}
Outer == {"ineq", "eq"}
Kinds == Inner \union Outer \union {"maps", "names", "dim"}
ReducedKinds == {"rconv", "rcone", "rineq"}   \* only one row of every class is given
Words(kind) ==
   CASE kind = "conv" -> {"CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices"}
     [] kind = "cone" -> {"CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays"}
     [] kind = "ineq" -> {"INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities"}
     [] kind = "eq" -> {"EQUATIONS", "EQUATION_SECTION", "EQUATIONS_SECTION", "Equations"}
     [] kind = "maps" -> {"MAPS", "MAP_SECTION", "MAPS_SECTION", "Maps"}
     [] kind = "names" -> {"INDEX", "INDICES", "INDEX_SECTION", "INDICES_SECTION", "NAMES", "NAME_SECTION", "NAMES_SECTION", "Indices", "Names"}
     [] kind = "dim" -> {"DIM", "DIMENSION", "Dim", "Dimension"}
     [] kind = "rconv" -> {"REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION", "Reduced Vertices"}
     [] kind = "rcone" -> {"REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION", "Reduced Rays"}
     [] kind = "rineq" -> {"REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION", "Reduced Inequalities"}
Find(doc, kind) == {k \in DOMAIN doc : doc[k].kind = kind}
Only(S) == CHOOSE x \in S : TRUE
NamesBefore(doc, k) == LET S == {l \in 1 .. k - 1 : doc[l].kind = "names"} IN IF S = {} THEN 0 ELSE doc[Only(S)].value
Read(doc, k, r) ==   \* rows without tokens are blank lines
   CASE doc[k].kind = "conv" -> ReadPoint(doc[k].rows[r], FALSE)
     [] doc[k].kind = "cone" -> ReadPoint(doc[k].rows[r], TRUE)
     [] doc[k].kind = "ineq" -> ReadConstraint(doc[k].rows[r], FALSE, NamesBefore(doc, k))
     [] doc[k].kind = "eq" -> ReadConstraint(doc[k].rows[r], TRUE, NamesBefore(doc, k))
     [] doc[k].kind = "maps" -> ReadMap(doc[k].rows[r], NamesBefore(doc, k))
     [] OTHER -> Ok(<<>>)
Result(ok, names, inner, rays, ineqs, eqs, maps) == [ok |-> ok, names |-> names, conv |-> inner, cone |-> rays, ineq |-> ineqs, eq |-> eqs, maps |-> maps]
WithoutBlank(rows) == SelectSeq(rows, LAMBDA r : r # <<>>)
Meaning(document) ==
   LET doc == [k \in DOMAIN document |-> [document[k] EXCEPT !.rows = WithoutBlank(document[k].rows)]]
       none(ok) == Result(ok, 0, <<>>, <<>>, <<>>, <<>>, <<>>)
       R == [k \in DOMAIN doc |-> [r \in DOMAIN doc[k].rows |-> Read(doc, k, r)]]
       rows(kind) == LET S == Find(doc, kind) IN IF S = {} THEN <<>> ELSE LET k == Only(S) IN [r \in DOMAIN R[k] |-> R[k][r].row]
       kinds == {doc[k].kind : k \in DOMAIN doc}
       inner == kinds \intersect Inner # {}   outer == kinds \intersect Outer # {}
       points == rows("conv") \o rows("cone")   constraints == rows("ineq") \o rows("eq")
       all == IF inner THEN points ELSE constraints
       names == IF Find(doc, "names") = {} THEN 0 ELSE doc[Only(Find(doc, "names"))].value
       dim == IF Find(doc, "dim") = {} THEN 0 ELSE doc[Only(Find(doc, "dim"))].value
   IN  IF \E k \in Kinds : Cardinality(Find(doc, k)) > 1 THEN none("error")
       ELSE IF inner = outer THEN none("error")
       ELSE IF \E k \in DOMAIN R : \E r \in DOMAIN R[k] : R[k][r].ok = "error" THEN none("error")
       ELSE IF \E k \in DOMAIN R : \E r \in DOMAIN R[k] : R[k][r].ok = "any" THEN none("any")
       ELSE IF (outer /\ rows("ineq") = <<>>) \/ points \o constraints = <<>> THEN none("error")
       ELSE IF \E k, l \in DOMAIN all : Len(all[k]) # Len(all[l]) THEN none("error")
       ELSE IF Find(doc, "names") # {} /\ names = 0 THEN none("any")
       ELSE IF names # 0 /\ Len(all[1]) # names + 1 THEN none("error")
       ELSE IF Find(doc, "dim") # {} /\ Len(all[1]) # dim + 1 THEN none("error")
       ELSE IF inner /\ rows("conv") = <<>> THEN none("any")
       ELSE Result("ok", names, rows("conv"), rows("cone"), rows("ineq"), rows("eq"), rows("maps"))

(* known data: only rows, read with the names of the main document                  *)
KnownMeaning(section, names, dimension) ==
   LET doc == <<[kind |-> "names", rows |-> <<>>, value |-> names], [section EXCEPT !.rows = WithoutBlank(section.rows)]>>
       R == [r \in DOMAIN doc[2].rows |-> Read(doc, 2, r)]
   IN  IF \E r \in DOMAIN R : R[r].ok = "error" THEN Error
       ELSE IF \E r \in DOMAIN R : R[r].ok = "any" THEN Unclear
       ELSE IF \E r \in DOMAIN R : Len(R[r].row) # dimension + 1 THEN Error
       ELSE Ok([r \in DOMAIN R |-> R[r].row])
=============================================================================
