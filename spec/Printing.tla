------------------------------ MODULE Printing ------------------------------
(* How rows are written, and what a written row denotes.                      *)
(* A written row is a sequence of tokens [k, v]: k = "num" (an unsigned        *)
(* number v), "sign" ("+" or "-"), "name" (the position v of a declared name), *)
(* "rel" ("<=" or "="), "slash", "gap" (white space).                          *)
(* Reading is specified, writing is not: any spelling is faithful that the     *)
(* documented format reads as the row.                                         *)
EXTENDS BigNum, FiniteSets

Num(v) == [k |-> "num", v |-> v]
IsTok(t, k) == t.k = k

(* A term: optional sign, optional number, name; or optional sign and number.  *)
(* Parse(ts) is a sequence of [c, x] with x = 0 for a constant, or <<>> with   *)
(* ok = FALSE.                                                                 *)
NoGap(ts) == SelectSeq(ts, LAMBDA t : t.k # "gap")

RECURSIVE Terms(_, _)
Terms(ts, first) ==
   IF ts = <<>> THEN [ok |-> TRUE, terms |-> <<>>]
   ELSE LET signed == ts[1].k = "sign"
            neg == signed /\ ts[1].v = "-"
            r1 == IF signed THEN Tail(ts) ELSE ts
            numbered == r1 # <<>> /\ r1[1].k = "num"
            mag == IF numbered THEN r1[1].v ELSE <<1>>
            r2 == IF numbered THEN Tail(r1) ELSE r1
            named == r2 # <<>> /\ r2[1].k = "name"
            r3 == IF named THEN Tail(r2) ELSE r2
        IN  IF ~(numbered \/ named) \/ ~(first \/ signed) THEN [ok |-> FALSE, terms |-> <<>>]
            ELSE LET rest == Terms(r3, FALSE)
                 IN  [ok |-> rest.ok, terms |-> <<[c |-> Signed(neg, mag), x |-> IF named THEN r2[1].v ELSE 0]>> \o rest.terms]

(* The row a, with a.(x, 1) <= 0 or = 0, that a named constraint denotes: terms, *)
(* a relation and one signed number.  n is the number of names.                  *)
RelAt(ts) == {p \in DOMAIN ts : ts[p].k = "rel"}
Denotes(tokens, n, relation) ==
   LET ts == NoGap(tokens)
       at == RelAt(ts)
   IN  IF Cardinality(at) # 1 THEN [ok |-> FALSE]
       ELSE LET p == CHOOSE q \in at : TRUE
                l == Terms(SubSeq(ts, 1, p - 1), TRUE)
                r == Terms(SubSeq(ts, p + 1, Len(ts)), TRUE)
                vars == {l.terms[q].x : q \in DOMAIN l.terms}
            IN  IF \/ ts[p].v # relation \/ ~l.ok \/ ~r.ok \/ Len(r.terms) # 1 \/ r.terms[1].x # 0
                   \/ 0 \in vars \/ Cardinality(vars) # Len(l.terms) THEN [ok |-> FALSE]
                ELSE [ok |-> TRUE,
                      row |-> [i \in 1 .. n + 1 |->
                                 IF i = n + 1 THEN Neg(r.terms[1].c)
                                 ELSE IF i \in vars THEN l.terms[CHOOSE q \in DOMAIN l.terms : l.terms[q].x = i].c
                                 ELSE Zero]]

(* A row of numbers, separated by white space: num, or num/num                  *)
RECURSIVE Fractions(_)
Fractions(ts) ==
   IF ts = <<>> THEN <<>>
   ELSE IF ts[1].k = "gap" THEN Fractions(Tail(ts))
   ELSE LET neg == ts[1].k = "sign"
            r1 == IF neg THEN Tail(ts) ELSE ts
            frac == Len(r1) >= 3 /\ r1[2].k = "slash"
            use == IF frac THEN 3 ELSE 1
        IN  IF r1 = <<>> \/ r1[1].k # "num" \/ (frac /\ r1[3].k # "num") \/ (Len(r1) > use /\ r1[use + 1].k # "gap")
            THEN <<[bad |-> TRUE]>>
            ELSE <<[bad |-> FALSE, p |-> Signed(neg /\ ts[1].v = "-", r1[1].v), q |-> IF frac THEN Signed(FALSE, r1[3].v) ELSE Signed(FALSE, <<1>>)]>>
                 \o Fractions(SubSeq(r1, use + 1, Len(r1)))
=============================================================================
