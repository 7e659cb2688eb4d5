--------------------------- MODULE InputMutations ---------------------------
(* Documents and everything that one or two edits make of them.                  *)
EXTENDS InputLanguage, Randomization, TLC
CONSTANTS Bases, MaxEdits, Sample    \* from the second edit on only Sample edits are tried
VARIABLES doc, edits, base, verdict   \* verdict: what the document is, so that the files can be chosen

I(v) == IF v < 0 THEN IntTok("-", -v) ELSE IntTok("", v)
P(v) == IntTok("+", v)
Row(v) == [k \in DOMAIN v |-> I(v[k])]
X(n) == VarTok("", -1, n)
NX(n) == VarTok("-", -1, n)
CX(c, n) == VarTok(IF c < 0 THEN "-" ELSE "", IF c < 0 THEN -c ELSE c, n)
Slash == Plain("slash")
Id == Plain("id")
LE == RelTok("<=")
GE == RelTok(">=")
EQ == RelTok("=")
Sec(kind, rows) == [kind |-> kind, rows |-> rows, value |-> 0]
NamesSec(n) == [kind |-> "names", rows |-> <<>>, value |-> n]
DimSec(n) == [kind |-> "dim", rows |-> <<>>, value |-> n]

Base(b) ==
   CASE b = 1 -> <<DimSec(2), Sec("conv", <<Row(<<0, 0>>), <<Id, I(1), Slash, I(2), I(-3)>>, Row(<<2, 5>>)>>), Sec("cone", <<Row(<<1, 3>>)>>)>>
     [] b = 2 -> <<NamesSec(2), Sec("maps", <<<<X(2), X(1)>>, <<SumTok(<<X(1), NX(2), IntTok("+", 2)>>), CX(-1, 2)>>>>), Sec("conv", <<Row(<<0, 4>>), Row(<<4, 0>>), <<P(2), I(-1)>>>>)>>
     [] b = 3 -> <<NamesSec(2), Sec("ineq", <<<<X(1), SignTok("+"), CX(2, 2), LE, I(7)>>, <<Id, NX(1), LE, I(0)>>, <<X(2), GE, SignTok("-"), I(3)>>, Row(<<1, 1, -9>>)>>)>>
     [] b = 4 -> <<DimSec(2), Sec("ineq", <<Row(<<-1, 0, 0>>), Row(<<0, -1, 2>>) , <<I(1), I(2), LE, I(8)>>, <<Id, I(2), I(1), GE, I(-4)>>>>)>>
     [] b = 5 -> <<NamesSec(3), Sec("eq", <<<<X(1), SignTok("-"), X(3), EQ, I(1)>>>>), Sec("ineq", <<<<X(1), GE, I(0)>>, <<X(2), LE, I(5)>>, <<X(1), VarTok("+", -1, 2), LE, I(6)>>, <<X(2), GE, I(-2)>>>>)>>
     [] b = 6 -> <<Sec("cone", <<Row(<<1, 0, 2>>), <<I(0), I(1), Slash, I(3), I(1)>>>>), NamesSec(3), Sec("conv", <<Row(<<0, 0, 0>>), Row(<<1, 2, 3>>), Row(<<3, 0, -1>>)>>)>>
     [] b = 7 -> <<Sec("ineq", <<Row(<<-1, 0, 0>>), Row(<<0, -1, 0>>), Row(<<3, 2, -6>>), Row(<<1, -1, -1>>)>>), Sec("eq", <<<<I(1), I(1), EQ, I(1)>>>>), DimSec(2)>>
     [] b = 8 -> <<DimSec(1), NamesSec(1), Sec("maps", <<<<SumTok(<<IntTok("", 1), NX(1)>>)>>>>), Sec("ineq", <<<<CX(3, 1), LE, I(3)>>, <<I(-1), I(0)>>>>)>>
     \* numbers at the limits of the type
     [] b = 9 -> <<NamesSec(2), Sec("ineq", <<<<CX(2147483647, 1), NX(2), LE, I(2147483647)>>, Row(<<-2147483647, 1, -2147483647>>), <<X(1), GE, I(-2147483647)>>>>), Sec("eq", <<<<X(1), CX(-2147483647, 2), EQ, I(1)>>>>)>>
     \* files of known data: only one section, read with two names (21, 22) or none
     [] b = 21 -> <<Sec("ineq", <<<<X(1), SignTok("+"), CX(2, 2), LE, I(7)>>, <<Id, NX(1), LE, I(0)>>, Row(<<1, 1, -9>>)>>)>>
     [] b = 22 -> <<Sec("ineq", <<<<X(2), GE, SignTok("-"), I(3)>>>>)>>
     [] b = 23 -> <<Sec("ineq", <<Row(<<-1, 0, 0>>), <<I(1), I(2), LE, I(8)>>>>)>>
     [] b = 24 -> <<Sec("conv", <<Row(<<0, 0>>), <<Id, I(1), Slash, I(2), I(-3)>>>>)>>
     [] b = 25 -> <<Sec("cone", <<Row(<<1, 3>>), <<I(1), Slash, I(-2), I(3)>>>>)>>
IsKnown(b) == b > 20
KnownNames(b) == IF b \in {21, 22} THEN 2 ELSE 0

Alphabet(kind) ==
   CASE kind \in Inner -> {I(0), I(-3), P(2), Slash, Id, X(1), LE, SignTok("-"), Plain("big"), Plain("junk")}
     [] kind \in Outer -> {I(0), I(3), I(-2), X(1), CX(2, 2), CX(-1, 1), X(0), SignTok("+"), SignTok("-"), LE, GE, EQ, Slash, Id, Plain("big"), Plain("junk")}
     [] kind = "maps" -> {I(2), I(-1), X(1), CX(2, 2), NX(2), X(0), SumTok(<<X(2), IntTok("-", 1)>>), SumTok(<<CX(-1, 1), VarTok("+", 3, 2)>>), SumTok(<<X(1), VarTok("+", -1, 0)>>),
                          SignTok("-"), LE, Id, Plain("big"), Plain("junk")}
     [] OTHER -> {}
InsertAt1(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))
RemoveAt1(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
InRow(d, k, r, row) == [d EXCEPT ![k].rows[r] = row]
(* edits of tokens, of rows, of sections                                          *)
TokenEditsAt(d, k, r) ==
   LET row == d[k].rows[r]
   IN  {InRow(d, k, r, InsertAt1(row, p, x)) : p \in 1 .. Len(row) + 1, x \in Alphabet(d[k].kind)}
       \union {InRow(d, k, r, [row EXCEPT ![p] = x]) : p \in 1 .. Len(row), x \in Alphabet(d[k].kind)}
       \union {InRow(d, k, r, RemoveAt1(row, p)) : p \in 1 .. Len(row)}
TokenEdits(d) == UNION {UNION {TokenEditsAt(d, k, r) : r \in 1 .. Len(d[k].rows)} : k \in 1 .. Len(d)}
(* somewhere in the document                                                      *)
RandomTokenEdits(d) ==
   LET S == {k \in DOMAIN d : d[k].rows # <<>>}
   IN  IF S = {} THEN {} ELSE LET k == RandomElement(S)  r == RandomElement(DOMAIN d[k].rows) IN TokenEditsAt(d, k, r)
RowEdits(d) ==
   UNION {UNION {{[d EXCEPT ![k].rows = RemoveAt1(d[k].rows, r)], [d EXCEPT ![k].rows = InsertAt1(d[k].rows, r, d[k].rows[r])],
                  [d EXCEPT ![k].rows = InsertAt1(d[k].rows, r, <<>>)]} : r \in 1 .. Len(d[k].rows)} : k \in 1 .. Len(d)}
SectionEdits(d) ==
   {RemoveAt1(d, k) : k \in 1 .. Len(d)} \union {InsertAt1(d, l, d[k]) : k \in 1 .. Len(d), l \in 1 .. Len(d) + 1}
   \union {LET e == RemoveAt1(d, k) IN InsertAt1(e, l, d[k]) : k \in 1 .. Len(d), l \in 1 .. Len(d)}
   \union {[d EXCEPT ![k].value = v] : k \in Find(d, "dim") \union Find(d, "names"), v \in {0, 1, 2, 3, 4}}
   \union {[d EXCEPT ![k].value = -1] : k \in Find(d, "dim")}
   \union {[d EXCEPT ![k].kind = x] : k \in 1 .. Len(d), x \in Kinds \ {"dim", "names"}}
   \union {InsertAt1(d, k, DimSec(v)) : k \in 1 .. Len(d) + 1, v \in {2, 3}}
   \union {InsertAt1(d, k, NamesSec(v)) : k \in 1 .. Len(d) + 1, v \in {2, 3}}
Proper(d) == \A k \in DOMAIN d : d[k].kind \in {"dim", "names"} => d[k].rows = <<>>
Edits(d) == {e \in TokenEdits(d) \union RowEdits(d) \union SectionEdits(d) : Proper(e)}
SomeEdits(d) == {e \in RandomTokenEdits(d) \union RowEdits(d) \union SectionEdits(d) : Proper(e)}
Min2(a, b) == IF a < b THEN a ELSE b
Some(S) == RandomSubset(Min2(Sample, Cardinality(S)), S)
VerdictOn(b, d) == IF IsKnown(b) THEN KnownMeaning(d[1], KnownNames(b), 2).ok ELSE Meaning(d).ok
Init == \E b \in Bases : base = b /\ doc = Base(b) /\ edits = 0 /\ verdict = VerdictOn(b, Base(b))
Possible == IF IsKnown(base) THEN TokenEdits(doc) \union RowEdits(doc) ELSE Edits(doc)
Further == IF IsKnown(base) THEN RandomTokenEdits(doc) \union RowEdits(doc) ELSE SomeEdits(doc)
Next == /\ edits < MaxEdits
        /\ edits' = edits + 1
        /\ base' = base
        /\ IF edits = 0 THEN doc' \in Possible ELSE doc' \in Some(Further)
        /\ verdict' = VerdictOn(base, doc')

(* the bases mean something; sections may be exchanged as long as names precede     *)
(* what uses them; no row is lost                                                   *)
BasesMean == edits = 0 => verdict = "ok"
SwapAt(d, k) == [d EXCEPT ![k] = d[k + 1], ![k + 1] = d[k]]
OrderIrrelevant == \A k \in 1 .. Len(doc) - 1 :
   (doc[k].kind # "names" /\ doc[k + 1].kind # "names") => Meaning(SwapAt(doc, k)) = Meaning(doc)
RowsCount == (~IsKnown(base) /\ verdict = "ok") => \A k \in DOMAIN doc :
   LET M == Meaning(doc)  n == Len(WithoutBlank(doc[k].rows)) IN
   CASE doc[k].kind = "conv" -> Len(M.conv) = n
     [] doc[k].kind = "cone" -> Len(M.cone) = n
     [] doc[k].kind = "ineq" -> Len(M.ineq) = n
     [] doc[k].kind = "eq" -> Len(M.eq) = n
     [] doc[k].kind = "maps" -> Len(M.maps) = n
     [] OTHER -> TRUE
(* a relation turned around together with all signs says the same                   *)
Negated(tk) == [tk EXCEPT !.s = IF tk.s = "-" THEN "" ELSE "-"]
Turned(row) == [k \in DOMAIN row |-> IF row[k].t = "rel" THEN (IF row[k].w = "<=" THEN GE ELSE LE) ELSE IF row[k].t \in {"int", "var"} THEN Negated(row[k]) ELSE row[k]]
TurnedSame == ~IsKnown(base) => \A k \in DOMAIN doc : doc[k].kind = "ineq" => \A r \in DOMAIN doc[k].rows :
   LET row == doc[k].rows[r]  names == NamesBefore(doc, k)
       clean == (\E p \in DOMAIN row : row[p].t = "rel" /\ row[p].w # "=") /\ \A p \in DOMAIN row : row[p].t # "sign" /\ row[p].v # 0
   IN  clean /\ Cardinality(Find(doc, "names")) <= 1 => ReadConstraint(row, FALSE, names) = ReadConstraint(Turned(row), FALSE, names)
=============================================================================
