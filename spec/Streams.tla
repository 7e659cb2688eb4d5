------------------------------ MODULE Streams ------------------------------
(* A file that is read through helpers which look ahead: a guarded use of a    *)
(* file and peekLine / peekWord leave position and state as they were.         *)
(* Content is a sequence of characters, "n" is the end of a line, "_" a blank. *)
EXTENDS Integers, Sequences, FiniteSets

Stream(content) == [content |-> content, pos |-> 0, eof |-> FALSE, fail |-> FALSE, saved |-> <<>>, known |-> TRUE, out |-> <<>>]
Good(f) == ~f.eof /\ ~f.fail
At(f, p) == f.content[p + 1]
LineEnd(f, p) == IF \E k \in p..Len(f.content) - 1 : At(f, k) = "n" THEN CHOOSE k \in p..Len(f.content) - 1 : At(f, k) = "n" /\ \A l \in p..k - 1 : At(f, l) # "n" ELSE Len(f.content)
LineAt(f, p) == SubSeq(f.content, p + 1, LineEnd(f, p))
IsBlank(c) == c \in {"n", "_"}
WordStart(f, p) == IF \E k \in p..Len(f.content) - 1 : ~IsBlank(At(f, k)) THEN CHOOSE k \in p..Len(f.content) - 1 : ~IsBlank(At(f, k)) /\ \A l \in p..k - 1 : IsBlank(At(f, l)) ELSE Len(f.content)
WordEnd(f, p) == IF \E k \in p..Len(f.content) - 1 : IsBlank(At(f, k)) THEN CHOOSE k \in p..Len(f.content) - 1 : IsBlank(At(f, k)) /\ \A l \in p..k - 1 : ~IsBlank(At(f, l)) ELSE Len(f.content)

Can(f, op) ==
   CASE op \in {"peekLine", "guard"} -> Good(f)
     [] op = "peekWord" -> Good(f) /\ WordStart(f, f.pos) < Len(f.content)
     [] op = "release" -> f.saved # <<>>
     [] op = "seek" -> f.saved # <<>>
     [] OTHER -> TRUE
Do(f, op) ==
   CASE op = "peekLine" -> [f EXCEPT !.out = LineAt(f, f.pos)]
     [] op = "peekWord" -> LET s == WordStart(f, f.pos) IN [f EXCEPT !.out = SubSeq(f.content, s + 1, WordEnd(f, s))]
     [] op = "guard" -> [f EXCEPT !.saved = Append(@, f.pos), !.out = <<>>]
     [] op = "release" -> [f EXCEPT !.pos = f.saved[Len(f.saved)], !.eof = FALSE, !.fail = FALSE, !.saved = SubSeq(@, 1, Len(@) - 1), !.out = <<>>]
     [] op = "seek" -> [f EXCEPT !.pos = 0, !.eof = FALSE, !.fail = FALSE, !.out = <<>>]      \* within a guarded use anything may be done
     [] op = "readLine" ->
          IF ~Good(f) THEN [f EXCEPT !.fail = TRUE, !.out = <<>>]
          ELSE LET e == LineEnd(f, f.pos)  last == e = Len(f.content)
               IN  [f EXCEPT !.out = LineAt(f, f.pos), !.pos = IF last THEN e ELSE e + 1, !.eof = last, !.fail = last /\ e = f.pos]
     [] op = "readWord" ->
          IF ~Good(f) THEN [f EXCEPT !.fail = TRUE, !.out = <<>>]
          ELSE LET s == WordStart(f, f.pos)  e == WordEnd(f, s)
               IN  IF s = Len(f.content) THEN [f EXCEPT !.pos = s, !.eof = TRUE, !.fail = TRUE, !.out = <<>>]
                   ELSE [f EXCEPT !.out = SubSeq(f.content, s + 1, e), !.pos = e, !.eof = e = Len(f.content), !.fail = FALSE]
StreamOps == {"peekLine", "peekWord", "guard", "release", "seek", "readLine", "readWord"}
=============================================================================
