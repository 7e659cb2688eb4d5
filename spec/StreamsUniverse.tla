-------------------------- MODULE StreamsUniverse --------------------------
EXTENDS Streams, TLC
CONSTANTS MaxLen, Nesting, Walkers   \* Walkers > 0: random programs instead of all
VARIABLES walker, prog, f
Contents == {<<>>, <<"n">>, <<"a">>, <<"a", "b", "n">>, <<"a", "_", "b", "n", "c">>, <<"n", "n", "a", "n">>, <<"_", "a", "n", "_", "n">>, <<"a", "n", "b", "_", "c", "n", "d", "n">>}
RandomContent(n) == [k \in 1..n |-> RandomElement({"a", "b", "c", "_", "n"})]
Init == prog = <<>> /\ IF Walkers = 0 THEN walker = 0 /\ \E c \in Contents : f = Stream(c)
                       ELSE walker \in 1..Walkers /\ f = Stream(TLCEval(RandomContent(walker % 20)))
Possible == {op \in StreamOps : Can(f, op) /\ (op = "guard" => Len(f.saved) < Nesting)}
Perform(op) == prog' = Append(prog, op) /\ f' = Do(f, op) /\ UNCHANGED walker
Next == /\ Len(prog) < MaxLen
        /\ IF Walkers = 0 THEN \E op \in Possible : Perform(op) ELSE Possible # {} /\ \E op \in {RandomElement(Possible)} : Perform(op)
(* looking ahead changes nothing; what a guarded use did is undone; what is      *)
(* peeked is what is read next                                                   *)
PeekReads == Can(f, "peekLine") => Do(f, "peekLine").out = Do(f, "readLine").out /\ Do(f, "peekLine").pos = f.pos
WordReads == Can(f, "peekWord") => Do(f, "peekWord").out = Do(f, "readWord").out
Restored == Len(prog) > 0 /\ prog[Len(prog)] = "release" => Good(f)
Positions == f.pos \in 0..Len(f.content) /\ (f.eof => f.pos = Len(f.content))
=============================================================================
