-------------------------------- MODULE Command --------------------------------
(* The command line of the program: how its words are read, one after the other, and  *)
(* what a command may then do. Words are sequences of characters.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Lax
Takes == {"c", "i", "o", "p", "a"}
Commands == {<<"e", "p", "v", "r">>, <<"p", "r", "e", "q">>, <<"v", "m", "a", "s", "a">>, <<"s", "i", "g", "n">>, <<"s", "e", "r", "i", "a", "l">>,
             <<"r", "e", "g", "i", "s", "t", "r", "a", "r">>, <<"m", "a", "s", "a">>}
Dashes == <<"-", "-">>
\* reading: at: the next word; off: where in it (0: not within); sets: options with their
\* values so far; val: what they are worth; lit: only operands follow
Begin == [at |-> 1, off |-> 0, sets |-> <<>>, val |-> [x \in Takes |-> <<>>], d |-> FALSE, ops |-> <<>>, lit |-> FALSE, end |-> ""]
OptionLike(t) == Len(t) > 1 /\ t[1] = "-"
Set(p, x, v) == [p EXCEPT !.sets = Append(@, <<x, v>>), !.val[x] = IF "first" \in Lax /\ @ # <<>> THEN @ ELSE v]
Within(args, p) ==
  LET t == args[p.at]  ch == t[p.off]  rest == SubSeq(t, p.off + 1, Len(t))
      next == IF rest = <<>> THEN [p EXCEPT !.at = @ + 1, !.off = 0] ELSE [p EXCEPT !.off = @ + 1] IN
  IF ch = "h" THEN [p EXCEPT !.end = "help"]
  ELSE IF ch = "v" THEN [p EXCEPT !.end = "version"]
  ELSE IF ch = "d" THEN [next EXCEPT !.d = TRUE]
  ELSE IF ch \notin Takes THEN [p EXCEPT !.end = "usage"]
  ELSE IF rest # <<>> THEN Set([p EXCEPT !.at = @ + 1, !.off = 0], ch, rest)
  ELSE IF p.at = Len(args) THEN [p EXCEPT !.end = "usage"]
  ELSE Set([p EXCEPT !.at = @ + 2, !.off = 0], ch, args[p.at + 1])
Word(args, p) ==
  LET t == args[p.at] IN
  IF p.lit \/ ~OptionLike(t) THEN [p EXCEPT !.ops = Append(@, t), !.at = @ + 1, !.lit = @ \/ "posix" \in Lax]
  ELSE IF t = Dashes THEN [p EXCEPT !.lit = TRUE, !.at = @ + 1]
  ELSE [p EXCEPT !.off = 2]
\* options are over: the first operand is the command
Over(args, p) == [p EXCEPT !.end = IF p.ops = <<>> THEN IF args = <<>> THEN "help" ELSE "usage"
                                   ELSE IF p.ops[1] \in Commands THEN "run" ELSE "usage"]
Step(args, p) == IF p.off > 0 THEN Within(args, p) ELSE IF p.at > Len(args) THEN Over(args, p) ELSE Word(args, p)
RECURSIVE Final(_, _)
Final(args, p) == IF p.end # "" THEN p ELSE Final(args, Step(args, p))
Read(args) == Final(args, Begin)
\* what a run is told: [cmd, val, d]
Told(p) == IF p.end = "run" THEN <<p.ops[1], p.val, p.d>> ELSE <<p.end>>
Given(p, x) == p.val[x] # <<>>
--------------------------------------------------------------------------------
VARIABLES args, p
Init0 == p = Begin
Next == p.end = "" /\ p' = Step(args, p) /\ UNCHANGED args
\* of an option given twice the last counts
LastWins == \A x \in Takes : LET at == {i \in 1..Len(p.sets) : p.sets[i][1] = x} IN
  p.val[x] = IF at = {} THEN <<>> ELSE p.sets[CHOOSE i \in at : \A j \in at : j <= i][2]
\* options may stand before the command or after it
OrderFree == LET q == Read(args) IN p = Begin /\ q.ops = <<>> /\ q.end = "usage" /\ q.at > Len(args) /\ ~q.lit =>
  \A c \in Commands : Told(Read(<<c>> \o args)) = Told(Read(Append(args, c)))
\* and be written together with their values, or not, and one by one
Flat(q) == LET RECURSIVE F(_)
               F(i) == IF i > Len(q.sets) THEN <<>> ELSE <<<<"-", q.sets[i][1]>>, q.sets[i][2]>> \o F(i + 1)
           IN F(1) \o (IF q.d THEN <<<<"-", "d">>>> ELSE <<>>) \o <<Dashes>> \o q.ops
Spelling == p.end = "run" => Told(Read(Flat(p))) = Told(p)
Ends == <>(p.end # "")
NobodyRuns == p.end # "run"
NobodyErrs == p.end # "usage"
================================================================================
