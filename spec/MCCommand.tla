------------------------------- MODULE MCCommand -------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Lax, N
VARIABLES args, p
C == INSTANCE Command
Words == {<<"-", "c">>, <<"-", "i">>, <<"-", "i", "F">>, <<"-", "d">>, <<"-", "d", "i">>, <<"-", "i", "d">>, <<"-", "d", "v">>, <<"-", "h">>, <<"-", "x">>, <<"-", "-">>, <<"-", "-", "i">>, <<"-">>, <<>>,
          <<"F">>, <<"G">>, <<"s", "e", "r", "i", "a", "l">>, <<"m", "a", "s", "a">>}
Init == args \in UNION {[1..n -> Words] : n \in 0..N} /\ C!Init0
Spec == Init /\ [][C!Next]_<<args, p>> /\ WF_<<args, p>>(C!Next)
LastWins == C!LastWins
OrderFree == C!OrderFree
Spelling == C!Spelling
Ends == C!Ends
NobodyRuns == C!NobodyRuns
NobodyErrs == C!NobodyErrs
================================================================================
