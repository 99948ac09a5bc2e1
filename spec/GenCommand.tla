------------------------------- MODULE GenCommand -------------------------------
(* Command lines: every sequence of two phrases, and every command with two phrases    *)
(* around it.                                                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
Phrases == {<<"-c", "C1">>, <<"-cC2">>, <<"-dc", "C2">>, <<"-i", "F1">>, <<"-iF2">>, <<"-i", "F3">>, <<"-o", "O1">>, <<"-oO2">>, <<"-o", "X/O">>, <<"-p", "P1">>, <<"-pP2">>, <<"-a", "A1">>, <<"-aA2">>,
            <<"-d">>, <<"-x">>, <<"-h">>, <<"-v">>, <<"-dv">>, <<"-dh">>, <<"-vx">>, <<"--">>, <<"-">>, <<"">>, <<"--help">>, <<"-c">>, <<"-o">>, <<"-p", "">>, <<"-i", "">>, <<"-o", "">>, <<"-a", "">>, <<"nothing">>, <<"-:">>, <<"-?">>}
Cmds == {<<x>> : x \in {"epvr", "preq", "vmasa", "sign", "serial", "registrar", "masa"}}
Base == [epvr |-> <<"-c", "C1">>, preq |-> <<"-c", "C1">>, vmasa |-> <<"-c", "C1">>, sign |-> <<"-c", "C2">>, serial |-> <<"-i", "F1">>, registrar |-> <<"-c", "C1">>, masa |-> <<"-c", "C2">>]
All == {<<>>} \cup Phrases \cup Cmds
Lines == {a \o b : a \in All, b \in All} \cup {a \o Base[c[1]] \o c \o b : a \in Phrases \cup {<<>>}, b \in Phrases \cup {<<>>}, c \in Cmds}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Lines))
================================================================================
