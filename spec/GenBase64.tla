------------------------------- MODULE GenBase64 -------------------------------
(* All short texts over a few significant, padding and ignored characters.       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
C == {65, 122, 47, 61, 10}
Texts == UNION {[1..n -> C] : n \in 0..5} \cup {a \o c : a \in [1..4 -> {81, 61}], c \in [1..4 -> {65, 61}]}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[t |-> x] : x \in Texts}))
================================================================================
