------------------------------- MODULE GenLists -------------------------------
(* Every short sequence of list operations, ending with an observation of all.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
A == {"push||0", "push|00|7", "push|6100|-1", "pushnull", "nolist", "len", "first", "last"}
K == {"push||", "push|61|", "push|61|62", "push|NULL|61", "push|61|NULL", "len", "json"}
S(X) == UNION {[1..n -> X] : n \in 0..4}
B == {"NULL", "", "00", "61", "6100", "6161", "616100", "ff", "6162", "6261"}
\* all pairs of byte arrays of up to three bytes of those that mean something elsewhere
Byte == {"00", "01", "61", "ff"}
B3 == {""} \cup Byte \cup {x \o y : x \in Byte, y \in Byte} \cup {x \o y \o z : x \in Byte, y \in Byte, z \in Byte}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[k |-> "list", s |-> x] : x \in S(A)}) \o SetToSeq({[k |-> "kv", s |-> x] : x \in S(K)})
   \o SetToSeq({[k |-> "arr", s |-> x] : x \in (B \X B) \cup (B3 \X B3)}))
================================================================================
