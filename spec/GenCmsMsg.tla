------------------------------- MODULE GenCmsMsg -------------------------------
(* Every message an attacker can put together from the parts of honest ones.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
C == INSTANCE Cms WITH signed <- {}
Bits == [who : {"h", "g", "a"}, over : {"b1", "b2"}, ok : BOOLEAN]
Sis == UNION {kSubset(k, Bits) : k \in 0..2}
Cases == {[body |-> b, sis |-> SetToSeq(s), certs |-> SetToSeq(c), more |-> SetToSeq(m),
           valid |-> C!Valid(C!Msg(b, s, c), m)] :
            b \in {"b1", "b2"}, s \in Sis, c \in SUBSET {"h", "g", "a"}, m \in {{}, {"h"}, {"h", "a"}}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===============================================================================
