-------------------------------- MODULE GenPki --------------------------------
(* A universe of certificates that holds every way a chain may look right and     *)
(* not be, and all small questions about it.                                       *)
EXTENDS Pki, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
C(s, i, k, b, ca) == [sub |-> s, iss |-> i, key |-> k, by |-> b, ca |-> ca, val |-> TRUE]
U == [R  |-> C("R", "R", "r", "r", TRUE),      \* root
      R2 |-> C("R", "R", "r2", "r2", TRUE),    \* impostor root, same name
      S  |-> C("S", "S", "s", "s", TRUE),      \* another root
      I  |-> C("I", "R", "i", "r", TRUE),      \* intermediate
      I2 |-> C("I", "R", "i2", "r2", TRUE),    \* its impostor
      IX |-> C("I", "S", "i", "s", TRUE),      \* the intermediate certified by the other root
      J  |-> C("J", "I", "j", "i", TRUE),      \* second level
      L  |-> C("L", "I", "l", "i", FALSE),     \* end entity
      L2 |-> C("L", "I", "l2", "i2", FALSE),   \* by the impostor
      LX |-> C("L", "I", "lx", "?", FALSE),    \* broken signature
      D  |-> C("D", "R", "d", "r", FALSE),     \* directly under the root
      DF |-> C("D", "R", "df", "s", FALSE),    \* claims the root, signed by the other
      K  |-> C("K", "J", "k", "j", FALSE),     \* deep end entity
      E  |-> C("E", "E", "e", "e", FALSE),     \* self-signed end entity
      N  |-> C("N", "D", "n", "d", FALSE)]     \* issued by an end entity
Dom == DOMAIN U
Sets(n) == UNION {kSubset(k, Dom) : k \in 0..n}
Case(t, c, s, ns) == [t |-> t, certs |-> SetToSeq(c), store |-> SetToSeq(s), nostore |-> ns,
                      may |-> CertSound(U, t, c, s, ns), must |-> CertMust(U, t, c, s, ns)]
Cases == {Case(t, c, {}, TRUE) : t \in Dom, c \in Sets(2)}
    \cup {Case(t, c, s, FALSE) : t \in Dom, c \in Sets(1), s \in Sets(2)}
    \cup {Case(t, c, s, FALSE) : t \in {"L", "L2", "K", "D", "N"}, c \in Sets(2), s \in Sets(1)}
ASSUME ndJsonSerialize(IOEnv.OUT, <<[w |-> U]>> \o SetToSeq(Cases))
===============================================================================
