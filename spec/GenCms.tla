-------------------------------- MODULE GenCms --------------------------------
(* Signed messages over the universe of GenPki: who signed, what is embedded, and  *)
(* the store it is verified against.                                                *)
EXTENDS Pki, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
C(s, i, k, b, ca, v) == [sub |-> s, iss |-> i, key |-> k, by |-> b, ca |-> ca, val |-> v]
U == [R  |-> C("R", "R", "r", "r", TRUE, TRUE),
      R2 |-> C("R", "R", "r2", "r2", TRUE, TRUE),
      S  |-> C("S", "S", "s", "s", TRUE, TRUE),
      I  |-> C("I", "R", "i", "r", TRUE, TRUE),
      I2 |-> C("I", "R", "i2", "r2", TRUE, TRUE),
      IO |-> C("I", "R", "i", "r", TRUE, FALSE),   \* expired intermediate
      L  |-> C("L", "I", "l", "i", FALSE, TRUE),
      L2 |-> C("L", "I", "l2", "i2", FALSE, TRUE),
      LO |-> C("L", "I", "lo", "i", FALSE, FALSE), \* expired
      D  |-> C("D", "R", "d", "r", FALSE, TRUE),
      DF |-> C("D", "R", "df", "s", FALSE, TRUE),
      E  |-> C("E", "E", "e", "e", FALSE, TRUE),
      N  |-> C("N", "D", "n", "d", FALSE, TRUE)]
Dom == DOMAIN U
Sets(n) == UNION {kSubset(k, Dom) : k \in 0..n}
Case(t, m, c, s) == [t |-> t, emb |-> SetToSeq(m), certs |-> SetToSeq(c), store |-> SetToSeq(s),
                     may |-> SignerSound(U, t, m \cup {t}, c, s, {}), must |-> SignerMust(U, t, m \cup {t}, c, s, {})]
Cases == {Case(t, m, {}, s) : t \in Dom, m \in Sets(1), s \in Sets(2)}
    \cup {Case(t, m, c, s) : t \in {"L", "L2", "N", "D"}, m \in Sets(1), c \in Sets(1), s \in Sets(1)}
ASSUME ndJsonSerialize(IOEnv.OUT, <<[w |-> U]>> \o SetToSeq(Cases))
===============================================================================
