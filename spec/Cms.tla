--------------------------------- MODULE Cms ---------------------------------
(* Signed messages. A message has a body, signer infos (each naming its signer,   *)
(* the body it was made over and whether it is intact) and certificates. What a    *)
(* verifier may return is what was really signed.                                   *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE signed   \* all <<body, signer>> ever signed

Msg(body, sis, certs) == [body |-> body, sis |-> sis, certs |-> certs]
SI(who, over, ok) == [who |-> who, over |-> over, ok |-> ok]
Signers(m) == {s.who : s \in m.sis}
\* every signer info has to hold, for this very body, with a certificate at hand
Valid(m, more) == /\ m.sis # {}
                  /\ \A s \in m.sis : s.ok /\ s.over = m.body /\ s.who \in m.certs \cup more
\* what a verification that succeeds may hand out
Genuine(body, who) == who # {} /\ \A s \in who : <<body, s>> \in signed

Init == signed = {}
Sign(body, who) == signed' = signed \cup {<<body, s>> : s \in who}
===============================================================================
