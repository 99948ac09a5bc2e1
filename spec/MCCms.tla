-------------------------------- MODULE MCCms --------------------------------
(* Honest parties sign bodies; a network attacker takes messages apart, damages    *)
(* them, mixes the parts and adds signatures of its own.                            *)
EXTENDS Cms
CONSTANTS Bodies, Honest, Attacker, Max
VARIABLES net, bits, seen
vars == <<signed, net, bits, seen>>
All == Honest \cup {Attacker}
MInit == Init /\ net = {} /\ bits = {} /\ seen = {}
Honestly == \E b \in Bodies, w \in SUBSET Honest : w # {} /\ <<b, w>> \notin seen /\ Cardinality(seen) < Max
  /\ Sign(b, w) /\ seen' = seen \cup {<<b, w>>}
  /\ net' = net \cup {Msg(b, {SI(s, b, TRUE) : s \in w}, w)}
  /\ bits' = bits \cup {SI(s, b, TRUE) : s \in w}
Attack == \E b \in Bodies : /\ Sign(b, {Attacker}) /\ <<b, Attacker>> \notin signed
  /\ bits' = bits \cup {SI(Attacker, b, TRUE)} /\ UNCHANGED <<net, seen>>
Damage == \E s \in bits : s.ok /\ bits' = bits \cup {[s EXCEPT !.ok = FALSE]} /\ UNCHANGED <<signed, net, seen>>
Splice == \E b \in Bodies, s \in SUBSET bits, c \in SUBSET All :
  /\ Cardinality(s) <= 2 /\ Msg(b, s, c) \notin net
  /\ net' = {Msg(b, s, c)}
  /\ UNCHANGED <<signed, bits, seen>>
Next == Honestly \/ Attack \/ Damage \/ Splice
Spec == MInit /\ [][Next]_vars
Safe == \A m \in net : Valid(m, {}) => Genuine(m.body, Signers(m))
\* a receiver that trusts the honest only
Trusted == \A m \in net : Valid(m, {}) /\ Signers(m) \subseteq Honest => \A s \in Signers(m) : <<m.body, s>> \in signed
\* what was signed passes
Live == \A m \in net : <<m.body, Signers(m)>> \in seen /\ m.certs = Signers(m) /\ m.sis = {SI(s, m.body, TRUE) : s \in Signers(m)} => Valid(m, {})
\* verifiers that are wrong
OneIsEnough == \A m \in net : (\E s \in m.sis : s.ok /\ s.over = m.body) => Genuine(m.body, Signers(m))
Unbound == \A m \in net : (m.sis # {} /\ \A s \in m.sis : s.ok) => Genuine(m.body, Signers(m))
NoSigner == \A m \in net : (\A s \in m.sis : s.ok /\ s.over = m.body) => Genuine(m.body, Signers(m))
===============================================================================
