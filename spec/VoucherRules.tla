----------------------------- MODULE VoucherRules -----------------------------
(* What the parties of BRSKI ask of a message before they act on it, and what they *)
(* then say. A message m is a record: body (its attributes, Unset where absent),    *)
(* voucher (whether its content reads as a voucher at all), intact (its signatures  *)
(* are unharmed), signers and emb (sets of certificates: who signed, what it         *)
(* carries). A trust t is what a party is configured with: certs, store, nostore     *)
(* (no store given), crls. w is the world of certificates (module Pki).              *)
(* Lax is the set of rules left out, for models of wrong implementations.            *)
EXTENDS Pki, Sequences
CONSTANT Lax
Unset == "unset"
Attrs == {"created", "expires", "assertion", "serial", "issuer", "pinned", "revchk", "nonce", "renewal", "prior", "proximity"}
\* the revocation-checks flag has no unset state
Blank == [a \in Attrs |-> IF a = "revchk" THEN "false" ELSE Unset]
On(rule, cond) == rule \in Lax \/ cond

\* (certificates that w does not know lead nowhere; w lists everything configured)
MayTrust(w, m, t) == On("cms", m.intact /\ (m.signers \subseteq DOMAIN w \/ t.nostore)
                              /\ CmsSound(w, m.signers, m.emb \cap DOMAIN w, t.certs, t.store, t.nostore, t.crls))
MustTrust(w, m, t) == m.intact /\ m.signers \cup m.emb \subseteq DOMAIN w
                      /\ CmsMust(w, m.signers, m.emb, t.certs, t.store, t.nostore, t.crls)

---- (* 1. The pledge asks *)
PvrBody(created, serial, nonce, tls) ==
  [Blank EXCEPT !.created = created, !.serial = serial, !.nonce = nonce,
                !.assertion = "proximity", !.proximity = tls]
---- (* 2. The registrar endorses *)
RegWants(b, serial, tls) == /\ On("reg.serial", b.serial # Unset /\ b.serial = serial)
                            /\ On("reg.proximity", b.proximity # Unset /\ b.proximity = tls)
                            /\ On("reg.assertion", b.assertion = "proximity")
RegMay(w, m, serial, tls, t) == m.voucher /\ MayTrust(w, m, t) /\ RegWants(m.body, serial, tls)
RegMust(w, m, serial, tls, t) == m.voucher /\ MustTrust(w, m, t) /\ RegWants(m.body, serial, tls)
RvrBody(b, created, serial, issuer, prior) ==
  [Blank EXCEPT !.created = created, !.serial = serial, !.nonce = b.nonce, !.issuer = issuer, !.prior = prior]
---- (* 3. The MASA vouches; in is the message that prior stands for *)
MasaOuter(b) == b.serial # Unset /\ b.prior # Unset
MasaInner(b, in) == On("masa.serial", in.serial # Unset /\ in.serial = b.serial)
\* may the approval be asked for at all
AskMay(w, m, in, rt, pt) == /\ m.voucher /\ MayTrust(w, m, rt) /\ MasaOuter(m.body)
                            /\ in.voucher /\ On("masa.prior", MayTrust(w, in, pt)) /\ MasaInner(m.body, in.body)
AskMust(w, m, in, rt, pt) == /\ m.voucher /\ MustTrust(w, m, rt) /\ MasaOuter(m.body)
                             /\ in.voucher /\ MustTrust(w, in, pt) /\ MasaInner(m.body, in.body)
VoucherBody(b, pinned, expires) ==
  [Blank EXCEPT !.serial = b.serial, !.nonce = b.nonce, !.assertion = "proximity", !.pinned = pinned,
                !.expires = expires]
---- (* 4. The pledge pins *)
PledgeWants(b, serial, nonce) == /\ On("pledge.serial", b.serial # Unset /\ b.serial = serial)
                                 /\ On("pledge.nonce", nonce # Unset => b.nonce = nonce)
                                 /\ b.pinned # Unset
\* dom: [given, store], the domain store
PinMay(w, tls, pinned, dom) ==
  On("pledge.domain", /\ {tls, pinned} \subseteq DOMAIN w
                      /\ CertSound(w, tls, {pinned}, {}, TRUE)
                      /\ dom.given => CertSound(w, tls, {pinned}, dom.store, FALSE))
PinMust(w, tls, pinned, dom) == /\ {tls, pinned} \subseteq DOMAIN w
                                /\ CertMust(w, tls, {pinned}, {}, TRUE)
                                /\ dom.given => CertMust(w, tls, {pinned}, dom.store, FALSE)
PledgeMay(w, m, serial, nonce, tls, dom, t) ==
  m.voucher /\ MayTrust(w, m, t) /\ PledgeWants(m.body, serial, nonce) /\ PinMay(w, tls, m.body.pinned, dom)
PledgeMust(w, m, serial, nonce, tls, dom, t) ==
  m.voucher /\ MustTrust(w, m, t) /\ PledgeWants(m.body, serial, nonce) /\ PinMust(w, tls, m.body.pinned, dom)
===============================================================================
