-------------------------------- MODULE MCPki --------------------------------
(* Certificates come into being one at a time: honest CAs certify names and keys, *)
(* and make other honest CAs; an adversary with a key of its own signs whatever   *)
(* it likes and may hold honest end-entity certificates. Whatever exists, only     *)
(* what honest CAs under the root certified is accepted - and all of that.         *)
EXTENDS Pki
CONSTANTS MaxCerts
VARIABLES certs, honest, revoked
vars == <<certs, honest, revoked>>
NameS == {"R", "I", "M"}
KeyS == {"r", "i", "m"}
Good == {"r", "i"}
Root == [sub |-> "R", iss |-> "R", key |-> "r", by |-> "r", ca |-> TRUE, val |-> TRUE]
W == [c \in certs |-> c]
Init == certs = {Root} /\ honest = {Root} /\ revoked = {}
HonestIssue == \E p \in honest, n \in NameS, k \in KeyS, ca \in BOOLEAN :
  /\ Cardinality(certs) < MaxCerts
  /\ p.ca /\ p.key \in Good
  /\ ca => k \in Good
  /\ n # "R" /\ n # p.sub
  /\ LET c == [sub |-> n, iss |-> p.sub, key |-> k, by |-> p.key, ca |-> ca, val |-> TRUE]
     IN c \notin certs /\ certs' = certs \cup {c} /\ honest' = honest \cup {c}
  /\ UNCHANGED revoked
AdvIssue == \E n, i \in NameS, k \in KeyS, ca \in BOOLEAN :
  LET c == [sub |-> n, iss |-> i, key |-> k, by |-> "m", ca |-> ca, val |-> TRUE]
  IN /\ Cardinality(certs) < MaxCerts
     /\ c \notin certs /\ certs' = certs \cup {c} /\ UNCHANGED <<honest, revoked>>
\* the issuer takes a certificate back and publishes that
Revoke == \E c \in honest \ {Root} : revoked' = revoked \cup {c} /\ UNCHANGED <<certs, honest>>
Next == HonestIssue \/ AdvIssue \/ Revoke
Spec == Init /\ [][Next]_vars
Crls == {[iss |-> p.sub, by |-> p.key, rev |-> {c \in revoked : c.iss = p.sub /\ c.by = p.key}] : p \in {c \in honest : c.ca}}
\* a certificate that honest CAs stand for, none of whom was taken back
RECURSIVE Down(_)
Down(S) == LET N == {c \in honest \ (S \cup revoked) : \E p \in S : p.ca /\ Issues(W, p, c)}
           IN IF N = {} THEN S ELSE Down(S \cup N)
Stands(c) == c \in Down({Root})
Sound == \A c \in certs : SignerSound(W, c, certs, {}, {Root}, Crls) => c \in honest /\ Stands(c)
Full == \A c \in honest : Stands(c) => SignerSound(W, c, certs, {}, {Root}, Crls)
\* must implies may
Consistent == \A c \in certs :
  /\ SignerMust(W, c, certs, {}, {Root}, Crls) => SignerSound(W, c, certs, {}, {Root}, Crls)
  /\ CertMust(W, c, certs, {Root}, FALSE) => CertSound(W, c, certs, {Root}, FALSE)
\* a pinned certificate without a store vouches only for itself and what it issued, through what is listed
PinOnly == \A c, p \in certs : CertSound(W, c, {p}, {}, TRUE) => c = p \/ Issues(W, p, c)
---------------------------------------------------------------------------
(* Verifiers that are wrong, and must be seen to be *)
NamesOnly == \A c \in certs : Root \in UpNames(W, {c}, certs) => c \in honest
AnyIssuer == \A c \in certs : Root \in Up(W, {c}, certs, FALSE, {}) => c \in honest
NoRevocation == \A c \in certs : SignerSound(W, c, certs, {}, {Root}, {}) => Stands(c)
AnyAnchor == \A c \in certs : Anchors(W, Up(W, {c}, certs, TRUE, {})) # {} => c \in honest
===============================================================================
