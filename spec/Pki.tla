--------------------------------- MODULE Pki ---------------------------------
(* Certificates and who really issued them. A world w maps the name of each      *)
(* certificate to a record: sub and iss (subject and claimed issuer), key (the   *)
(* certified key), by (the key that signed it), ca (entitled to issue) and val   *)
(* (inside its validity). A certificate is issued by another when the names fit  *)
(* AND the signature was made with the other's key; names alone mean nothing.    *)
EXTENDS Naturals, FiniteSets

Named(w, p, c) == w[p].sub = w[c].iss
Issues(w, p, c) == Named(w, p, c) /\ w[p].key = w[c].by
Own(w, c) == Issues(w, c, c)

\* A revocation list: [iss, by, rev]. It speaks for the issuer whose name and key it has.
Revoked(w, p, c, crls) == \E r \in crls : r.iss = w[p].sub /\ r.by = w[p].key /\ c \in r.rev

\* Everything that a chain of issuer signatures, starting at a member of S, goes through
RECURSIVE Up(_, _, _, _, _)
Up(w, S, pool, strict, crls) ==
  LET N == {p \in pool \ S : \E c \in S : /\ Issues(w, p, c)
                                          /\ ~Revoked(w, p, c, crls)
                                          /\ (strict => w[p].ca /\ w[p].val)}
  IN IF N = {} THEN S ELSE Up(w, S \cup N, pool, strict, crls)

\* the same by names only: whatever a verifier may come to look at
RECURSIVE UpNames(_, _, _)
UpNames(w, S, pool) ==
  LET N == {p \in pool \ S : \E c \in S : Named(w, p, c)}
  IN IF N = {} THEN S ELSE UpNames(w, S \cup N, pool)

\* There is never a choice between certificates to continue with, nor a misleading one:
\* a verifier that follows names finds the real chain. (With several candidates a verifier
\* may pick the wrong one and refuse: only what it accepts is then judged.)
Plain(w, t, pool) ==
  \A y \in UpNames(w, {t}, pool) :
    IF w[y].sub = w[y].iss
    THEN w[y].by = w[y].key /\ {p \in pool \cup {t} : w[p].sub = w[y].sub} \subseteq {y}
    ELSE LET C == {p \in pool : Named(w, p, y)}
         IN Cardinality(C) <= 1 /\ \A p \in C : Issues(w, p, y) /\ w[p].ca /\ w[p].val

---------------------------------------------------------------------------
(* Certificate verification (crypto_verify_cert).                            *)
\* (that an anchor really signed itself adds nothing: the store vouches for it)
Anchors(w, store) == {a \in store : w[a].sub = w[a].iss}
\* a verifier that has gone over to the store stays with it
Closed(w, S, store) == \A p \in S \cap store : \E q \in store : Issues(w, q, p)
CertSound(w, t, certs, store, nostore) ==
  IF nostore THEN Up(w, {t}, certs, FALSE, {}) \cap certs # {}
  ELSE Up(w, {t}, certs \cup store, FALSE, {}) \cap Anchors(w, store) # {}
CertMust(w, t, certs, store, nostore) ==
  /\ CertSound(w, t, certs, store, nostore)
  /\ Plain(w, t, IF nostore THEN certs ELSE certs \cup store)
  /\ ~nostore => Closed(w, Up(w, {t}, certs \cup store, FALSE, {}), store)
  /\ w[t].val

(* Verification of a signed message (crypto_verify_cms): signers, the certificates *)
(* in the message, an additional list, and a store of certificates and CRLs.        *)
SignerSound(w, s, emb, certs, store, crls) ==
  /\ w[s].val
  /\ Up(w, {s}, emb \cup certs \cup store, TRUE, crls) \cap Anchors(w, store) # {}
SignerMust(w, s, emb, certs, store, crls) ==
  LET pool == emb \cup certs \cup store
      seen == UpNames(w, {s}, pool)
  IN /\ s \in emb \cup certs
     /\ w[s].val
     /\ Up(w, {s}, emb \cup store, TRUE, crls) \cap Anchors(w, store) # {}
     /\ Plain(w, s, pool)
     /\ Closed(w, Up(w, {s}, emb \cup store, TRUE, crls), store)
     /\ \A r \in crls, y \in seen : w[y].iss = r.iss => (r.by = w[y].by /\ y \notin r.rev)
CmsSound(w, signers, emb, certs, store, nostore, crls) ==
  /\ signers # {}
  /\ ~nostore => \A s \in signers : SignerSound(w, s, emb, certs, store, crls)
CmsMust(w, signers, emb, certs, store, nostore, crls) ==
  /\ signers # {}
  /\ IF nostore THEN signers \subseteq emb \cup certs
     ELSE \A s \in signers : SignerMust(w, s, emb, certs, store, crls)
==============================================================================
