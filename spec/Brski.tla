-------------------------------- MODULE Brski --------------------------------
(* Pledges, a registrar and a MASA that follow VoucherRules, on a network that an *)
(* attacker owns. The attacker sees and keeps every message, delivers whatever it  *)
(* likes to whomever it likes, runs servers of its own, owns a pledge and a         *)
(* registrar of the same makes with good certificates, and signs with their keys    *)
(* whatever it knows. net holds what the honest parties sent; what the attacker can *)
(* make of it (Forged) needs no steps of its own.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Lax,         \* rules left out (for models that must fail)
          Pledges,     \* the honest pledges (their names are their serial-numbers)
          Nonced,      \* those that send a nonce
          Attacks,     \* TRUE: there is an attacker
          MaxNet, MaxTries
VARIABLES net,      \* what the honest parties sent: messages of VoucherRules, with an id
          pledge,   \* each pledge: [phase, tls, nonce, tries, pinned]
          endorsed, \* pairs <<request, registrar request>> the registrar stood up for
          issued    \* pairs <<registrar request, voucher>> the MASA vouched for
vars == <<net, pledge, endorsed, issued>>
Rules == INSTANCE VoucherRules
Unset == Rules!Unset

C(s, i, k, b, ca) == [sub |-> s, iss |-> i, key |-> k, by |-> b, ca |-> ca, val |-> TRUE]
World ==
  [MR |-> C("mk", "mk", "mr", "mr", TRUE),  MP |-> C("mkp", "mk", "mp", "mr", TRUE),     \* manufacturer: root and pledge CA
   MS |-> C("masa", "vk", "ms", "vr", FALSE),                                             \* its MASA,
   VR |-> C("vk", "vk", "vr", "vr", TRUE),                                                \* under a root of its own: see SharedRoot
   P  |-> C("p", "mkp", "p", "mp", FALSE),  Q  |-> C("q", "mkp", "q", "mp", FALSE),       \* pledges; q belongs to the attacker
   DR |-> C("dom", "dom", "dr", "dr", TRUE), RT |-> C("tls", "dom", "rt", "dr", FALSE),    \* the domain and its registrar:
   RS |-> C("reg", "dom", "rs", "dr", FALSE),                                             \* TLS and signing certificates
   XR |-> C("xdom", "xdom", "xr", "xr", TRUE), XT |-> C("xtls", "xdom", "xt", "xr", FALSE),
   XS |-> C("xreg", "xdom", "xs", "xr", FALSE),                                           \* the attacker's own domain, known to the MASA
   FT |-> C("tls", "dom", "ft", "xt", FALSE),                                              \* forged: claims the domain
   FS |-> C("masa", "vk", "fs", "xt", FALSE)]                                              \* forged: claims the manufacturer
Trust(S) == [certs |-> {}, store |-> S, nostore |-> FALSE, crls |-> {}]
IdOf == [P |-> "P", Q |-> "Q"]
ForPledges == Trust({"MR"})         \* what registrar and MASA believe about pledges
ForRegistrars == Trust({"DR", "XR"}) \* what the MASA believes about registrars
\* What pledges believe about vouchers. Nothing in a certificate tells a MASA from a pledge:
\* if vouchers were accepted under the root of the pledges' own certificates, the owner of
\* one pledge could sign vouchers for all others ("sharedroot" in Lax shows it).
ForMasa == Trust(IF "sharedroot" \in Lax THEN {"VR", "MR"} ELSE {"VR"})
NoDom == [given |-> FALSE, store |-> {}]
\* whom a signed request is approved for: the domain of its signer
PinFor(m) == IF m.signers = {"RS"} THEN "DR" ELSE "XR"

\* requests are told apart (as prior-signed requests) by what is in them
Id(b, by) == IF b.proximity = Unset THEN "" ELSE b.serial \o "/" \o b.nonce \o "/" \o b.proximity \o "/" \o b.assertion \o "/" \o by
SignedOn(body, by, in) == [in |-> in, id |-> Id(body, by), body |-> body, voucher |-> TRUE, intact |-> TRUE, signers |-> {by},
                     emb |-> {by} \cup (IF by \in {"P", "Q"} THEN {"MP"} ELSE {})]
Signed(body, by) == SignedOn(body, by, {})
Garbage == [in |-> {}, id |-> "", body |-> Rules!Blank, voucher |-> FALSE, intact |-> FALSE, signers |-> {}, emb |-> {}]
Room == Cardinality(net) < MaxNet

\* what the attacker can sign: with a pledge's key, a registrar's, forged ones
Nonces == {Unset} \cup {m.body.nonce : m \in net}
Serials == Pledges \cup {"Q"}
ForgedPvrs == {Signed([Rules!PvrBody("t", s, n, tls) EXCEPT !.assertion = a], by) :
                 s \in Serials, n \in Nonces, tls \in {"RT", "XT"}, a \in {"proximity", "logged"}, by \in {"Q", "FS"}}
Pvrs == ForgedPvrs \cup {m \in net : m.body.proximity # Unset}
ForgedRvrs == {SignedOn(Rules!RvrBody([Rules!Blank EXCEPT !.nonce = n], "t", s, "mkp", m.id), by, {m}) :
                 s \in Serials, n \in Nonces, m \in Pvrs, by \in {"XS", "Q"}}
ForgedVouchers == {Signed(Rules!VoucherBody([Rules!Blank EXCEPT !.nonce = n, !.serial = s], pin, "later"), by) :
                 s \in Serials, n \in Nonces, pin \in {"DR", "XR"}, by \in {"Q", "XS", "FS"}}
\* and what it can make of the messages of others, whose signature then no longer fits
Tampered == {[m EXCEPT !.body.pinned = "XR", !.intact = FALSE, !.id = ""] : m \in net}
       \cup {[m EXCEPT !.body.serial = s, !.intact = FALSE, !.id = ""] : m \in net, s \in Pledges}
       \cup {[m EXCEPT !.body.proximity = "RT", !.intact = FALSE, !.id = ""] : m \in net}
Seen(F) == net \cup (IF Attacks THEN F \cup Tampered ELSE {})
\* the request inside a registrar's request (in is a set of at most one message)
In(m) == IF m.in = {} THEN Garbage ELSE CHOOSE x \in m.in : TRUE

Init == /\ net = {} /\ endorsed = {} /\ issued = {}
        /\ pledge = [p \in Pledges |-> [phase |-> "off", tls |-> Unset, nonce |-> Unset, tries |-> 0, pinned |-> Unset]]

\* the pledge finds a server, notes its certificate and asks
Ask == \E p \in Pledges, tls \in (IF Attacks THEN {"RT", "XT", "FT"} ELSE {"RT"}) :
  /\ pledge[p].phase # "done" /\ pledge[p].tries < MaxTries
  /\ LET n == IF p \in Nonced THEN "n" \o p \o ToString(pledge[p].tries) ELSE Unset IN
     /\ pledge' = [pledge EXCEPT ![p] = [phase |-> "asked", tls |-> tls, nonce |-> n, tries |-> @.tries + 1, pinned |-> Unset]]
     /\ net' = net \cup {Signed(Rules!PvrBody("t", p, n, tls), p)}
  /\ UNCHANGED <<endorsed, issued>>
\* the registrar gets some message from a client with some pledge's identity
Endorse == Room /\ \E m \in Seen(ForgedPvrs), peer \in Serials :
  LET r == SignedOn(Rules!RvrBody(m.body, "t", peer, "mkp", m.id), "RS", {m})
  IN /\ Rules!RegMay(World, m, peer, "RT", ForPledges)
     /\ <<m, r>> \notin endorsed
     /\ endorsed' = endorsed \cup {<<m, r>>}
     /\ net' = net \cup {r} /\ UNCHANGED <<pledge, issued>>
\* the MASA gets some message
Vouch == Room /\ \E m \in Seen(ForgedRvrs) :
  LET v == Signed(Rules!VoucherBody(m.body, PinFor(m), "later"), "MS")
  IN /\ Rules!AskMay(World, m, In(m), ForRegistrars, ForPledges)
     /\ <<m, v>> \notin issued
     /\ issued' = issued \cup {<<m, v>>}
     /\ net' = net \cup {v} /\ UNCHANGED <<pledge, endorsed>>
\* the pledge gets some message for a voucher
Pin == \E p \in Pledges : pledge[p].phase = "asked" /\ \E m \in Seen(ForgedVouchers) :
  /\ Rules!PledgeMay(World, m, p, pledge[p].nonce, pledge[p].tls, NoDom, ForMasa)
  /\ pledge' = [pledge EXCEPT ![p].phase = "done", ![p].pinned = m.body.pinned]
  /\ UNCHANGED <<net, endorsed, issued>>
Next == Ask \/ Endorse \/ Vouch \/ Pin
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ WF_vars(Endorse) /\ WF_vars(Vouch) /\ WF_vars(Pin)
---------------------------------------------------------------------------
PinsOnlyVouched == \A p \in Pledges : pledge[p].phase = "done" =>
  /\ \E x \in issued : LET v == x[2].body IN
       v.serial = p /\ v.pinned = pledge[p].pinned /\ (p \in Nonced => v.nonce = pledge[p].nonce)
  /\ Rules!CertSound(World, pledge[p].tls, {pledge[p].pinned}, {}, TRUE)
\* the request behind a registrar's endorsement is a trusted pledge's own, for this registrar
EndorsesOnlyOwn == \A x \in endorsed : LET m == x[1] IN
  /\ m.intact /\ m.signers \subseteq Pledges \cup {"Q"} /\ m.body.proximity = "RT" /\ m.body.assertion = "proximity"
  /\ x[2].body.serial = m.body.serial /\ x[2].body.prior = m.id /\ x[2].body.nonce = m.body.nonce
VouchesOnlyEndorsed == \A x \in issued : LET m == x[1]  in == In(m) IN
  /\ m.intact /\ m.signers \subseteq {"RS", "XS"}
  /\ in.intact /\ in.signers \subseteq Pledges \cup {"Q"} /\ in.body.serial = m.body.serial
  /\ x[2].body.serial = m.body.serial /\ x[2].body.nonce = m.body.nonce /\ x[2].body.pinned = PinFor(m)
\* a pledge that talks to the domain's registrar ends up in that domain or nowhere
\* (the forged server certificate leads nowhere)
DomainOrNowhere == \A p \in Pledges : pledge[p].phase = "done" =>
  CASE pledge[p].tls = "RT" -> pledge[p].pinned = "DR" [] pledge[p].tls = "XT" -> pledge[p].pinned = "XR" [] OTHER -> FALSE
\* all that a run is about, as reachability (each must be violated)
NobodyPins == \A p \in Pledges : pledge[p].phase # "done"
NobodyPinsAttacker == \A p \in Pledges : pledge[p].pinned # "XR"
\* without an attacker everybody gets in
Bootstraps == \A p \in Pledges : <>(pledge[p].phase = "done")
===============================================================================
