--------------------------------- MODULE Enrol ---------------------------------
(* Pledges that hold a verified voucher enrol: they make a key, send a certificate    *)
(* for it to a server they reach over TLS, and take the certificate that comes back.  *)
(* The registrar signs what it gets and writes the log; the attacker decides which     *)
(* server a pledge reaches, changes answers of its own servers, sends certificates of   *)
(* its own to the registrar and restarts it.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Lax, Pledges, MaxLog
VARIABLES pledge,  \* [pinned, phase, srv, key, out]: srv is the server it sent its certificate to
          wire,    \* what travelled over which server: [srv, what]
          log, up, \* audit log of the registrar, whether it runs
          issued   \* certificates the registrar signed: [key, for]
vars == <<pledge, wire, log, up, issued>>
Servers == {"RT", "RT2", "XT", "FT"}
\* whom a pinned domain certificate certifies
Certifies(pin, s) == (pin = "DR" /\ s \in {"RT", "RT2"}) \/ (pin = "XR" /\ s = "XT")
Trusts(pin, s) == "enrol.tls" \in Lax \/ Certifies(pin, s)
Nothing == [cert |-> "none", key |-> "none"]
Init == /\ pledge \in [Pledges -> {[pinned |-> d, phase |-> "pinned", srv |-> "none", key |-> "none", out |-> Nothing] : d \in {"DR", "XR", "none"}}]
        /\ wire = {} /\ log = <<>> /\ up = TRUE /\ issued = {}
Send == \E p \in Pledges, s \in Servers : LET x == pledge[p] IN
  /\ x.phase = "pinned" /\ ((x.pinned # "none" /\ Trusts(x.pinned, s)) \/ (x.pinned = "none" /\ "enrol.unverified" \in Lax))
  /\ pledge' = [pledge EXCEPT ![p].phase = "sent", ![p].srv = s, ![p].key = "k" \o p]
  /\ wire' = wire \cup {[srv |-> s, what |-> "cert:k" \o p]}
  /\ UNCHANGED <<log, up, issued>>
\* the registrar (the TLS servers RT and RT2) signs; the attacker may ask it as well
Sign == up /\ Len(log) < MaxLog /\ \E c \in {w.what : w \in {y \in wire : y.srv \in {"RT", "RT2"}}} \cup {"cert:attacker"} :
  /\ log' = Append(log, c) /\ issued' = issued \cup {c} /\ UNCHANGED <<pledge, wire, up>>
Restart == /\ up' = ~up /\ log' = (IF "log.truncate" \in Lax THEN <<>> ELSE log) /\ UNCHANGED <<pledge, wire, issued>>
\* what a pledge may get: from the registrar what it signed or an error, from others anything
Replies(p) == LET x == pledge[p] IN
  IF x.srv \in {"RT", "RT2"} THEN {"error"} \cup {c \in issued : c = "cert:" \o x.key}
  ELSE {"error", "junk", "cert:" \o x.key, "cert:attacker"}
Get == \E p \in Pledges : pledge[p].phase = "sent" /\ \E r \in Replies(p) :
  /\ pledge' = [pledge EXCEPT ![p].phase = IF r = "error" \/ (r = "junk" /\ "enrol.junk" \notin Lax) THEN "failed" ELSE "enrolled",
                              ![p].out = IF r = "error" \/ (r = "junk" /\ "enrol.junk" \notin Lax) THEN Nothing ELSE [cert |-> r, key |-> pledge[p].key],
                              ![p].key = IF r = "error" THEN "none" ELSE @]
  /\ UNCHANGED <<wire, log, up, issued>>
GiveUp == \E p \in Pledges : /\ pledge[p].phase \in {"pinned", "sent"}
  /\ pledge' = [pledge EXCEPT ![p].phase = "failed", ![p].key = "none"] /\ UNCHANGED <<wire, log, up, issued>>
Next == Send \/ Sign \/ Restart \/ Get \/ GiveUp
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
OnlyToVouched == \A p \in Pledges : pledge[p].srv # "none" => Certifies(pledge[p].pinned, pledge[p].srv)
SuccessIsCertificate == \A p \in Pledges : LET x == pledge[p] IN
  /\ x.phase = "enrolled" => x.out.cert # "junk" /\ x.out.cert # "none" /\ x.out.key = "k" \o p
  /\ x.phase # "enrolled" => x.out = Nothing
\* in the domain of the pinned certificate: enrolled by it
DomainIssued == \A p \in Pledges : pledge[p].phase = "enrolled" /\ pledge[p].pinned = "DR" => pledge[p].out.cert = "cert:k" \o p
KeysStay == \A w \in wire : w.what \notin {"k" \o p : p \in Pledges}
Logged == issued = {log[i] : i \in 1..Len(log)}
LogGrows == [][\E k \in 0..1 : Len(log') = Len(log) + k /\ SubSeq(log', 1, Len(log)) = log]_vars
NobodyEnrols == \A p \in Pledges : pledge[p].phase # "enrolled"
================================================================================
