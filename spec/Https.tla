--------------------------------- MODULE Https ---------------------------------
(* The connections between the parties: TLS with certificates on both sides, and     *)
(* HTTP requests on them that are handed to the function of their route. Many         *)
(* connections are open at once. A server has [cert, ca, routes]: ca says whom it      *)
(* lets in, [given, set]; without it everybody who shows a certificate. A client       *)
(* shows k, [cert, chain] ("none": it has none), and asks for trust, [given, set]:     *)
(* without it whatever server is fine. w is the world of certificates (module Pki).    *)
EXTENDS Pki, Sequences, TLC
CONSTANT Lax
On(rule, cond) == rule \in Lax \/ cond
NoCert == "none"
---- (* who talks to whom *)
Leads(w, c, chain, set, must) == IF must THEN c \notin set /\ SignerMust(w, c, chain \cup {c}, {}, set, {})
                                 ELSE SignerSound(w, c, chain, {}, set, {})
Admits(w, s, k, must) == /\ k.cert # NoCert
                         /\ s.ca.given => On("admit", Leads(w, k.cert, k.chain, s.ca.set, must))
Trusts(w, trust, cert, chain, must) == trust.given => On("trust", Leads(w, cert, chain, trust.set, must))
\* a client may also trust a pinned certificate as it is; expected is only that one that
\* signed itself is
TrustMay(w, t, cert, chain) == ~t.given \/ Trusts(w, t, cert, chain, FALSE)
                               \/ (w[cert].val /\ Up(w, {cert}, chain \cup t.set, TRUE, {}) \cap t.set # {})
TrustMust(w, t, cert, chain) == Trusts(w, t, cert, chain, TRUE)

---- (* what a request leads to: a call of the function of its route, or none *)
\* h is what the function does: [status, text, ct, exc], exc: it failed with that text
Routed(routes, r) == <<r.method, r.path>> \in routes \/ (r.method = "HEAD" /\ <<"GET", r.path>> \in routes)
RouterError == "Router error"
PLAIN == "text/plain"
\* errors are plain text, and say something
AnswerOf(routes, r, h) ==
  LET a == IF ~Routed(routes, r) THEN [status |-> 404, text |-> RouterError, ct |-> PLAIN]
           ELSE IF h.exc # "" THEN [status |-> 505, text |-> h.exc, ct |-> PLAIN]
           ELSE IF h.status >= 400 THEN [status |-> h.status, text |-> IF h.text = "" THEN RouterError ELSE h.text, ct |-> PLAIN]
           ELSE [status |-> h.status, text |-> h.text, ct |-> h.ct]
  IN IF r.method = "HEAD" THEN [a EXCEPT !.text = ""] ELSE a

---- (* the connections of a world *)
CONSTANTS World, Servers, Clients, Conns, Reqs
\* Servers: id -> server; Clients: id -> [k, trust]; Reqs: id -> [method, path, body]
VARIABLES conn,    \* each connection: [phase, server, client, req, answer]
          calls,   \* per connection, what a function was called with last: [req, body, peer], or nothing
          last     \* the client that connected last, whoever it is
vars == <<conn, calls, last>>
Off == [phase |-> "off", server |-> "", client |-> "", req |-> "", answer |-> <<>>]
Init == conn = [c \in Conns |-> Off] /\ calls = [c \in Conns |-> <<>>] /\ last = NoCert
Open(c, s, k) ==
  /\ conn[c].phase = "off"
  /\ LET ok == /\ Admits(World, Servers[s], Clients[k].k, FALSE)
               /\ Trusts(World, Clients[k].trust, Servers[s].cert, {}, FALSE)
     IN conn' = [conn EXCEPT ![c] = [Off EXCEPT !.phase = IF ok THEN "open" ELSE "refused", !.server = s, !.client = k]]
  /\ last' = Clients[k].k.cert /\ UNCHANGED calls
Send(c, r) == conn[c].phase = "open" /\ conn' = [conn EXCEPT ![c].phase = "sent", ![c].req = r, ![c].answer = <<>>] /\ calls' = [calls EXCEPT ![c] = <<>>] /\ UNCHANGED last
Srv(c) == Servers[conn[c].server]
Peer(c) == IF "peer" \in Lax THEN last ELSE Clients[conn[c].client].k.cert
\* "prefix": whatever begins like a route
Match(s, r) == \/ Routed(s.routes, r)
               \/ "prefix" \in Lax /\ \E x \in s.routes : x[1] = r.method /\ Len(x[2]) <= Len(r.path) /\ SubSeq(r.path, 1, Len(x[2])) = x[2]
Call(c) == /\ conn[c].phase = "sent" /\ Match(Srv(c), Reqs[conn[c].req])
           /\ calls' = [calls EXCEPT ![c] = <<[req |-> conn[c].req, body |-> Reqs[conn[c].req].body, peer |-> Peer(c)]>>]
           /\ conn' = [conn EXCEPT ![c].phase = "called"] /\ UNCHANGED last
\* the function answers with what it was asked, so that answers can be told apart
Does(c, r) == [status |-> 200, text |-> r, ct |-> PLAIN, exc |-> ""]
Reply(c) == /\ \/ conn[c].phase = "called"
               \/ conn[c].phase = "sent" /\ ~Match(Srv(c), Reqs[conn[c].req])
            /\ conn' = [conn EXCEPT ![c].phase = "open", ![c].answer = <<AnswerOf(Srv(c).routes, Reqs[conn[c].req], Does(c, conn[c].req))>>]
            /\ UNCHANGED <<calls, last>>
Close(c) == conn[c].phase \in {"open", "refused"} /\ conn' = [conn EXCEPT ![c] = Off] /\ calls' = [calls EXCEPT ![c] = <<>>] /\ UNCHANGED last
Next == \E c \in Conns : \/ \E s \in DOMAIN Servers, k \in DOMAIN Clients : Open(c, s, k)
                         \/ \E r \in DOMAIN Reqs : Send(c, r)
                         \/ Call(c) \/ Reply(c) \/ Close(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Call(c) \/ Reply(c))
--------------------------------------------------------------------------------
\* functions see only who was let in, as who they are, and what was sent
Called(c) == calls[c] # <<>>
OnlyAdmitted == \A c \in Conns : Called(c) => LET s == Srv(c)  p == calls[c][1].peer IN
  p # NoCert /\ (s.ca.given => SignerSound(World, p, {}, {}, s.ca.set, {}))
AsThemselves == \A c \in Conns : Called(c) => calls[c][1] = [req |-> conn[c].req, body |-> Reqs[conn[c].req].body, peer |-> Clients[conn[c].client].k.cert]
OnlyRoutes == \A c \in Conns : Called(c) => LET r == Reqs[calls[c][1].req] IN <<r.method, r.path>> \in Srv(c).routes
\* nothing is sent to a server the client does not trust
OnlyTrusted == \A c \in Conns : conn[c].phase \in {"open", "sent", "called"} => LET t == Clients[conn[c].client].trust IN
  t.given => SignerSound(World, Servers[conn[c].server].cert, {}, {}, t.set, {})
\* an answer is that of one's own request
OwnAnswer == \A c \in Conns : conn[c].answer # <<>> => conn[c].answer[1].text \in {conn[c].req, RouterError}
Answered == \A c \in Conns : conn[c].phase = "sent" ~> conn[c].phase # "sent"
NobodyCalls == \A c \in Conns : ~Called(c)
NobodyRefused == \A c \in Conns : conn[c].phase # "refused"
================================================================================
