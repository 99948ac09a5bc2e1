------------------------------- MODULE TraceHttps -------------------------------
(* Recorded connections of the real HTTPS layer against Https: as a server, asked    *)
(* by another make of client, with what its functions were called with; and as a      *)
(* client, of another make of server that notes what arrives.                         *)
EXTENDS TraceBase, FiniteSets
H == INSTANCE Https WITH Lax <- {}, World <- <<>>, Servers <- <<>>, Clients <- <<>>, Conns <- {}, Reqs <- <<>>, conn <- <<>>, calls <- <<>>, last <- ""
S(q) == {q[i] : i \in 1..Len(q)}
w == Sess.w
Srv(id) == LET s == Sess.servers[id] IN [cert |-> s.cert, ca |-> [given |-> s.ca.given, set |-> S(s.ca.set)], routes |-> S(s.routes)]
K(k) == [cert |-> k.cert, chain |-> S(k.chain)]
Known == {"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}
Answers(routes, r, a) ==
  IF r.method \in Known THEN a = H!AnswerOf(routes, r, r.h)
  ELSE a.status \in 400..499 /\ a.ct = H!PLAIN /\ a.text = H!RouterError
\* the connection is with the server's own certificate; requests are handed over as they
\* were sent, each to its route, as coming from the one who showed the certificate
Use(e) ==
  LET s == Srv(e.server)  k == K(e.k)  may == H!Admits(w, s, k, FALSE)  must == H!Admits(w, s, k, TRUE) IN
  /\ e.shown \in {H!NoCert, s.cert} /\ (must => e.shown = s.cert)
  /\ \A i \in 1..Len(e.reqs) : LET r == e.reqs[i] IN
       /\ ~may => e.got[i] = <<>>
       /\ must => e.got[i] # <<>>
       /\ e.got[i] = <<>> => e.calls[i] = <<>>
       /\ e.got[i] # <<>> => /\ Answers(s.routes, r, e.got[i][1])
                             /\ e.calls[i] = IF ~H!Routed(s.routes, r) THEN <<>>
                                             ELSE <<[server |-> e.server, route |-> <<IF r.method = "HEAD" THEN "GET" ELSE r.method, r.path>>, body |-> r.body, ct |-> r.ct, peer |-> k.cert]>>
\* as a client
Trust(t) == [given |-> t.given, set |-> S(t.set)]
Post(e) ==
  LET t == Trust(e.trust)  chain == S(e.chain)  ok == e.kok IN
  /\ e.sent # <<>> => /\ ok /\ H!TrustMay(w, t, e.cert, chain)
                      /\ S(e.sent) = {[method |-> "POST", path |-> e.path, ct |-> e.ct, body |-> e.body, client |-> e.k]}
                      /\ e.reply.whole => Len(e.sent) = 1 \* (what gets no answer may be tried again)
  /\ ok /\ H!TrustMust(w, t, e.cert, chain) => e.sent # <<>>
  /\ IF e.sent # <<>> /\ e.reply.whole
     THEN e.res.status = e.reply.status /\ e.res.text = e.reply.text /\ (e.first => e.res.peer = e.cert)
     ELSE e.res.status < 0
\* starting: with what it needs a server listens, where it was told to and nowhere else
Start(e) == e.listens = e.possible /\ (e.possible => ~e.elsewhere) /\ (~e.possible => e.ended)
Did(e) == CASE e.op = "use" -> Use(e)
            [] e.op = "post" -> Post(e)
            [] e.op = "start" -> Start(e)
            [] OTHER -> FALSE
TraceInit == BaseInit
TraceNext == Consume /\ Did(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=================================================================================
