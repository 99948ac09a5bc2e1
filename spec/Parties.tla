-------------------------------- MODULE Parties --------------------------------
(* What pledge, registrar and MASA do with a request, as functions of the request,  *)
(* the configuration c, the files f it names and the certificates w. f maps a path  *)
(* to [cert, key]: the names of the certificate and key in that file, "" for none.   *)
(* c has a record per role (p, r, m) whose path fields are names of f or "unset".    *)
(* Certificates have two fields more than in Pki: sn (the serialNumber of the        *)
(* subject) and ser (the serial number).                                            *)
EXTENDS VoucherRules, SequencesExt
None == ""
CertAt(f, p) == IF p \in DOMAIN f THEN f[p].cert ELSE None
KeyAt(f, p) == IF p \in DOMAIN f THEN f[p].key ELSE None
ListOk(f, ps) == \A i \in 1..Len(ps) : CertAt(f, ps[i]) # None
ListAt(f, ps) == {CertAt(f, ps[i]) : i \in 1..Len(ps)}
\* certificate and key can be loaded / belong together
PairOk(f, r) == CertAt(f, r.signcert) # None /\ KeyAt(f, r.signkey) # None
PairFits(w, f, r) == PairOk(f, r) /\ w[CertAt(f, r.signcert)].key = KeyAt(f, r.signkey)
TrustOk(f, r) == ListOk(f, r.certs) /\ ListOk(f, r.store)
TrustAt(f, r) == [certs |-> ListAt(f, r.certs), store |-> ListAt(f, r.store), nostore |-> r.store = <<>>, crls |-> {}]

\* the message o says body and is signed as role r is configured
SignedAs(w, f, r, o, body) == LET s == CertAt(f, r.signcert) IN
  o.voucher /\ o.intact /\ o.body = body /\ o.signers = {s} /\ o.emb = {s} \cup ListAt(f, r.add)

VOUCHER == "/.well-known/brski/requestvoucher"
ENROL == "/.well-known/est/simpleenroll"
CMSTYPE == "application/voucher-cms+json"
---- (* the pledge asks: can it, and what *)
PvrMust(w, f, c) == /\ c.p.serial # Unset /\ c.p.serialfits /\ c.p.createdok /\ c.p.nonceok
                    /\ PairFits(w, f, c.p) /\ ListOk(f, c.p.add)
PvrIs(w, f, c, tls, o) == SignedAs(w, f, c.p, o, PvrBody(c.p.created, c.p.serial, c.p.nonce, tls))

---- (* the registrar, asked for a voucher: peer is a certificate or "none", q is *)
\* <<>> when the body is no base64 text, else the message in it
ReqOk(w, peer, q) == peer # "none" /\ w[peer].sn # Unset /\ q # <<>>
RegFilesOk(f, c) == /\ CertAt(f, c.r.tlscert) # None /\ PairOk(f, c.r) /\ TrustOk(f, c.r) /\ ListOk(f, c.r.add)
RegAccepts(w, f, c, peer, q, must) ==
  LET t == TrustAt(f, c.r)  tls == CertAt(f, c.r.tlscert)  sn == w[peer].sn IN
  IF must THEN w[peer].snfits /\ RegMust(w, q[1], sn, tls, t) ELSE RegMay(w, q[1], sn, tls, t)
\* sent: the messages sent to the MASA; got: <<>> or what came back [status, text]
RegAnswers(w, f, c, peer, q, sent, got, a) ==
  LET ok == ReqOk(w, peer, q)  files == RegFilesOk(f, c)  fits == PairFits(w, f, c.r)  IN
  /\ a.ct = CMSTYPE
  /\ Len(sent) <= 1
  /\ sent # <<>> => /\ ok /\ files /\ fits /\ RegAccepts(w, f, c, peer, q, FALSE)
                    /\ SignedAs(w, f, c.r, sent[1], RvrBody(q[1].body, "now", w[peer].sn, "dn:" \o w[peer].iss, q[1].id))
  /\ sent = <<>> => IF ~ok THEN a.status = 400 \/ ((~files \/ ~fits) /\ a.status = 500)
                    ELSE IF ~files THEN a.status = 500
                    ELSE IF ~fits THEN a.status \in {400, 500}
                    ELSE a.status = 400 /\ ~RegAccepts(w, f, c, peer, q, TRUE)
  /\ sent # <<>> => IF got # <<>> /\ got[1].status < 400 THEN a.status = 200 /\ a.text = got[1].text
                    ELSE a.status = 502 /\ a.text # ""
  /\ a.status = 200 <=> (sent # <<>> /\ got # <<>> /\ got[1].status < 400)

---- (* the MASA, asked for a voucher; in is the message in its prior request *)
MasaFilesOk(f, c) == /\ c.m.expiresok /\ CertAt(f, c.m.ldevid) # None /\ PairOk(f, c.m)
                     /\ TrustOk(f, c.m) /\ TrustOk(f, c.r) /\ ListOk(f, c.m.add)
MasaAnswers(w, f, c, q, in, a) ==
  LET files == MasaFilesOk(f, c)  rt == TrustAt(f, c.m)  pt == TrustAt(f, c.r) IN
  /\ a.ct = "text/plain"
  /\ a.status \in {200, 400}
  /\ a.status = 400 => a.text = ""
  /\ a.status = 200 => /\ q # <<>> /\ files /\ PairFits(w, f, c.m) /\ AskMay(w, q[1], in, rt, pt)
                       /\ a.m # <<>> /\ SignedAs(w, f, c.m, a.m[1], VoucherBody(q[1].body, CertAt(f, c.m.ldevid), c.m.expires))
  /\ q # <<>> /\ files /\ PairFits(w, f, c.m) /\ AskMust(w, q[1], in, rt, pt) => a.status = 200

---- (* enrolment: x is <<>> or the certificate in the request, a record of its parts; *)
\* esc is the serialNumber of its subject as it is written in a log
EnrolFilesOk(f, c) == CertAt(f, c.r.tlsca) # None /\ KeyAt(f, c.r.tlscakey) # None
Enrols(w, f, c, peer, x, a) ==
  /\ a.ct = "text/plain"
  /\ a.status \in {200, 400}
  /\ a.status = 400 => a.text = ""
  /\ a.status = 200 => /\ x # <<>> /\ EnrolFilesOk(f, c) /\ a.x # <<>>
                       /\ [a.x[1] EXCEPT !.iss = x[1].iss, !.by = x[1].by, !.own = x[1].own] = x[1]
                       /\ a.x[1].iss = w[CertAt(f, c.r.tlsca)].sub /\ a.x[1].by = KeyAt(f, c.r.tlscakey)
  /\ x # <<>> /\ EnrolFilesOk(f, c) /\ (peer = "none" \/ (w[peer].readable /\ x[1].readable)) => a.status = 200
\* the line a successful enrolment leaves in the log
Line(w, peer, x) == "now " \o w[peer].ser \o " " \o w[peer].esc \o " " \o x.ser \o " " \o x.esc
LogAfter(log, w, peer, x, a) == IF a.status = 200 /\ peer # "none" THEN Append(log, Line(w, peer, x[1])) ELSE log

---- (* the pledge, given a reply q (<<>>: no base64) over a connection to tls *)
PledgePins(w, f, c, q, tls, ok, pinned) ==
  LET t == TrustAt(f, c.p)  dom == [given |-> FALSE, store |-> {}] IN
  /\ ok => /\ q # <<>> /\ TrustOk(f, c.p) /\ c.p.nonceok /\ c.p.serial # Unset
           /\ PledgeMay(w, q[1], c.p.serial, c.p.nonce, tls, dom, t)
           /\ pinned = q[1].body.pinned
  /\ ~ok => pinned = Unset
  /\ q # <<>> /\ TrustOk(f, c.p) /\ c.p.nonceok /\ c.p.serial # Unset /\ PledgeMust(w, q[1], c.p.serial, c.p.nonce, tls, dom, t) => ok
---- (* routes without function answer with their name *)
Stub(side, method, path) == LET b == "/.well-known/brski/"  e == "/.well-known/est/" IN
  CASE method = "POST" /\ path = b \o "voucher_status" -> [status |-> 200, text |-> side \o "_voucher_status"]
    [] method = "POST" /\ path = b \o "requestauditlog" -> [status |-> 200, text |-> side \o "_requestauditlog"]
    [] method = "POST" /\ path = b \o "enrollstatus" -> [status |-> 200, text |-> side \o "_enrollstatus"]
    [] side = "masa" /\ method = "GET" /\ path = e \o "cacerts" -> [status |-> 503, text |-> "get_est_cacerts"]
    [] side = "masa" /\ method = "GET" /\ path = e \o "csrattrs" -> [status |-> 503, text |-> "get_est_csrattrs"]
    [] side = "masa" /\ method = "POST" /\ path \in {e \o x : x \in {"simpleenroll", "simplereenroll", "fullcmc", "serverkeygen"}} ->
         [status |-> 503, text |-> "post_est_" \o SubSeq(path, Len(e) + 1, Len(path))]
    [] OTHER -> [status |-> 404, text |-> ""]
StubAnswer(side, method, path) == LET s == Stub(IF side = "reg" THEN "registrar" ELSE side, method, path) IN
  [status |-> s.status, text |-> s.text, ct |-> IF s.status = 404 THEN "" ELSE "text/plain"]
================================================================================

