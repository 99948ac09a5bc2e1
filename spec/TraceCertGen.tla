----------------------------- MODULE TraceCertGen -----------------------------
(* Recorded key and certificate makings against CertGen.                          *)
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES keys, certs, asked, signed
G == INSTANCE CertGen WITH KeyIds <- {}, Metas <- {}, Depth <- 0
gv == <<keys, certs, asked, signed>>
\* reading a certificate
Meta(e) == LET m == e.meta IN
  IF ~e.readable THEN m.rc < 0
  ELSE /\ m.rc = 0 /\ m.serial = IF e.fits THEN e.serial ELSE "0"
       /\ m.subject = G!ReadName(e.subject) /\ m.issuer = G!ReadName(e.issuer)
       /\ m.sn = G!DeviceSerial(m.subject)
       /\ m.der /\ m.copy
NewKey(e) == IF e.possible THEN /\ e.ok /\ e.loads /\ e.kind = e.want /\ e.fresh /\ e.works
                                /\ G!NewKey(e.id)
             ELSE ~e.ok /\ UNCHANGED gv
NewCert(e) ==
  /\ UNCHANGED <<keys, certs, signed>>
  /\ e.ok = G!Possible(e.ask, e.now)
  /\ e.ok => /\ G!Carries(e.c, e.ask, e.now, e.slack)
             /\ Meta([readable |-> TRUE, fits |-> TRUE, serial |-> e.ask.serial, subject |-> G!AsName(e.ask.subject), issuer |-> G!AsName(e.ask.issuer), meta |-> e.meta])
  /\ asked' = IF e.ok THEN asked \cup {e.ask} ELSE asked
\* parts of certificates are compared as they are encoded
Signed(e) ==
  /\ UNCHANGED gv
  /\ e.ok = (e.keyok /\ e.caok /\ e.certok)
  /\ e.ok => /\ \A p \in {"ver", "serial", "sub", "spki", "valid", "ext"} : e.new[p] = e.old[p]
             /\ e.new.iss = e.ca.sub
             /\ e.by /\ e.alg = G!Alg(e.kt)
Step(e) == CASE e.op = "key" -> NewKey(e)
             [] e.op = "cert" -> NewCert(e)
             [] e.op = "sign" -> Signed(e)
             [] e.op = "meta" -> UNCHANGED gv /\ Meta(e)
             [] OTHER -> FALSE
TraceInit == BaseInit /\ keys = {} /\ certs = {} /\ asked = {} /\ signed = {}
TraceNext == Consume /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, gv>>
================================================================================
