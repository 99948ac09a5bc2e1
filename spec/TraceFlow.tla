------------------------------- MODULE TraceFlow -------------------------------
(* Recorded work of the three parties: requests to the servers and their answers,   *)
(* runs of the pledge, changes of files, and what the audit log then says. Every     *)
(* message was taken apart by an independent reader. The state of the system is the   *)
(* files and the log: an answer may depend on nothing else but the request.           *)
EXTENDS TraceBase, FiniteSets
VARIABLES files, log, honest  \* honest: from here on all is in order and must succeed
R == INSTANCE Parties WITH Lax <- {}
S(q) == R!ToSet(q)
w == Sess.w
c == Sess.conf
Msg(m) == [id |-> m.id, body |-> m.body, voucher |-> m.voucher, intact |-> m.intact, signers |-> S(m.signers), emb |-> S(m.emb)]
Q(q) == [i \in 1..Len(q) |-> Msg(q[i])]
Ans(a) == [a EXCEPT !.m = Q(@)]

---- (* servers *)
MasaDid(e) == R!MasaAnswers(w, files, c, Q(e.q), Msg(e.inner), Ans(e.a))
\* a call to the MASA: addressed as configured, in standard base64, as the registrar itself
CallOk(k) == /\ k.key = c.r.tlskey /\ k.cert = c.r.tlscert /\ k.host = c.m.bind /\ k.port = c.m.port
             /\ k.path = R!VOUCHER /\ k.ct = R!CMSTYPE /\ k.std /\ Len(k.m) = 1
             /\ \A i \in 1..Len(k.sent) : MasaDid(k.sent[i])
Sent(e) == IF e.calls = <<>> THEN <<>> ELSE Q(e.calls[1].m)
Got(e) == IF e.calls = <<>> \/ e.calls[1].status < 0 THEN <<>> ELSE <<[status |-> e.calls[1].status, text |-> e.calls[1].text]>>
RegDid(e) == /\ Len(e.calls) <= 1
             /\ \A i \in 1..Len(e.calls) : CallOk(e.calls[i])
             /\ R!RegAnswers(w, files, c, e.peer, Q(e.q), Sent(e), Got(e), Ans(e.a))
EnrolDid(e) == R!Enrols(w, files, c, e.peer, e.x, e.a)

---- (* the pledge *)
ToReg(k) == /\ k.key = c.p.idkey /\ k.cert = c.p.idcert /\ k.host = c.r.bind /\ k.port = c.r.port
            /\ k.ct = R!CMSTYPE /\ k.std
            /\ \A i \in 1..Len(k.served) : RegDid(k.served[i])
            /\ \A i \in 1..Len(k.enrolled) : EnrolDid(k.enrolled[i])
Probe(k) == ToReg(k) /\ k.path = R!VOUCHER /\ k.empty /\ k.ca = "none"
Request(k, tls) == ToReg(k) /\ k.path = R!VOUCHER /\ k.ca = "none" /\ Len(k.m) = 1 /\ R!PvrIs(w, files, c, tls, Msg(k.m[1]))
\* calls 1 and 2 of a run; ok and pinned is what came of them
VoucherRun(regs, ok, pinned) ==
  /\ Len(regs) >= 1 => Probe(regs[1])
  /\ Len(regs) >= 2 => regs[1].status >= 0 /\ Request(regs[2], regs[1].peer)
  /\ Len(regs) = 0 => ~ok
  /\ Len(regs) = 1 => ~ok /\ (regs[1].status < 0 \/ ~R!PvrMust(w, files, c))
  /\ Len(regs) >= 2 => IF regs[2].status < 0 \/ regs[2].status >= 400 THEN ~ok
                       ELSE R!PledgePins(w, files, c, Q(regs[2].reply), regs[2].peer, ok, pinned)
  /\ ~ok => pinned = R!Unset
Voucher(e) == /\ Len(e.regs) <= 2 /\ VoucherRun(e.regs, e.ok, e.pinned)
              /\ honest => e.ok /\ e.pinned = R!CertAt(files, c.m.ldevid)
\* enrolment: only after a verified voucher, over TLS that trusts what it pins
Pinned3(regs) == Msg(regs[2].reply[1]).body.pinned
Sign(e) ==
  LET got3 == Len(e.regs) = 3 IN
  /\ Len(e.regs) <= 3
  /\ IF got3 THEN /\ Len(e.regs[2].reply) = 1
                  /\ VoucherRun(SubSeq(e.regs, 1, 2), TRUE, Pinned3(e.regs))
             ELSE VoucherRun(e.regs, FALSE, R!Unset)
  /\ got3 => LET k == e.regs[3] IN
       /\ ToReg(k) /\ k.path = R!ENROL /\ k.ca = Pinned3(e.regs)
       /\ Len(k.x) = 1 /\ k.x[1].own
       /\ e.ok => k.status >= 0 /\ k.status < 400
       /\ k.status >= 0 /\ k.status < 400 /\ k.rx # <<>> => e.ok
  /\ e.ok => got3 /\ e.cert = e.regs[3].rx /\ e.cert # <<>> /\ e.fits
  /\ ~e.ok => e.none
  /\ ~e.leak
  /\ honest => e.ok
---- (* all together *)
\* what enrolments within an event leave in the log
Enrolled(e) == IF e.op = "enrol" THEN <<e>>
               ELSE IF e.op = "sign" /\ Len(e.regs) = 3 THEN e.regs[3].enrolled ELSE <<>>
\* of requests that were under way together: each has its line, in some order
SameLines(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : LET n(s) == Cardinality({k \in 1..Len(s) : s[k] = a[i]}) IN n(a) = n(b)
Did(e) == CASE e.op = "pvr" -> /\ e.m # <<>> <=> (R!PvrMust(w, files, c) /\ e.tls # "none")
                               /\ e.m # <<>> => e.std /\ R!PvrIs(w, files, c, e.tls, Msg(e.m[1]))
            [] e.op = "reg" -> RegDid(e)
            [] e.op = "masa" -> MasaDid(e)
            [] e.op = "enrol" -> EnrolDid(e)
            [] e.op = "voucher" -> Voucher(e)
            [] e.op = "sign" -> Sign(e)
            [] e.op = "verify" -> R!PledgePins(w, files, c, Q(e.q), e.tls, e.ok, e.pinned)
            [] e.op = "log" -> e.lines = log
            [] e.op = "lines" -> SameLines(e.lines, log)
            [] e.op = "write" -> TRUE
            [] e.op = "honest" -> TRUE
            [] e.op = "restart" -> TRUE  \* and both states stay
            [] e.op = "other" -> e.a = R!StubAnswer(e.side, e.method, e.path)
            [] OTHER -> FALSE
TraceInit == BaseInit /\ files = Sess.files /\ log = Sess.log0 /\ honest = Sess.honest
TraceNext == /\ Consume /\ Did(Ev)
             /\ honest' = (honest \/ Ev.op = "honest")
             /\ files' = IF Ev.op = "write" THEN (Ev.path :> Ev.v) @@ files ELSE files
             /\ log' = IF Ev.op = "lines" THEN Ev.lines ELSE LET x == Enrolled(Ev) IN IF x = <<>> THEN log ELSE R!LogAfter(log, w, x[1].peer, x[1].x, x[1].a)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, files, log, honest>>
===============================================================================
