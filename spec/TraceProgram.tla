----------------------------- MODULE TraceProgram -----------------------------
(* The program itself, as processes over TLS: what was recorded between them, what     *)
(* clients of another make were answered, and what its commands printed and wrote.      *)
(* The parties work as in TraceFlow; what is said on the wire is what module Https      *)
(* makes of it.                                                                        *)
EXTENDS TraceFlow, Integers
H == INSTANCE Https WITH Lax <- {}, World <- <<>>, Servers <- <<>>, Clients <- <<>>, Conns <- {}, Reqs <- <<>>, conn <- <<>>, calls <- <<>>, last <- ""
None == "none"
\* who starts with which files: a server needs its certificate and the key of it
Starts(r) == R!CertAt(files, r.tlscert) # R!None /\ R!KeyAt(files, r.tlskey) = w[R!CertAt(files, r.tlscert)].key
\* (with a key of another kind than its certificate it may start, and serves nobody)
Pair(r) == R!CertAt(files, r.tlscert) # R!None /\ R!KeyAt(files, r.tlskey) # R!None
UpIs(up, r) == (Starts(r) => up) /\ (up => Pair(r))
Up(e) == UpIs(e.reg, c.r) /\ UpIs(e.masa, c.m)
RegUp == Starts(c.r)
\* whom the servers let in: the registrar everybody with a certificate, the MASA whom
\* the CA of the registrar certified
Shows(k) == [cert |-> k, chain |-> {}]
RegLets(k) == RegUp /\ k # None
MasaCa == [given |-> c.r.tlsca # R!Unset, set |-> {R!CertAt(files, c.r.tlsca)} \ {R!None}]
MasaLets(k, must) == Starts(c.m) /\ H!Admits(w, [ca |-> MasaCa], Shows(k), must)

---- (* answers on the wire *)
Wired(a) == a.status >= 400 => a.ct = H!PLAIN /\ a.text # ""
\* what the function must have answered
Was(a, ct) == IF a.status >= 400 THEN [a EXCEPT !.ct = ct, !.text = IF a.text = H!RouterError THEN "" ELSE a.text] ELSE a
Each(q, Op(_)) == [i \in 1..Len(q) |-> Op(q[i])]
WasPlain(x) == [x EXCEPT !.a = Was(@, H!PLAIN)]
WasCall(k) == [k EXCEPT !.sent = Each(@, WasPlain)]
WasReg(e) == [e EXCEPT !.a = Was(@, R!CMSTYPE), !.calls = Each(@, WasCall)]
WiredReg(e) == Wired(e.a) /\ \A i \in 1..Len(e.calls) : \A j \in 1..Len(e.calls[i].sent) : Wired(e.calls[i].sent[j].a)
WasHop(k) == [k EXCEPT !.served = Each(@, WasReg), !.enrolled = Each(@, WasPlain)]
WiredHop(k) == /\ \A i \in 1..Len(k.served) : WiredReg(k.served[i]) /\ RegLets(k.served[i].peer)
               /\ \A i \in 1..Len(k.enrolled) : Wired(k.enrolled[i].a) /\ RegLets(k.enrolled[i].peer)
Gone(a) == a.status = -1

WReg(e) == IF ~RegLets(e.peer) THEN Gone(e.a) /\ e.calls = <<>>
           ELSE ~Gone(e.a) /\ WiredReg(e) /\ RegDid(WasReg(e))
WEnrol(e) == IF ~RegLets(e.peer) THEN Gone(e.a) ELSE ~Gone(e.a) /\ Wired(e.a) /\ EnrolDid(WasPlain(e))
WMasa(e) == IF Gone(e.a) THEN ~MasaLets(e.by, TRUE) ELSE MasaLets(e.by, FALSE) /\ Wired(e.a) /\ MasaDid(WasPlain(e))
\* HEAD asks for what GET would say, without saying it
WOther(e) ==
  LET lets(must) == IF e.side = "reg" THEN RegLets(e.by) ELSE MasaLets(e.by, must)
      m == IF e.method = "HEAD" THEN "GET" ELSE e.method
      x == R!StubAnswer(e.side, m, e.path)
      y == [status |-> x.status, text |-> IF e.method = "HEAD" THEN "" ELSE IF x.text = "" THEN H!RouterError ELSE x.text, ct |-> H!PLAIN] IN
  IF Gone(e.a) THEN ~lets(TRUE)
  ELSE lets(FALSE) /\ IF e.method \in {"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"} THEN e.a = y ELSE e.a.status \in {400, 404, 405} /\ e.a.ct = H!PLAIN

---- (* commands *)
Prints == [preq |-> 1, sign |-> 2, epvr |-> 1, vmasa |-> 1]
Writes == [preq |-> {".crt"}, sign |-> {".crt", ".key"}, epvr |-> {".smime"}, vmasa |-> {".crt"}]
\* success and failure are told apart by the exit code; what was obtained is printed or
\* written, and nothing else is
Cli(e) == LET r == e.cli IN
  /\ ~r.odd
  /\ IF e.ok THEN r.exit = 0 /\ IF r.out THEN S(r.files) = Writes[r.cmd] ELSE r.lines = Prints[r.cmd]
     ELSE r.exit = 1 /\ (~r.out => r.lines = 0)
WasRun(e) == [e EXCEPT !.regs = Each(@, WasHop)]
\* what is no certificate cannot be written as one
Unwritable(e, p) == e.cli.out /\ ~e.ok /\ p # R!Unset /\ p \notin DOMAIN w
WVoucher(e0) ==
  LET e == WasRun(e0) IN
  /\ \A i \in 1..Len(e0.regs) : WiredHop(e0.regs[i])
  /\ Cli(e0)
  /\ \/ Voucher(e)
     \/ Len(e.regs) = 2 /\ Len(e.regs[2].reply) = 1 /\ LET p == Pinned3(e.regs) IN Unwritable(e, p) /\ Voucher([e EXCEPT !.ok = TRUE, !.pinned = p])
\* tls3: what the third connection was shown and did not take
WSign(e0) ==
  LET e1 == WasRun(e0)  n == Len(e1.regs)
      e == IF n = 3 /\ Len(e1.regs[2].reply) = 1 THEN [e1 EXCEPT !.regs[3].ca = Pinned3(e1.regs)] ELSE e1 IN
  /\ \A i \in 1..n : WiredHop(e0.regs[i])
  /\ Cli(e0)
  /\ IF n = 3 THEN /\ Sign(e)
                   /\ H!TrustMay(w, [given |-> TRUE, set |-> {Pinned3(e.regs)} \cap DOMAIN w], e0.tls3, {})
     ELSE /\ ~e.ok /\ e.none /\ ~honest
          /\ \/ VoucherRun(e.regs, FALSE, R!Unset)
             \/ /\ n = 2 /\ Len(e.regs[2].reply) = 1
                /\ LET p == Pinned3(e.regs) IN
                   /\ VoucherRun(e.regs, TRUE, p)
                   /\ (p \in DOMAIN w /\ e0.tls3 \in DOMAIN w) => ~H!TrustMust(w, [given |-> TRUE, set |-> {p}], e0.tls3, {})
                   /\ p \in DOMAIN w => e0.tls3 # None
\* long: more than the command reads
WVerify(e) == LET v(x) == R!PledgePins(w, files, c, Q(e.q), e.tls, x.ok, x.pinned) IN
  /\ Cli(e)
  /\ \/ v(e)
     \/ e.long /\ ~e.ok /\ e.pinned = R!Unset
     \/ Len(e.q) = 1 /\ LET p == Msg(e.q[1]).body.pinned IN Unwritable(e, p) /\ v([ok |-> TRUE, pinned |-> p])
WPvr(e) == Cli([op |-> "pvr", cli |-> e.cli, ok |-> e.m # <<>>])
           /\ (e.m # <<>> <=> (R!PvrMust(w, files, c) /\ e.tls # None))
           /\ (e.m # <<>> => e.std /\ R!PvrIs(w, files, c, e.tls, Msg(e.m[1])))
\* the serialNumber of the subject, as it is
Serial(e) == /\ ~e.odd
             /\ IF e.cert = R!None \/ w[e.cert].sn = R!Unset THEN e.exit = 1 /\ e.printed = ""
                ELSE IF w[e.cert].readable THEN e.exit = 0 /\ e.printed = w[e.cert].sn ELSE e.exit = 1 /\ e.printed = ""
WDid(e) == CASE e.op = "up" -> Up(e)
             [] e.op = "reg" -> WReg(e)
             [] e.op = "masa" -> WMasa(e)
             [] e.op = "enrol" -> WEnrol(e)
             [] e.op = "other" -> WOther(e)
             [] e.op = "voucher" -> WVoucher(e)
             [] e.op = "sign" -> WSign(e)
             [] e.op = "verify" -> WVerify(e)
             [] e.op = "pvr" -> WPvr(e)
             [] e.op = "serial" -> Serial(e)
             [] OTHER -> e.op \in {"log", "lines", "write", "honest", "restart"} /\ Did(e)
\* enrolments that were not let in leave nothing
Kept(e) == IF e.op = "enrol" /\ Gone(e.a) THEN <<>> ELSE Enrolled(e)
WNext == /\ Consume /\ WDid(Ev)
         /\ honest' = (honest \/ Ev.op = "honest")
         /\ files' = IF Ev.op = "write" THEN (Ev.path :> Ev.v) @@ files ELSE files
         /\ log' = IF Ev.op = "lines" THEN Ev.lines ELSE LET x == Kept(Ev) IN IF x = <<>> THEN log ELSE R!LogAfter(log, w, x[1].peer, x[1].x, x[1].a)
WInit == TraceInit
WSpec == WInit /\ [][WNext]_<<sid, l, files, log, honest>>
===============================================================================
