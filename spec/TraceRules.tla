------------------------------ MODULE TraceRules ------------------------------
(* Recorded calls of the functions that make and judge BRSKI messages. Inputs and  *)
(* outputs are given as VoucherRules messages: an independent reader took the       *)
(* outputs apart. Byte strings have names; certificates are those of the world w.   *)
EXTENDS TraceBase, SequencesExt
VARIABLE made     \* how many messages the code made in this session
R == INSTANCE VoucherRules WITH Lax <- {}
w == Sess.w
S(q) == ToSet(q)
Msg(m) == [body |-> m.body, voucher |-> m.voucher, intact |-> m.intact, signers |-> S(m.signers), emb |-> S(m.emb)]
Trust(t) == [certs |-> S(t.certs), store |-> S(t.store), nostore |-> t.nostore,
             crls |-> {[iss |-> t.crls[i].iss, by |-> t.crls[i].by, rev |-> S(t.crls[i].rev)] : i \in 1..Len(t.crls)}]
\* out is <<>> or holds the message that was made
Made(e) == e.out # <<>>
Says(e, body) == LET o == Msg(e.out[1]) IN
  /\ o.voucher /\ o.intact
  /\ o.body = body
  /\ o.signers = {e.cert} /\ o.emb = {e.cert} \cup S(e.add)
Pvr(e) == /\ Made(e) <=> e.fit
          /\ Made(e) => Says(e, R!PvrBody(e.created, e.serial, e.nonce, e.tls))
Rvr(e) == LET m == Msg(e.m)  t == Trust(e.trust) IN
  /\ Made(e) => e.fit /\ R!RegMay(w, m, e.serial, e.tls, t)
  /\ e.fit /\ R!RegMust(w, m, e.serial, e.tls, t) => Made(e)
  /\ Made(e) => Says(e, R!RvrBody(m.body, e.created, e.serial, e.issuer, e.m.id))
Masa(e) == LET m == Msg(e.m)  in == Msg(e.inner)  rt == Trust(e.rtrust)  pt == Trust(e.ptrust) IN
  /\ e.calls <= 1
  /\ e.calls = 1 => /\ e.fit /\ R!AskMay(w, m, in, rt, pt)
                    /\ e.cbserial = m.body.serial /\ S(e.cbcerts) = m.signers
  /\ e.fit /\ R!AskMust(w, m, in, rt, pt) => e.calls = 1
  /\ Made(e) <=> (e.calls = 1 /\ e.approve /\ e.pinned # R!Unset /\ e.keyfit)
  /\ Made(e) => Says(e, R!VoucherBody(m.body, e.pinned, e.expires))
Verify(e) == LET m == Msg(e.m)  t == Trust(e.trust)
                 dom == [given |-> e.domgiven, store |-> S(e.dom)] IN
  /\ e.ok => e.fit /\ R!PledgeMay(w, m, e.serial, e.nonce, e.tls, dom, t)
  /\ e.fit /\ R!PledgeMust(w, m, e.serial, e.nonce, e.tls, dom, t) => e.ok
  /\ e.pinned = (IF e.ok THEN m.body.pinned ELSE R!Unset)
  /\ e.ok /\ e.asked => S(e.certs) = m.signers
Step(e) == CASE e.op = "pvr" -> Pvr(e)
             [] e.op = "rvr" -> Rvr(e)
             [] e.op = "masa" -> Masa(e)
             [] e.op = "verify" -> Verify(e)
             [] OTHER -> FALSE
TraceInit == BaseInit /\ made = 0
TraceNext == Consume /\ Step(Ev) /\ made' = made + (IF "out" \in DOMAIN Ev /\ Ev.out # <<>> THEN 1 ELSE 0)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, made>>
===============================================================================
