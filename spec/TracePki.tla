------------------------------- MODULE TracePki -------------------------------
(* Recorded verifications of real certificates and messages. A session's field w  *)
(* tells how each certificate was made.                                            *)
EXTENDS TraceBase, Pki, SequencesExt
VARIABLE accepted
w == Sess.w
Set(s) == ToSet(s)
Crls(e) == {[iss |-> e.crls[i].iss, by |-> e.crls[i].by, rev |-> Set(e.crls[i].rev)] : i \in 1..Len(e.crls)}
VerifyCert(e) ==
  LET c == Set(e.certs)  s == Set(e.store) IN
  /\ e.ok => ~e.nocerts /\ CertSound(w, e.t, c, s, e.nostore)
  /\ (~e.nocerts /\ CertMust(w, e.t, c, s, e.nostore)) => e.ok
VerifyCms(e) ==
  LET g == Set(e.signers)  m == Set(e.emb)  c == Set(e.certs)  s == Set(e.store) IN
  /\ e.ok => e.intact /\ CmsSound(w, g, m, c, s, e.nostore, Crls(e))
  /\ (e.intact /\ CmsMust(w, g, m, c, s, e.nostore, Crls(e))) => e.ok
TraceInit == BaseInit /\ accepted = 0
TraceNext == /\ Consume
             /\ accepted' = accepted + (IF Ev.ok THEN 1 ELSE 0)
             /\ CASE Ev.op = "cert" -> VerifyCert(Ev)
                  [] Ev.op = "cms" -> VerifyCms(Ev)
                  [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, accepted>>
===============================================================================
