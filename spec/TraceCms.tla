------------------------------- MODULE TraceCms -------------------------------
(* Recorded signings and verifications. Bodies and certificates are names for      *)
(* byte strings; what the recorder does not know gets a name of its own.            *)
EXTENDS TraceBase, Cms, SequencesExt
S(q) == ToSet(q)
Wants(e) == /\ e.n > 0 /\ e.sigok                                  \* an independent reader agrees
            /\ e.content = e.body /\ S(e.signers) = {e.who} /\ Len(e.signers) = 1
            /\ S(e.certs) = {e.who} \cup S(e.add)
Step(e) ==
  CASE e.op = "sign" ->   \* the real signer; fit: key, certificate and kind belong together
         IF e.fit THEN \/ Sign(e.body, {e.who}) /\ Wants(e)
                       \* a certificate given twice may be turned down
                       \/ /\ e.who \in S(e.add) \/ Cardinality(S(e.add)) < Len(e.add)
                          /\ e.n < 0 /\ UNCHANGED signed
         ELSE e.n < 0 /\ UNCHANGED signed
    [] e.op = "made" -> Sign(e.body, S(e.who))                      \* someone else signed
    [] e.op = "verify" -> \* a message put together from known parts
         /\ UNCHANGED signed
         /\ LET m == Msg(e.body, S(e.sis), S(e.emb)) IN
            /\ e.ok <=> Valid(m, S(e.more))
            /\ e.ok => e.data = e.body /\ S(e.out) = Signers(m) /\ Genuine(e.data, S(e.out))
    [] e.op = "bytes" ->  \* a message that came about in an unknown way
         /\ UNCHANGED signed
         \* without a store the certificate that comes with the message is not itself vouched for
         /\ e.ok => IF e.store THEN Genuine(e.data, S(e.out)) ELSE \E p \in signed : p[1] = e.data
    [] OTHER -> FALSE
TraceInit == BaseInit /\ Init
TraceNext == Consume /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, signed>>
===============================================================================
