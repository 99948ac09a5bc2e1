----------------------------- MODULE TraceVoucher -----------------------------
(* Recorded operations on one real voucher. A session may say that there is no   *)
(* voucher at all (nul).                                                          *)
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES val, last
S == INSTANCE VoucherStore WITH V <- <<>>, Used <- {}
sv == <<val, last>>
Attempt(e) ==
  IF Sess.nul THEN S!Refuse(e.at) /\ e.rc < 0
  ELSE \/ S!Set(e.ty, e.at, e.v) /\ e.rc = 0
       \/ ~S!Accepts(e.ty, e.at, e.v) /\ S!Refuse(e.at) /\ e.rc < 0
       \* a zero-length array that is not null may also be turned down
       \/ e.ty = "arr" /\ e.v = "" /\ S!Refuse(e.at) /\ e.rc < 0
Shown(e) == /\ {e.d.set[i] : i \in 1..Len(e.d.set)} = S!SetOf(val)
            /\ Len(e.d.set) = Cardinality(S!SetOf(val))
            /\ \A a \in S!Attrs : e.d[a] = val[a]
Step(e) ==
  CASE e.op = "set" -> Attempt(e)
    [] e.op = "clear" -> IF Sess.nul THEN S!Refuse(e.at) /\ e.rc < 0
                         ELSE S!Clear(e.at) /\ (e.at \in S!Attrs => e.rc = 0)
    [] e.op = "get" -> /\ S!Read
                       /\ IF Sess.nul \/ S!TypeOf(e.at) # e.ty THEN e.null
                          ELSE ~e.null /\ e.v = val[e.at]
    [] e.op = "has" -> S!Read /\ e.v = S!IsSet(val, e.at)
    [] e.op = "dump" -> S!Read /\ Shown(e)
    [] OTHER -> FALSE
TraceInit == BaseInit /\ S!Init
TraceNext == Consume /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, sv>>
================================================================================
