------------------------------ MODULE TraceConfig ------------------------------
EXTENDS TraceBase, Integers
VARIABLES cur, one, many, file
Common == {"cmsSignCertPath", "cmsSignKeyPath"}
Lists3 == {"cmsAdditionalCertPath", "cmsVerifyCertPath", "cmsVerifyStorePath"}
Keys1 == [pledge |-> Common \cup {"createdOn", "serialNumber", "nonce", "idevidKeyPath", "idevidCertPath", "idevidCACertPath"},
          registrar |-> Common \cup {"bindAddress", "port", "tlsKeyPath", "tlsCertPath", "tlsCAKeyPath", "tlsCACertPath"},
          masa |-> Common \cup {"bindAddress", "port", "expiresOn", "ldevidCACertPath", "tlsKeyPath", "tlsCertPath", "tlsCACertPath"}]
KeysN == [pledge |-> Lists3, registrar |-> Lists3, masa |-> Lists3]
C == INSTANCE Config WITH One <- Keys1, Many <- KeysN, Names <- {}, Vals <- {}, Empty <- "", MaxLines <- 0
cv == <<cur, one, many, file>>
Short == [pledge |-> "p.", registrar |-> "r.", masa |-> "m."]
Default(k) == IF k = "bindAddress" THEN "302e302e302e30" ELSE IF k = "port" THEN "0" ELSE "NULL"
Loaded(o) == \A s \in DOMAIN Keys1 :
  /\ \A k \in Keys1[s] : o[Short[s] \o k] = C!Single(s, k, Default(k), IF k = "port" THEN "0" ELSE "NULL")
  /\ \A k \in KeysN[s] : o[Short[s] \o k] = C!List(s, k)
Step(e) ==
  CASE e.op = "sec" -> C!Header(e.s)
    [] e.op = "val" -> C!Value(e.k, e.v)
    [] e.op = "no" -> C!Other
    [] e.op = "load" -> UNCHANGED <<cur, one, many>> /\ e.rc = 0 /\ Loaded(e.out)
    \* the next file is loaded from nothing
    [] e.op = "new" -> cur' = "" /\ one' = [p \in C!Slots(Keys1) |-> C!Unset] /\ many' = [p \in C!Slots(KeysN) |-> <<>>]
    [] e.op = "nofile" -> UNCHANGED <<cur, one, many>> /\ e.rc < 0
    [] e.op = "certs" -> /\ UNCHANGED <<cur, one, many>>
                         /\ (e.rc = 0) = C!AllOk(e.files)
                         /\ e.out = IF C!AllOk(e.files) THEN C!Certs(e.files) ELSE <<>>
    [] OTHER -> FALSE
TraceInit == BaseInit /\ C!CInit
TraceNext == Consume /\ Step(Ev) /\ UNCHANGED file
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, cv>>
================================================================================
