------------------------------ MODULE TraceJson ------------------------------
EXTENDS TraceBase, Integers
S == INSTANCE VoucherJson
Shows(d, v) == /\ {d.set[i] : i \in 1..Len(d.set)} = S!Held(v)
               /\ \A a \in S!Attrs : d[a] = v[a]
Holds(e) ==
  CASE e.op = "ser" -> /\ Shows(e.d, e.v)                 \* the voucher holds what was set
                       /\ S!IsSerialization(e.x, e.v)     \* its text says so
                       /\ e.back.ok /\ Shows(e.back.d, e.v)
    [] e.op = "sernull" -> e.null
    [] e.op = "deser" -> LET v == S!Verdict(e.x) IN
         CASE v = "refuse" -> ~e.ok
           [] v = "any" -> TRUE
           [] v = "may" -> e.ok => Shows(e.d, S!Reading(e.x))
           [] OTHER -> e.ok /\ Shows(e.d, S!Reading(e.x))
    [] OTHER -> FALSE
TraceInit == BaseInit
TraceNext == Consume /\ Holds(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
================================================================================
