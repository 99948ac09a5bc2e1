------------------------------ MODULE TraceBase64 ------------------------------
(* Recorded calls of the real encoder and decoder.                               *)
EXTENDS TraceBase
S == INSTANCE Base64 WITH MaxLen <- 0, Bytes <- {}, LineBreaks <- FALSE, data <- <<>>, txt <- <<>>
Holds(e) ==
  CASE e.op = "enc" -> /\ e.out.ok /\ e.out.nul
                       /\ e.out.text = S!Encode(e.in) /\ e.out.n = Len(e.out.text)
    [] e.op = "dec" -> LET v == S!Decode(e.in) IN
                       /\ e.out.ok = FALSE => e.out.null   \* nothing dangling
                       /\ v = {} \/ [ok |-> e.out.ok, bytes |-> e.out.bytes] \in v
TraceInit == BaseInit
TraceNext == Consume /\ Holds(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
================================================================================
