---------------------------- MODULE TraceHoldings -----------------------------
(* Recorded: what a process held after each round of the same requests or calls  *)
(* (memory in bytes above the least, descriptors, threads).                      *)
EXTENDS TraceBase
VARIABLES dummy
H == INSTANCE Holdings WITH Stages <- 0, Rounds <- 0, Ring <- 0, Errs <- {}, Slips <- {}, fate <- 0, size <- <<>>, writes <- <<>>,
       slip <- {}, stage <- 0, own <- <<>>, lost <- 0, once <- {}, ring <- <<>>, at <- 1, hist <- <<>>
Step(e) == /\ e.op = "rounds" /\ Len(e.held) >= 8
           /\ ~H!Grows(e.held)
           \* of files and threads a few rounds show all there will ever be
           /\ (e.what # "memory" => e.held[Len(e.held)] <= H!Max(H!Part(e.held, 1) \cup H!Part(e.held, 2)))
TraceInit == BaseInit /\ dummy = 0
TraceNext == Consume /\ Step(Ev) /\ UNCHANGED dummy
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, dummy>>
================================================================================
