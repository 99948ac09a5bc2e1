------------------------------ MODULE TraceTime ------------------------------
EXTENDS TraceBase, Integers
S == INSTANCE TimeCodec WITH Starts <- {}, Steps <- 0, e <- 0, f <- <<>>, k <- 0
Holds(x) ==
  CASE x.op = "t2s" -> S!IsCalendar(x.t) => x.out = S!Format(x.t)
    [] x.op = "s2t" -> /\ x.ok => S!MayRead(x["in"]) /\ x.t = S!Read(x["in"]).t
                       /\ S!MustRead(x["in"]) => x.ok
                       /\ x.ok /\ S!IsCalendar(x.t) => x.again = S!Format(x.t)
    [] x.op = "now" -> \E t \in x.before..x.after : x.out = S!Format(S!Civil(t))
    [] x.op = "s2b" -> LET i == {j \in 1..Len(x["in"]) : x["in"][j] = 0} IN
                       IF i = {} THEN x.rc = S!ReadBool(x["in"])
                       ELSE \* not a C string of that length
                            x.rc \in {-1, S!ReadBool(SubSeq(x["in"], 1, (CHOOSE j \in i : \A m \in i : j <= m) - 1))}
    [] x.op = "b2s" -> x.out = IF x.v THEN S!True_ ELSE S!False_
    [] OTHER -> FALSE
TraceInit == BaseInit
TraceNext == Consume /\ Holds(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
================================================================================
