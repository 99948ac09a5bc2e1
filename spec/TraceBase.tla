------------------------------- MODULE TraceBase -------------------------------
(* Common part of all trace specifications: the recorded sessions, the position *)
(* in them and the acceptance condition. A session is a record with a field ev  *)
(* (the sequence of recorded events) and, where needed, its fixed environment.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid,   \* which session
          l      \* position of the next event of that session

Sess == Trace[sid]
Ev == Sess.ev[l]
More == l <= Len(Sess.ev)
Consume == More /\ l' = l + 1 /\ UNCHANGED sid
BaseInit == sid \in 1..Len(Trace) /\ l = 1

ASSUME \A s \in 1..Len(Trace) : TLCSet(s, 0)
\* remembers how far each session could be followed (one worker)
Progress == IF l > TLCGet(sid) THEN TLCSet(sid, l) ELSE TRUE

RECURSIVE Report(_)
Report(s) == IF s > Len(Trace) THEN "" ELSE ToString(TLCGet(s)) \o " " \o Report(s + 1)
Accepted == /\ PrintT(<<"PROGRESS", Report(1)>>)
            /\ \A s \in 1..Len(Trace) : TLCGet(s) = Len(Trace[s].ev) + 1
================================================================================
