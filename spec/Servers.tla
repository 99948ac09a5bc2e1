-------------------------------- MODULE Servers --------------------------------
(* A server with many requests under way at once. A request is served in steps: it    *)
(* arrives, its files are read, the decision is asked for (a callback, which notes     *)
(* what it decided in some place), the answer is made from that place, an enrolment    *)
(* writes its log line, the answer leaves. Files may change, bad requests come and go.  *)
(* The place of the decision may be the request's own or, in Lax, shared by all.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Lax, Reqs, MaxWrites
\* kinds of requests, by their name: good and bad voucher requests, enrolments
Kind(r) == SubSeq(r, 1, 1)
VARIABLES at,    \* where each request is
          has,   \* what it read: the version of the files
          own, shared,   \* what was decided: in the request's place, in the common one
          reply, log, files, writes, memo
vars == <<at, has, own, shared, reply, log, files, writes, memo>>
Init == /\ at = [r \in Reqs |-> "new"] /\ has = [r \in Reqs |-> 0] /\ own = [r \in Reqs |-> "none"] /\ shared = "none"
        /\ reply = [r \in Reqs |-> "none"] /\ log = <<>> /\ files = 1 /\ writes = 0 /\ memo = 0
Go(r, f, t) == at[r] = f /\ at' = [at EXCEPT ![r] = t]
Arrive(r) == Go(r, "new", "in") /\ UNCHANGED <<has, own, shared, reply, log, files, writes, memo>>
\* files are read for each request ("history": remembered from an earlier one)
Read(r) == /\ Go(r, "in", "read")
           /\ has' = [has EXCEPT ![r] = IF "history" \in Lax /\ memo # 0 THEN memo ELSE files]
           /\ memo' = IF "history" \in Lax /\ memo = 0 THEN files ELSE memo
           /\ UNCHANGED <<own, shared, reply, log, files, writes>>
Refuse(r) == Kind(r) = "b" /\ Go(r, "read", "out") /\ reply' = [reply EXCEPT ![r] = "refused"] /\ UNCHANGED <<has, own, shared, log, files, writes, memo>>
Decide(r) == /\ Kind(r) # "b" /\ Go(r, "read", "decided")
             /\ own' = [own EXCEPT ![r] = r] /\ shared' = r
             /\ UNCHANGED <<has, reply, log, files, writes, memo>>
Make(r) == /\ Go(r, "decided", IF Kind(r) = "e" THEN "made" ELSE "out")
           /\ reply' = [reply EXCEPT ![r] = IF "shared" \in Lax THEN shared ELSE own[r]]
           /\ shared' = "none"   \* the place is cleaned after use
           /\ UNCHANGED <<has, own, log, files, writes, memo>>
\* one line at once ("torn": in two pieces)
Log(r) == IF "torn" \in Lax THEN
            \/ Go(r, "made", "half") /\ log' = Append(log, "<" \o reply[r]) /\ UNCHANGED <<has, own, shared, reply, files, writes, memo>>
            \/ Go(r, "half", "out") /\ log' = Append(log, reply[r] \o ">") /\ UNCHANGED <<has, own, shared, reply, files, writes, memo>>
          ELSE Go(r, "made", "out") /\ log' = log \o <<"<" \o reply[r], reply[r] \o ">">> /\ UNCHANGED <<has, own, shared, reply, files, writes, memo>>
Write == writes < MaxWrites /\ writes' = writes + 1 /\ files' = files + 1 /\ UNCHANGED <<at, has, own, shared, reply, log, memo>>
Next == (\E r \in Reqs : Arrive(r) \/ Read(r) \/ Refuse(r) \/ Decide(r) \/ Make(r) \/ Log(r)) \/ Write
Spec == Init /\ [][Next]_vars /\ \A r \in Reqs : WF_vars(Arrive(r) \/ Read(r) \/ Refuse(r) \/ Decide(r) \/ Make(r) \/ Log(r))
--------------------------------------------------------------------------------
\* each gets the answer it would get alone
OwnAnswer == \A r \in Reqs : at[r] \in {"made", "half", "out"} => reply[r] = IF Kind(r) = "b" THEN "refused" ELSE r
\* from files that were there while it was served
FreshFiles == [][\A r \in Reqs : has'[r] # has[r] => has'[r] = files]_vars
IntactLog == /\ Len(log) % 2 = 0 => \A i \in 1..(Len(log) \div 2) : \E r \in Reqs : log[2*i-1] = "<" \o r /\ log[2*i] = r \o ">"
             /\ "torn" \notin Lax => Len(log) = 2 * Cardinality({r \in Reqs : Kind(r) = "e" /\ at[r] = "out"})
AllAnswered == \A r \in Reqs : <>(at[r] = "out")
================================================================================
