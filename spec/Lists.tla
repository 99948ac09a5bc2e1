-------------------------------- MODULE Lists --------------------------------
(* Byte-array list, key/value list and byte arrays. Byte strings are written in *)
(* hex; NoVal stands for a null pointer.                                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Items, MaxLen, NoVal
VARIABLES items,   \* what the list holds, in order
          rc, was  \* the last result and the list before it
vars == <<items, rc, was>>

Init == items = <<>> /\ rc = 0 /\ was = <<>>
Push(x) == items' = Append(items, x) /\ rc' = 0 /\ was' = items
\* a null element (or key, or value) or a null list is refused and changes nothing
Refuse == UNCHANGED items /\ rc' = -1 /\ was' = items
Observe == UNCHANGED items /\ rc' = 0 /\ was' = items

Grow == Len(items) < MaxLen /\ \E x \in Items : Push(x)
Next == \/ Grow
        \/ Refuse
        \/ Observe
Spec == Init /\ [][Next]_vars
OnlyGrows == \/ items = was /\ (rc = -1 \/ rc = 0)
             \/ rc = 0 /\ Len(items) = Len(was) + 1 /\ SubSeq(items, 1, Len(was)) = was
Append1 == [][SubSeq(items', 1, Len(items)) = items]_vars

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1][1] \o "3a" \o q[1][2] \o (IF Len(q) > 1 THEN "2c" ELSE "") \o Join(Tail(q))
Json_(q) == "7b" \o Join(q) \o "7d"

\* byte arrays: hex text or NoVal
Compare(a, b) == IF a = NoVal \/ b = NoVal THEN -1 ELSE IF a = b THEN 1 ELSE 0
================================================================================
