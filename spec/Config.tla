-------------------------------- MODULE Config --------------------------------
(* Loading the configuration file, line by line. A file is a sequence of lines:   *)
(* a section header, a key with its value, or nothing of interest. Every section   *)
(* and every key with a single value is written at most once.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS One,    \* One[s]: the keys of section s with a single value
          Many,   \* Many[s]: the keys of section s with a list of values
          Names, Vals, Empty, MaxLines \* for the exhaustive exploration
VARIABLES cur,   \* the section read at present ("": none yet)
          one,   \* the single values written so far
          many,  \* the lists so far
          file   \* the lines read
cvars == <<cur, one, many, file>>
Sections == DOMAIN One
Slots(K) == {<<s, k>> : s \in Sections, k \in UNION {K[s] : s \in Sections}}
Unset == "unset" \* never written, as opposed to written and empty

CInit == /\ cur = "" /\ file = <<>>
         /\ one = [p \in Slots(One) |-> Unset]
         /\ many = [p \in Slots(Many) |-> <<>>]
Header(s) == /\ cur' = s /\ UNCHANGED <<one, many>>
Value(k, v) ==
  /\ UNCHANGED cur
  /\ IF cur \in Sections /\ k \in One[cur]
     THEN one' = [one EXCEPT ![<<cur, k>>] = v] ELSE UNCHANGED one
  /\ IF cur \in Sections /\ k \in Many[cur] /\ v # Empty
     THEN many' = [many EXCEPT ![<<cur, k>>] = Append(@, v)] ELSE UNCHANGED many
Other == UNCHANGED <<cur, one, many>>

\* what a role gets: an empty value counts as none, a default stands for an absent one
Single(s, k, def, none) == LET v == one[<<s, k>>] IN IF v = Unset THEN def ELSE IF v = Empty THEN none ELSE v
List(s, k) == many[<<s, k>>]

\* exhaustively, over small files
Seen(s) == \E i \in 1..Len(file) : file[i].t = "sec" /\ file[i].s = s
RECURSIVE SectionAt(_)
SectionAt(i) == IF i = 0 THEN "" ELSE IF file[i].t = "sec" THEN file[i].s ELSE SectionAt(i - 1)
Written(s, k) == {i \in 1..Len(file) : file[i].t = "val" /\ file[i].k = k /\ SectionAt(i) = s}
ReadHeader(s) == /\ Len(file) < MaxLines /\ ~Seen(s) /\ Header(s) /\ file' = Append(file, [t |-> "sec", s |-> s])
ReadValue(k, v) == /\ Len(file) < MaxLines
                   /\ (cur \in Sections /\ k \in One[cur]) => Written(cur, k) = {}
                   /\ Value(k, v) /\ file' = Append(file, [t |-> "val", k |-> k, v |-> v])
ReadOther == /\ Len(file) < MaxLines /\ Other /\ file' = Append(file, [t |-> "no"])
CNext == \/ \E s \in Sections \cup {"elsewhere"} : ReadHeader(s)
         \/ \E k \in Names, v \in Vals : ReadValue(k, v)
         \/ ReadOther
CSpec == CInit /\ [][CNext]_cvars

\* exactly what is written under the section, whatever stands around it
RECURSIVE InOrder(_, _)
InOrder(S, i) == IF i > Len(file) THEN <<>> ELSE (IF i \in S /\ file[i].v # Empty THEN <<file[i].v>> ELSE <<>>) \o InOrder(S, i + 1)
AsWritten == /\ \A p \in Slots(One) : p[2] \in One[p[1]] =>
                  one[p] = IF Written(p[1], p[2]) = {} THEN Unset ELSE file[CHOOSE i \in Written(p[1], p[2]) : TRUE].v
             /\ \A p \in Slots(Many) : p[2] \in Many[p[1]] => many[p] = InOrder(Written(p[1], p[2]), 1)
NoLeak == /\ \A p \in Slots(One) : p[2] \notin One[p[1]] => one[p] = Unset
          /\ \A p \in Slots(Many) : p[2] \notin Many[p[1]] => many[p] = <<>>
\* the order of sections and of the keys in them does not matter: loading any other
\* arrangement with the same values under the same sections gives the same
RECURSIVE Load(_, _)
Load(q, st) == IF q = <<>> THEN st ELSE
  LET e == Head(q) IN Load(Tail(q),
    IF e.t = "sec" THEN [st EXCEPT !.cur = e.s]
    ELSE IF e.t = "no" THEN st
    ELSE [st EXCEPT !.one = IF st.cur \in Sections /\ e.k \in One[st.cur] THEN [@ EXCEPT ![<<st.cur, e.k>>] = e.v] ELSE @,
                    !.many = IF st.cur \in Sections /\ e.k \in Many[st.cur] /\ e.v # Empty THEN [@ EXCEPT ![<<st.cur, e.k>>] = Append(@, e.v)] ELSE @])
Start == [cur |-> "", one |-> [p \in Slots(One) |-> Unset], many |-> [p \in Slots(Many) |-> <<>>]]
RECURSIVE SectionLines(_, _)
SectionLines(s, i) == IF i > Len(file) THEN <<>> ELSE (IF SectionAt(i) = s /\ file[i].t = "val" THEN <<file[i]>> ELSE <<>>) \o SectionLines(s, i + 1)
Swapped(f) == LET sing == SelectSeq(f, LAMBDA e : e.k \in UNION {One[s] : s \in Sections})
                  mult == SelectSeq(f, LAMBDA e : e.k \notin UNION {One[s] : s \in Sections}) IN mult \o sing
OrderFree ==
  \A a \in Sections : \A b \in Sections \ {a} :
    (Sections = {a, b} /\ Seen(a) /\ Seen(b)) =>
      LET r == Load(<<[t |-> "sec", s |-> a]>> \o Swapped(SectionLines(a, 1)) \o <<[t |-> "sec", s |-> b]>> \o SectionLines(b, 1), Start)
      IN r.one = one /\ r.many = many

\* certificate files: all of them in order, or nothing
Certs(files) == IF \A i \in 1..Len(files) : files[i].ok THEN [i \in 1..Len(files) |-> files[i].cert] ELSE <<>>
AllOk(files) == \A i \in 1..Len(files) : files[i].ok
================================================================================
