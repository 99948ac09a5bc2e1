------------------------------- MODULE Holdings -------------------------------
(* What a process holds - memory, open files, threads - while it answers the     *)
(* same requests over and over. Answering takes things stage by stage, may be    *)
(* refused at any stage (which the request decides), and gives back what it      *)
(* took. Two things may stay: what a stage sets up once for ever, and a ring of  *)
(* a few records that later ones overwrite (as the error queue of OpenSSL).      *)
(* Neither grows without end. A slip is a path that does not give back.          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Stages,     \* how many stages there are
          Rounds, Ring, Errs,
          Slips       \* the slips considered
VARIABLES fate,       \* the stage at which it is refused; Stages + 1: accepted
          size,       \* what each stage takes
          writes,     \* what a round writes into the ring
          slip,       \* the slips of this implementation
          stage, own, \* now at this stage, holding the sizes of these stages
          lost, once, ring, at, hist
vars == <<fate, size, writes, slip, stage, own, lost, once, ring, at, hist>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Held == Sum(own) + lost + Cardinality(once) + Sum(ring)

(* How it shows: the rounds in four parts, the first of which is for settling.   *)
(* What leaks raises the least held from part to part, and again and again the   *)
(* most held so far.                                                             *)
Part(h, k) == {h[i] : i \in (((k-1) * Len(h)) \div 4) + 1 .. ((k * Len(h)) \div 4)}
Records(h) == {i \in (Len(h) \div 2) + 1 .. Len(h) : \A j \in 1..i-1 : h[j] < h[i]}
Grows(h) == /\ Len(h) >= 8
            /\ Min(Part(h, 2)) < Min(Part(h, 3)) /\ Min(Part(h, 3)) < Min(Part(h, 4))
            /\ 8 * Cardinality(Records(h)) >= Len(h)

Init == /\ fate \in 1..Stages+1 /\ size \in [1..Stages -> 1..2] /\ writes \in Errs /\ slip \in SUBSET Slips
        /\ stage = 0 /\ own = <<>> /\ lost = 0 /\ once = {} /\ ring = [i \in 1..Ring |-> 0] /\ at = 1 /\ hist = <<>>
RECURSIVE Write(_, _, _)
Write(r, p, q) == IF q = <<>> THEN r ELSE Write([r EXCEPT ![p] = Head(q)], (p % Ring) + 1, Tail(q))
Begin == /\ stage = 0 /\ Len(hist) < Rounds
         /\ stage' = 1
         /\ UNCHANGED <<fate, size, writes, slip, own, lost, once, ring, at, hist>>
Take == /\ stage \in 1..Stages /\ stage < fate
        /\ own' = Append(own, size[stage]) /\ once' = once \cup {stage} /\ stage' = stage + 1
        /\ UNCHANGED <<fate, size, writes, slip, lost, ring, at, hist>>
\* what is given back at the end of a round, and what a slip keeps of it
Kept == IF own = <<>> THEN 0
        ELSE IF fate <= Stages /\ "refusal" \in slip THEN own[Len(own)]
        ELSE IF fate > Stages /\ "success" \in slip THEN own[1] ELSE 0
End == /\ stage = fate
       /\ lost' = lost + Kept /\ own' = <<>> /\ stage' = 0
       /\ ring' = IF fate <= Stages THEN Write(ring, at, writes) ELSE ring
       /\ at' = IF fate <= Stages THEN ((at + Len(writes) - 1) % Ring) + 1 ELSE at
       /\ hist' = Append(hist, Sum(own') + lost' + Cardinality(once) + Sum(ring'))
       /\ UNCHANGED <<fate, size, writes, slip, once>>
Next == Begin \/ Take \/ End
\* what a round may write there
SomeErrs == {<<>>, <<2>>, <<0, 2>>, <<1, 0>>, <<2, 0, 1>>, <<1, 2, 0, 2>>}
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == Len(hist) = Rounds
\* nothing is lost: what is held between two rounds stays within what may stay
Bounded == stage = 0 => Held <= Stages + Ring * 2
\* the judgement is right: what grows is what is lost, with every round
Judged == Over => (Grows(hist) <=> lost > 0)
Steady == Over => ~Grows(hist)
Finishes == <>Over
================================================================================
