-------------------------------- MODULE MCJson --------------------------------
(* Vouchers built attribute by attribute, written as text by the simplest writer, *)
(* must be read back; the text is then damaged by one step.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
J == INSTANCE VoucherJson
CONSTANT Full
VARIABLES v, x, phase
Vals(a) == CASE a \in J!Time -> {<<2024, 2, 29, 1, 2, 3>>}
             [] a = "assertion" -> IF Full THEN 1..3 ELSE {1, 3}
             [] a = "revchk" -> {TRUE}
             [] a = "serial" -> {<<>>, <<34, 92, 10, 200>>}
             [] OTHER -> {<<0>>, <<1, 2>>}
Used == IF Full THEN {"created", "assertion", "serial", "revchk", "nonce", "pinned"} ELSE {"expires", "assertion", "serial", "nonce", "revchk"}
Q(s) == <<34>> \o s \o <<34>>
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] \in {34, 92} THEN <<92, s[1]>>
                   ELSE IF s[1] < 32 THEN <<92, 117, 48, 48, Hex(s[1] \div 16), Hex(s[1] % 16)>> ELSE <<s[1]>>) \o Escape(Tail(s))
Text(a, y) == CASE a \in J!Time -> Q(J!Tm!Format(y)) [] a = "assertion" -> Q(J!Assertions[y])
                [] a = "revchk" -> (IF y THEN J!Tm!True_ ELSE J!Tm!False_) [] a = "serial" -> Q(Escape(y))
                [] OTHER -> Q(J!B64!Encode(y))
RECURSIVE Body(_, _)
Body(w, as) == IF as = <<>> THEN <<>>
               ELSE Q(J!Names[as[1]]) \o <<58>> \o Text(as[1], w[as[1]]) \o (IF Len(as) > 1 THEN <<44>> ELSE <<>>) \o Body(w, Tail(as))
Write(w) == <<123>> \o Q(J!Root) \o <<58, 123>> \o Body(w, SetToSeq(J!Held(w))) \o <<125, 125>>
Init == v = J!Fresh /\ x = Write(J!Fresh) /\ phase = "sound"
Fill == /\ phase = "sound"
        /\ \E a \in Used : \E y \in Vals(a) : v[a] = J!Empty(a) /\ y # v[a] /\ v' = [v EXCEPT ![a] = y]
        /\ x' = Write(v') /\ UNCHANGED phase
Cut == phase = "sound" /\ phase' = "cut" /\ UNCHANGED v /\ \E n \in (IF Full THEN 0..(Len(x) - 1) ELSE {0, 1, 20, 22, Len(x) - 2, Len(x) - 1}) : x' = SubSeq(x, 1, n)
\* an unknown attribute is added
Alien == phase = "sound" /\ phase' = "alien" /\ UNCHANGED v
         /\ x' = SubSeq(x, 1, Len(x) - 2) \o <<44>> \o Q(<<120>>) \o <<58>> \o Q(<<120>>) \o <<125, 125>>
Spec == Init /\ [][Fill \/ Cut \/ Alien]_<<v, x, phase>>
Sound == phase = "sound" => J!Verdict(x) = "must" /\ J!Reading(x) = v /\ J!IsSerialization(x, v)
Damaged == phase \in {"cut", "alien"} => J!Verdict(x) = "refuse"
\* must be reachable
NoFull == Cardinality(J!Held(v)) < 5
NoCut == phase # "cut"
NoAlien == phase # "alien"
================================================================================
