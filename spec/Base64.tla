-------------------------------- MODULE Base64 --------------------------------
(* Base64 text as a function on sequences of byte values.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

PAD == 61
Digit(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v
            ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
IsDigit(c) == c \in (65..90) \cup (97..122) \cup (48..57) \cup {43, 47}
Value(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
            ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63

\* the text of group g (1, 2, ...) of the bytes b
Group(b, g) ==
  LET at(k) == LET i == 3 * (g - 1) + k IN IF i <= Len(b) THEN b[i] ELSE 0
      have == Len(b) - 3 * (g - 1)
  IN << Digit(at(1) \div 4),
        Digit((at(1) % 4) * 16 + at(2) \div 16),
        IF have > 1 THEN Digit((at(2) % 16) * 4 + at(3) \div 64) ELSE PAD,
        IF have > 2 THEN Digit(at(3) % 64) ELSE PAD >>
Encode(b) == LET n == 4 * ((Len(b) + 2) \div 3)
             IN [i \in 1..n |-> Group(b, ((i - 1) \div 4) + 1)[((i - 1) % 4) + 1]]

\* bytes given by digits d (Len(d) % 4 # 1)
DecodeDigits(d) ==
  LET n == (Len(d) * 3) \div 4
      v(i) == IF i <= Len(d) THEN Value(d[i]) ELSE 0
      byte(j) == LET g == (j - 1) \div 3  k == (j - 1) % 3  a == 4 * g
                 IN CASE k = 0 -> v(a+1) * 4 + v(a+2) \div 16
                      [] k = 1 -> (v(a+2) % 16) * 16 + v(a+3) \div 4
                      [] OTHER -> (v(a+3) % 4) * 64 + v(a+4)
  IN [j \in 1..n |-> byte(j)]

\* the characters that count
Significant(t) == SelectSeq(t, LAMBDA c : IsDigit(c) \/ c = PAD)
FirstPad(s) == IF \E i \in 1..Len(s) : s[i] = PAD
               THEN CHOOSE i \in 1..Len(s) : s[i] = PAD /\ \A j \in 1..(i-1) : s[j] # PAD
               ELSE Len(s) + 1

Refuse == [ok |-> FALSE, bytes |-> <<>>]
Give(b) == [ok |-> TRUE, bytes |-> b]
\* Verdict: the set of allowed results, {} standing for "anything that is safe"
Decode(t) ==
  LET s == Significant(t)
      k == FirstPad(s)
      d == SubSeq(s, 1, k - 1)
      r == (k - 1) % 4
      rest == SubSeq(s, k, Len(s))
      inGroup == SubSeq(rest, 1, IF Len(rest) < 4 - r THEN Len(rest) ELSE 4 - r)
      onlyPads == \A i \in 1..Len(inGroup) : inGroup[i] = PAD
      more == Len(rest) > 4 - r
  IN IF s = <<>> THEN {Refuse}
     ELSE IF rest = <<>> THEN (IF r = 1 THEN {Refuse} ELSE {Give(DecodeDigits(d))})
     ELSE IF r \in {0, 1} THEN (IF onlyPads THEN {Refuse} ELSE {})
     ELSE IF ~onlyPads THEN {}
     ELSE IF more THEN {Refuse, Give(DecodeDigits(d))}
     ELSE {Give(DecodeDigits(d))}

CONSTANTS MaxLen, Bytes, LineBreaks
VARIABLES data, txt
Init == data = <<>> /\ txt = <<>>
Append1 == /\ Len(data) < MaxLen
           /\ \E x \in Bytes : data' = Append(data, x) /\ txt' = Encode(data')
\* a line break may be inserted anywhere without effect
Break == /\ LineBreaks /\ Len(txt) > 0 /\ Len(txt) = Len(Encode(data))
         /\ \E i \in 0..Len(txt) : txt' = SubSeq(txt, 1, i) \o <<10>> \o SubSeq(txt, i + 1, Len(txt))
         /\ UNCHANGED data
Next == Append1 \/ Break
Spec == Init /\ [][Next]_<<data, txt>>
RoundTrip == data # <<>> => Decode(txt) = {Give(data)}
Shape == Len(Encode(data)) % 4 = 0 /\ Cardinality({i \in 1..Len(Encode(data)) : Encode(data)[i] = PAD}) = (3 - (Len(data) % 3)) % 3
================================================================================
