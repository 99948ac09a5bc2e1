------------------------------ MODULE TimeCodec ------------------------------
(* Times <<Y, M, D, h, m, s>> as the text YYYY-MM-DDThh:mm:ssZ (RFC 8366), the  *)
(* UTC clock, and the text of booleans. Texts are sequences of character codes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
D4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Format(t) == D4(t[1]) \o <<45>> \o D2(t[2]) \o <<45>> \o D2(t[3]) \o <<84>> \o
             D2(t[4]) \o <<58>> \o D2(t[5]) \o <<58>> \o D2(t[6]) \o <<90>>

Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28)
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
IsCalendar(t) == /\ t[1] \in 1000..9999 /\ t[2] \in 1..12 /\ t[3] \in 1..MonthLen(t[1], t[2])
                 /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..60

(* ---- reading a text *)
IsNum(c) == c \in 48..57
\* one numeric field of at most w digits, after blanks: <<ok, value, next position, strict>>
RECURSIVE SkipSp(_, _)
SkipSp(x, i) == IF i <= Len(x) /\ x[i] \in {32, 9, 10, 11, 12, 13} THEN SkipSp(x, i + 1) ELSE i
RECURSIVE Digits(_, _, _, _)
Digits(x, i, w, v) == IF w > 0 /\ i <= Len(x) /\ IsNum(x[i]) THEN Digits(x, i + 1, w - 1, v * 10 + (x[i] - 48))
                      ELSE [v |-> v, i |-> i, left |-> w]
Bad == [ok |-> FALSE, v |-> 0, i |-> 0, strict |-> FALSE]
Field(x, i, w, lo, hi, sep) ==
  LET j == SkipSp(x, i)
      d == Digits(x, j, w, 0)
      k == d.i
  IN IF k = j \/ d.v < lo \/ d.v > hi \/ k > Len(x) \/ (k <= Len(x) /\ x[k] # sep) THEN Bad
     ELSE [ok |-> TRUE, v |-> d.v, i |-> k + 1, strict |-> j = i /\ d.left = 0]

\* [ok, t, strict]: strict when every field has all its digits and no blanks
Read(x) ==
  LET y == Field(x, 1, 4, 0, 9999, 45)
      m == IF y.ok THEN Field(x, y.i, 2, 1, 12, 45) ELSE Bad
      d == IF m.ok THEN Field(x, m.i, 2, 1, 31, 84) ELSE Bad
      h == IF d.ok THEN Field(x, d.i, 2, 0, 23, 58) ELSE Bad
      n == IF h.ok THEN Field(x, h.i, 2, 0, 59, 58) ELSE Bad
      s == IF n.ok THEN Field(x, n.i, 2, 0, 61, 90) ELSE Bad
  IN [ok |-> s.ok, t |-> <<y.v, m.v, d.v, h.v, n.v, s.v>>,
      strict |-> s.ok /\ y.strict /\ m.strict /\ d.strict /\ h.strict /\ n.strict /\ s.strict,
      exact |-> s.ok /\ s.i = Len(x) + 1]
\* text that must be accepted; text that may be (left out zeros, trailing text, 31 February)
MustRead(x) == LET r == Read(x) IN r.strict /\ r.exact /\ IsCalendar(r.t)
MayRead(x) == Read(x).ok

(* ---- the clock: seconds since 1970-01-01T00:00:00Z *)
Civil(e) ==
  LET days == e \div 86400   sod == e % 86400
      z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == ((doe - (doe \div 1460)) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (((365 * yoe) + (yoe \div 4)) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      d == (doy - (((153 * mp) + 2) \div 5)) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + (era * 400) + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d, sod \div 3600, (sod % 3600) \div 60, sod % 60>>

(* ---- booleans *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
True_ == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>
ReadBool(x) == LET w == [i \in 1..Len(x) |-> Lower(x[i])]
               IN IF w = True_ \/ x = <<49>> THEN 1 ELSE IF w = False_ \/ x = <<48>> THEN 0 ELSE -1

(* ---- model: a running clock whose calendar fields are advanced by hand *)
CONSTANTS Starts, Steps
VARIABLES e, f, k
\* the day after, from the calendar rules alone
Carry(t) ==
  LET s1 == IF t[6] = 59 THEN <<t[5] + 1, 0>> ELSE <<t[5], t[6] + 1>>
      m1 == IF s1[1] = 60 THEN <<t[4] + 1, 0>> ELSE <<t[4], s1[1]>>
      h1 == IF m1[1] = 24 THEN <<t[3] + 1, 0>> ELSE <<t[3], m1[1]>>
      d1 == IF h1[1] > MonthLen(t[1], t[2]) THEN <<t[2] + 1, 1>> ELSE <<t[2], h1[1]>>
      o1 == IF d1[1] = 13 THEN <<t[1] + 1, 1>> ELSE <<t[1], d1[1]>>
  IN <<o1[1], o1[2], d1[2], h1[2], m1[2], s1[2]>>
Init == e \in Starts /\ f = Civil(e) /\ k = 0
Tick == k < Steps /\ e' = e + 1 /\ f' = Carry(f) /\ k' = k + 1
Spec == Init /\ [][Tick]_<<e, f, k>>
ClockRight == f = Civil(e) /\ IsCalendar(f)
RoundTrip == LET x == Format(f) IN MustRead(x) /\ Read(x).t = f /\ Len(x) = 20
================================================================================
