-------------------------------- MODULE GenSched --------------------------------
(* Plans by which requests that are under way at once take turns: a plan is a list of  *)
(* turns, each a request and the number of its points it may pass before it is stopped. *)
(* All with two interruptions of N points: one of two requests is interrupted, and then  *)
(* the other; or one within the other; or three nested.                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets, SequencesExt
Num(s) == CHOOSE n \in 0..200 : ToString(n) = s
N == Num(IOEnv.N)
All == 1000000
T(t, k) == [t |-> t, k |-> k]
Two == UNION {LET o == 1 - a IN
  {<<T(a, i), T(o, All)>> : i \in 0..N} \cup {<<T(a, i), T(o, j), T(a, All)>> : i \in 0..N, j \in 0..N}
  : a \in {0, 1}}
\* a stops, o starts and stops, a goes a bit further, o ends
Weave == UNION {LET o == 1 - a IN {<<T(a, i), T(o, j), T(a, k), T(o, All)>> : i \in 0..N, j \in 0..N, k \in 1..3} : a \in {0, 1}}
Three == UNION {LET b == (a + 1) % 3  c == (a + 2) % 3 IN
  {<<T(a, i), T(b, j), T(c, All)>> : i \in 0..N, j \in 0..N} \cup {<<T(a, i), T(b, j), T(c, All), T(b, All)>> : i \in 0..N, j \in 0..N}
  : a \in 0..2}
Plans == CASE IOEnv.SHAPE = "two" -> Two [] IOEnv.SHAPE = "weave" -> Weave [] OTHER -> Three
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[plan |-> p] : p \in Plans}))
================================================================================
