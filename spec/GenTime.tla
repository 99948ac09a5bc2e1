------------------------------- MODULE GenTime -------------------------------
(* Corner calendar times, and every single-character deviation of a few of them. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
S == INSTANCE TimeCodec WITH Starts <- {}, Steps <- 0, e <- 0, f <- <<>>, k <- 0
Corner == {<<y, m, d, h, n, s>> : y \in {1000, 1899, 1900, 1970, 2000, 2023, 2024, 2038, 9999}, m \in 1..12,
           d \in {1, 9, 10, 28, 29, 30, 31}, h \in {0, 9, 23}, n \in {0, 59}, s \in {0, 59}}
Base == {<<2024, 2, 29, 23, 59, 59>>, <<2023, 10, 31, 0, 0, 0>>}
Chars == (48..58) \cup {32, 43, 45, 84, 90, 116, 122, 47, 46}
Dev(t) == LET x == S!Format(t) IN
  {[x EXCEPT ![i] = c] : i \in 1..20, c \in Chars}
  \cup {SubSeq(x, 1, i) \o SubSeq(x, i + 2, 20) : i \in 0..19}
  \cup {SubSeq(x, 1, i) \o <<c>> \o SubSeq(x, i + 1, 20) : i \in 0..20, c \in Chars}
  \cup {SubSeq(x, 1, i) : i \in 0..19}
ASSUME ndJsonSerialize(IOEnv.OUT,
  SetToSeq({[k |-> "t", v |-> t] : t \in {c \in Corner : S!IsCalendar(c)}})
  \o SetToSeq({[k |-> "x", v |-> x] : x \in UNION {Dev(t) : t \in Base}}))
================================================================================
