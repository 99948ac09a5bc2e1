------------------------------ MODULE VoucherJson ------------------------------
(* The JSON text of a voucher (RFC 8366): a JSON reader over byte sequences, what *)
(* a serialized voucher has to look like, and which texts may be read as which    *)
(* voucher.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
B64 == INSTANCE Base64 WITH MaxLen <- 0, Bytes <- {}, LineBreaks <- FALSE, data <- <<>>, txt <- <<>>
Tm == INSTANCE TimeCodec WITH Starts <- {}, Steps <- 0, e <- 0, f <- <<>>, k <- 0

(* ---------------- lexer: one fold over the bytes *)
Ws(c) == c \in {32, 9, 10, 13}
Punct(c) == c \in {123, 125, 91, 93, 58, 44}      \* { } [ ] : ,
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
             ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Esc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8
            [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

L0 == [m |-> "ws", cur |-> <<>>, esc |-> FALSE, lone |-> FALSE, odd |-> FALSE, mess |-> FALSE, n |-> 0, u |-> 0, hi |-> 0, t |-> <<>>]
TokS(s) == [k |-> "s", v |-> s.cur, e |-> s.esc, lone |-> s.lone]
TokW(s) == [k |-> "w", v |-> s.cur, e |-> FALSE, lone |-> FALSE]
TokP(c) == [k |-> "p", v |-> <<c>>, e |-> FALSE, lone |-> FALSE]
Start(s, c) ==
  IF Ws(c) THEN [s EXCEPT !.m = "ws"]
  ELSE IF Punct(c) THEN [s EXCEPT !.m = "ws", !.t = Append(@, TokP(c))]
  ELSE IF c = 34 THEN [s EXCEPT !.m = "str", !.cur = <<>>, !.esc = FALSE, !.lone = FALSE, !.hi = 0]
  ELSE [s EXCEPT !.m = "word", !.cur = <<c>>]
\* a pending high surrogate that is not followed by a low one
Flush(s) == IF s.hi = 0 THEN s ELSE [s EXCEPT !.hi = 0, !.lone = TRUE]
EndU(s, u) ==
  IF s.hi # 0 /\ u \in 56320..57343
  THEN [s EXCEPT !.m = "str", !.hi = 0, !.cur = @ \o Utf8(65536 + ((s.hi - 55296) * 1024) + (u - 56320))]
  ELSE LET g == Flush(s) IN
       IF u \in 55296..56319 THEN [g EXCEPT !.m = "str", !.hi = u]
       ELSE IF u \in 56320..57343 \/ u = 0 THEN [g EXCEPT !.m = "str", !.lone = TRUE]
       ELSE [g EXCEPT !.m = "str", !.cur = @ \o Utf8(u)]
Lex1(s, c) ==
  CASE s.m = "ws" -> Start(s, c)
    [] s.m = "word" -> IF c = 34 THEN Start([s EXCEPT !.t = Append(@, TokW(s)), !.mess = TRUE], c)   \* no JSON
                       ELSE IF Ws(c) \/ Punct(c) THEN Start([s EXCEPT !.t = Append(@, TokW(s))], c)
                       ELSE [s EXCEPT !.cur = Append(@, c)]
    [] s.m = "str" -> IF c = 34 THEN LET g == Flush(s) IN [g EXCEPT !.m = "ws", !.t = Append(@, TokS(g))]
                      ELSE IF c = 92 THEN [s EXCEPT !.m = "esc", !.esc = TRUE]
                      ELSE LET g == Flush(s) IN [g EXCEPT !.cur = Append(@, c), !.odd = @ \/ c < 32]
    [] s.m = "esc" -> IF c = 117 THEN [s EXCEPT !.m = "hex", !.n = 0, !.u = 0]
                      ELSE IF Esc(c) >= 0 THEN LET g == Flush(s) IN [g EXCEPT !.m = "str", !.cur = Append(@, Esc(c))]
                      ELSE [s EXCEPT !.m = "bad"]
    [] s.m = "hex" -> IF HexVal(c) < 0 THEN [s EXCEPT !.m = "bad"]
                      ELSE IF s.n = 3 THEN EndU(s, (s.u * 16) + HexVal(c))
                      ELSE [s EXCEPT !.n = @ + 1, !.u = (@ * 16) + HexVal(c)]
    [] OTHER -> s
Lex(x) == LET s == FoldLeft(Lex1, L0, x)
          IN IF s.m = "word" THEN [s EXCEPT !.m = "ws", !.t = Append(@, TokW(s))] ELSE s

(* ---------------- parser over the tokens *)
IsP(t, i, c) == i <= Len(t) /\ t[i].k = "p" /\ t[i].v = <<c>>
Digit(c) == c \in 48..57
\* JSON numbers: -? (0 | [1-9][0-9]* ) (. [0-9]+)? ([eE][+-]?[0-9]+)?
Num1(q, c) ==
  CASE q = "a" -> IF c = 45 THEN "b" ELSE IF c = 48 THEN "z" ELSE IF Digit(c) THEN "i" ELSE "x"
    [] q = "b" -> IF c = 48 THEN "z" ELSE IF Digit(c) THEN "i" ELSE "x"
    [] q = "z" -> IF c = 46 THEN "d" ELSE IF c \in {69, 101} THEN "e" ELSE "x"
    [] q = "i" -> IF Digit(c) THEN "i" ELSE IF c = 46 THEN "d" ELSE IF c \in {69, 101} THEN "e" ELSE "x"
    [] q = "d" -> IF Digit(c) THEN "f" ELSE "x"
    [] q = "f" -> IF Digit(c) THEN "f" ELSE IF c \in {69, 101} THEN "e" ELSE "x"
    [] q = "e" -> IF Digit(c) THEN "h" ELSE IF c \in {43, 45} THEN "g" ELSE "x"
    [] q = "g" -> IF Digit(c) THEN "h" ELSE "x"
    [] q = "h" -> IF Digit(c) THEN "h" ELSE "x"
    [] OTHER -> "x"
Null_ == <<110, 117, 108, 108>>
WordOk(w) == w \in {Tm!True_, Tm!False_, Null_} \/ FoldLeft(Num1, "a", w) \in {"z", "i", "f", "h"}
NoVal == [k |-> "none", v |-> <<>>, e |-> FALSE, lone |-> FALSE, m |-> <<>>]
Fail == [ok |-> FALSE, i |-> 0, v |-> NoVal]
Scalar(t) == [k |-> t.k, v |-> t.v, e |-> t.e, lone |-> t.lone, m |-> <<>>]
RECURSIVE Value(_, _), Members(_, _, _), Items(_, _, _)
Value(t, i) ==
  IF i > Len(t) THEN Fail
  ELSE IF t[i].k = "s" \/ (t[i].k = "w" /\ WordOk(t[i].v)) THEN [ok |-> TRUE, i |-> i + 1, v |-> Scalar(t[i])]
  ELSE IF IsP(t, i, 123) THEN (IF IsP(t, i + 1, 125) THEN [ok |-> TRUE, i |-> i + 2, v |-> [NoVal EXCEPT !.k = "obj"]]
                               ELSE Members(t, i + 1, <<>>))
  ELSE IF IsP(t, i, 91) THEN (IF IsP(t, i + 1, 93) THEN [ok |-> TRUE, i |-> i + 2, v |-> [NoVal EXCEPT !.k = "arr"]]
                              ELSE Items(t, i + 1, <<>>))
  ELSE Fail
Members(t, i, acc) ==
  IF ~(i <= Len(t) /\ t[i].k = "s" /\ IsP(t, i + 1, 58)) THEN Fail
  ELSE LET r == Value(t, i + 2) IN
       IF ~r.ok THEN Fail
       ELSE LET a == Append(acc, [key |-> t[i], val |-> r.v]) IN
            IF IsP(t, r.i, 44) THEN Members(t, r.i + 1, a)
            ELSE IF IsP(t, r.i, 125) THEN [ok |-> TRUE, i |-> r.i + 1, v |-> [NoVal EXCEPT !.k = "obj", !.m = a]]
            ELSE Fail
Items(t, i, acc) ==
  LET r == Value(t, i) IN
  IF ~r.ok THEN Fail
  ELSE LET a == Append(acc, r.v) IN
       IF IsP(t, r.i, 44) THEN Items(t, r.i + 1, a)
       ELSE IF IsP(t, r.i, 93) THEN [ok |-> TRUE, i |-> r.i + 1, v |-> [NoVal EXCEPT !.k = "arr", !.m = a]]
       ELSE Fail

Depth1(d, t) == IF t.k # "p" THEN d ELSE IF t.v \in {<<123>>, <<91>>} THEN d + 1 ELSE IF t.v \in {<<125>>, <<93>>} THEN d - 1 ELSE d
\* [cut]: the text stops in the middle; [ok]: it is JSON, with value v
Parse(x) ==
  LET s == Lex(x)
      cut == s.m \in {"str", "esc", "hex"} \/ (s.m = "ws" /\ FoldLeft(Depth1, 0, s.t) > 0)
      r == Value(s.t, 1)
      ok == s.m = "ws" /\ r.ok /\ r.i = Len(s.t) + 1
  IN [ok |-> ok /\ ~s.odd, cut |-> ~s.mess /\ (cut \/ s.m = "bad"), v |-> r.v, t |-> s.t, mess |-> s.mess]

(* ---------------- vouchers *)
Root == <<105,101,116,102,45,118,111,117,99,104,101,114,58,118,111,117,99,104,101,114>>
Names == [created |-> <<99,114,101,97,116,101,100,45,111,110>>,
  expires |-> <<101,120,112,105,114,101,115,45,111,110>>,
  assertion |-> <<97,115,115,101,114,116,105,111,110>>,
  serial |-> <<115,101,114,105,97,108,45,110,117,109,98,101,114>>,
  issuer |-> <<105,100,101,118,105,100,45,105,115,115,117,101,114>>,
  pinned |-> <<112,105,110,110,101,100,45,100,111,109,97,105,110,45,99,101,114,116>>,
  revchk |-> <<100,111,109,97,105,110,45,99,101,114,116,45,114,101,118,111,99,97,116,105,111,110,45,99,104,101,99,107,115>>,
  nonce |-> <<110,111,110,99,101>>,
  renewal |-> <<108,97,115,116,45,114,101,110,101,119,97,108,45,100,97,116,101>>,
  prior |-> <<112,114,105,111,114,45,115,105,103,110,101,100,45,118,111,117,99,104,101,114,45,114,101,113,117,101,115,116>>,
  proximity |-> <<112,114,111,120,105,109,105,116,121,45,114,101,103,105,115,116,114,97,114,45,99,101,114,116>>]
Attrs == DOMAIN Names
Time == {"created", "expires", "renewal"}
Bin == {"issuer", "pinned", "nonce", "prior", "proximity"}
Assertions == <<<<118,101,114,105,102,105,101,100>>, <<108,111,103,103,101,100>>, <<112,114,111,120,105,109,105,116,121>>>>
None == <<-1>>                           \* "not there" for texts and binaries
NoTime == <<1900, 1, 0, 0, 0, 0>>
Empty(a) == IF a \in Time THEN NoTime ELSE IF a = "assertion" THEN 0 ELSE IF a = "revchk" THEN FALSE ELSE None
Fresh == [a \in Attrs |-> Empty(a)]
Held(v) == {a \in Attrs : a = "revchk" \/ v[a] # Empty(a)}

\* what a member says: bad (must be refused), loose (may be refused), any (unclear)
Said(v, l) == [bad |-> FALSE, loose |-> l, any |-> FALSE, v |-> v]
Bad == [bad |-> TRUE, loose |-> FALSE, any |-> FALSE, v |-> 0]
Unclear == [bad |-> FALSE, loose |-> TRUE, any |-> TRUE, v |-> 0]
Member(a, w) ==
  LET b == w.v  str == w.k = "s" IN
  IF w.k \notin {"s", "w"} \/ w.lone THEN Bad
  ELSE IF a \in Time THEN (IF ~Tm!MayRead(b) THEN Bad ELSE Said(Tm!Read(b).t, ~(str /\ Tm!MustRead(b))))
  ELSE IF a = "assertion" THEN (IF \E i \in 1..3 : Assertions[i] = b THEN Said(CHOOSE i \in 1..3 : Assertions[i] = b, ~str) ELSE Bad)
  ELSE IF a = "revchk" THEN (IF Tm!ReadBool(b) < 0 THEN Bad
                             ELSE Said(Tm!ReadBool(b) = 1, ~(w.k = "w" /\ b \in {Tm!True_, Tm!False_})))
  ELSE IF a = "serial" THEN (IF Len(b) >= 128 THEN Bad ELSE Said(b, ~str))
  ELSE LET d == B64!Decode(b) IN
       IF d = {} THEN Unclear
       ELSE IF d = {B64!Refuse} THEN Bad
       ELSE LET g == CHOOSE z \in d : z.ok
            IN Said(g.bytes, ~(str /\ B64!Encode(g.bytes) = b))
NameOf(b) == IF \E a \in Attrs : Names[a] = b THEN CHOOSE a \in Attrs : Names[a] = b ELSE "unknown"
R0 == [bad |-> FALSE, loose |-> FALSE, any |-> FALSE, v |-> Fresh, seen |-> {}]
Read1(r, mb) ==
  LET a == NameOf(mb.key.v) IN
  IF a = "unknown" THEN [r EXCEPT !.bad = TRUE]
  ELSE LET s == Member(a, mb.val) IN
       [bad |-> r.bad \/ s.bad, loose |-> r.loose \/ s.loose \/ mb.key.e \/ a \in r.seen, any |-> r.any \/ s.any,
        v |-> IF s.bad \/ s.any THEN r.v ELSE [r.v EXCEPT ![a] = s.v], seen |-> r.seen \cup {a}]
ReadObj(o) == FoldLeft(Read1, R0, o.m)

\* Which results deserializing x may have
Verdict(x) ==
  LET p == Parse(x)
      tops == {i \in 1..Len(p.v.m) : p.v.m[i].key.v = Root}
      mentioned == \E i \in 1..Len(p.t) : p.t[i].v = Root
  IN IF \E i \in 1..Len(x) : x[i] = 0 THEN "any"
     ELSE IF p.cut THEN "refuse"
     ELSE IF ~p.ok THEN (IF mentioned \/ p.mess THEN "any" ELSE "refuse")
     ELSE IF p.v.k # "obj" \/ ~mentioned THEN "refuse"
     ELSE IF tops = {} THEN "any"
     ELSE IF Cardinality(tops) > 1 THEN "any"
     ELSE LET o == p.v.m[CHOOSE i \in tops : TRUE] IN
          IF o.val.k # "obj" THEN (IF Len(p.v.m) = 1 THEN "refuse" ELSE "any")
          ELSE LET r == ReadObj(o.val) IN
               IF r.bad THEN (IF Len(p.v.m) = 1 THEN "refuse" ELSE "any")
               ELSE IF r.any THEN "any"
               ELSE IF r.loose \/ o.key.e \/ Len(p.v.m) > 1 THEN "may" ELSE "must"
Reading(x) == LET p == Parse(x)
                  o == p.v.m[CHOOSE i \in 1..Len(p.v.m) : p.v.m[i].key.v = Root]
              IN ReadObj(o.val).v

\* x is the serialization of voucher v
IsSerialization(x, v) ==
  LET p == Parse(x) IN
  /\ p.ok /\ p.v.k = "obj" /\ Len(p.v.m) = 1
  /\ p.v.m[1].key.v = Root /\ p.v.m[1].val.k = "obj"
  /\ LET m == p.v.m[1].val.m IN
     /\ {NameOf(m[i].key.v) : i \in 1..Len(m)} = Held(v) /\ Len(m) = Cardinality(Held(v))
     /\ \A i \in 1..Len(m) :
          LET a == NameOf(m[i].key.v)  w == m[i].val IN
          /\ w.k = (IF a = "revchk" THEN "w" ELSE "s")
          /\ ~w.lone
          /\ w.v = (CASE a \in Time -> Tm!Format(v[a])
                      [] a = "assertion" -> Assertions[v[a]]
                      [] a = "revchk" -> (IF v[a] THEN Tm!True_ ELSE Tm!False_)
                      [] a = "serial" -> v[a]
                      [] OTHER -> B64!Encode(v[a]))
================================================================================
