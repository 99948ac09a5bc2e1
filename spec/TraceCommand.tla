------------------------------ MODULE TraceCommand ------------------------------
(* Runs of the real program with all kinds of command lines, in a directory with two   *)
(* configurations C1 and C2 and two certificates F1 and F2, and servers at every       *)
(* address of Addrs and port of Ports that note who calls and hang up.                  *)
EXTENDS TraceBase, FiniteSets
C == INSTANCE Command WITH Lax <- {}, args <- <<>>, p <- <<>>
S(q) == {q[i] : i \in 1..Len(q)}
Confs == {<<"C", "1">>, <<"C", "2">>}
Certs == {<<"F", "1">>, <<"F", "2">>}
Addrs == {<<"A", "1">>, <<"A", "2">>}
Ports == {<<"P", "1">>, <<"P", "2">>}
\* where the configurations point to
Home(c) == IF c = <<"C", "1">> THEN [a |-> <<"A", "1">>, p |-> <<"P", "1">>] ELSE [a |-> <<"A", "2">>, p |-> <<"P", "2">>]
Nothing(e) == e.printed = <<>> /\ e.files = <<>>
Slash(v) == \E i \in 1..Len(v) : v[i] = "/"
Smime == <<".", "s", "m", "i", "m", "e">>
Run(q, e) ==
  LET cmd == q.ops[1]  c == q.val["c"]  i == q.val["i"]  o == q.val["o"]  a == q.val["a"]  n == q.val["p"]
      at == Home(c)  is(x) == cmd = x IN
  /\ e.err => q.d
  /\ IF is(<<"s", "e", "r", "i", "a", "l">>) THEN
       /\ e.tried = <<>> /\ e.files = <<>>
       /\ IF i \in Certs THEN e.exit = 0 /\ e.printed = <<[what |-> "serial", of |-> i]>> ELSE e.exit = 1 /\ e.printed = <<>>
     ELSE IF c \notin Confs THEN e.exit = 1 /\ Nothing(e) /\ e.tried = <<>>
     ELSE IF is(<<"e", "p", "v", "r">>) THEN
       /\ e.tried = <<>>
       /\ LET made == [what |-> "pvr", of |-> c] IN
          IF o = <<>> THEN e.exit = 0 /\ e.printed = <<made>> /\ e.files = <<>>
          ELSE IF Slash(o) THEN e.exit = 1 /\ Nothing(e)
          ELSE e.exit = 0 /\ e.printed = <<>> /\ e.files = <<[name |-> o \o Smime, is |-> made]>>
     ELSE IF is(<<"p", "r", "e", "q">>) \/ is(<<"s", "i", "g", "n">>) THEN
       /\ e.exit = 1 /\ Nothing(e)
       /\ IF a # <<>> /\ a \notin Addrs THEN e.tried = <<>>
          ELSE n = <<>> \/ n \in Ports => S(e.tried) = {[a |-> IF a = <<>> THEN at.a ELSE a, p |-> IF n = <<>> THEN at.p ELSE n]}
     ELSE \* no voucher comes, and the servers have no certificates here
       /\ Nothing(e) /\ e.tried = <<>> /\ (is(<<"v", "m", "a", "s", "a">>) => e.exit = 1)
Did(e) == LET q == C!Read(e.args) IN
  IF q.end = "run" THEN e.kind = "run" /\ Run(q, e)
  ELSE /\ e.kind = q.end /\ e.exit = (IF q.end = "usage" THEN 1 ELSE 0)
       /\ e.tried = <<>> /\ e.files = <<>> /\ ~e.err
TraceNext == Consume /\ Did(Ev)
TraceSpec == BaseInit /\ [][TraceNext]_<<sid, l>>
=================================================================================
