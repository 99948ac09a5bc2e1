------------------------------- MODULE GenRules -------------------------------
(* Questions to ask of the message functions: everything that is at most Dev        *)
(* deviations away from the good case. The values are kinds, which the driver of     *)
(* the real code turns into bytes and certificates; the first kind is the good one.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets, FiniteSetsExt, SequencesExt
Dev == IF IOEnv.DEV = "3" THEN 3 ELSE 2
Serial == <<"same", "unset", "prefix", "longer", "case", "other", "space">>
Signer == <<"good", "ca", "selfsigned", "impostor", "forged", "expired", "both">>
Intact == <<"yes", "no">>
Content == <<"voucher", "text", "otherjson", "empty">>
Store == <<"good", "none", "empty", "other", "crlother", "crlsigner", "noca">>
Key == <<"ec", "rsa", "wrong">>
Add == <<"none", "empty", "one", "two">>
F ==
 [pvr |-> [serial |-> <<"same", "unset", "long">>, nonce |-> <<"n", "unset", "big", "zero">>, tls |-> <<"tls", "ca", "garbage", "unset">>,
           key |-> Key, add |-> Add, created |-> <<"now", "old", "leap">>],
  rvr |-> [serial |-> Serial, prox |-> <<"tls", "unset", "other", "twin", "cut", "more", "bit">>, assertion |-> <<"proximity", "verified", "logged", "unset">>,
           nonce |-> <<"n", "unset", "big">>, extra |-> <<"no", "yes">>, content |-> Content, signer |-> Signer, intact |-> Intact, store |-> Store,
           peer |-> <<"given", "unset">>, issuer |-> <<"given", "unset", "der">>, key |-> Key, add |-> Add],
  masa |-> [serial |-> Serial, nonce |-> <<"n", "unset", "big", "other">>, extra |-> <<"no", "yes">>, content |-> Content, signer |-> Signer, intact |-> Intact, store |-> Store,
            prior |-> <<"good", "unset", "garbage", "rvr", "notvoucher">>, pserial |-> <<"same", "unset", "other">>, psigner |-> Signer, pintact |-> Intact, pstore |-> Store,
            pextra |-> <<"no", "yes", "logged">>,
            cb |-> <<"yes", "no", "empty", "none">>, expires |-> <<"given", "unset">>, pinned |-> <<"ca", "garbage", "byte", "big">>, key |-> Key, add |-> Add],
  verify |-> [serial |-> Serial, own |-> <<"given", "unset">>, nonce |-> <<"own", "unset", "other", "prefix", "longer">>, asked |-> <<"nonce", "no">>, extra |-> <<"no", "yes">>,
              content |-> Content, signer |-> Signer, intact |-> Intact, store |-> Store,
              pinned |-> <<"ca", "tls", "otherca", "twinca", "unset", "garbage", "root">>, tls |-> <<"tls", "sub", "forged", "other">>,
              dom |-> <<"none", "root", "other", "empty", "pinned", "twin">>, out |-> <<"yes", "no">>]]
Good(op) == [f \in DOMAIN F[op] |-> F[op][f][1]]
Bad(op, f) == {F[op][f][i] : i \in 2..Len(F[op][f])}
RECURSIVE Spread(_, _, _)
Spread(op, c, fs) == IF fs = {} THEN {c} ELSE LET f == CHOOSE x \in fs : TRUE IN
  UNION {Spread(op, [c EXCEPT ![f] = v], fs \ {f}) : v \in Bad(op, f)}
Cases(op) == UNION {Spread(op, Good(op), fs) : fs \in UNION {kSubset(k, DOMAIN F[op]) : k \in 0..Dev}}
Op == IOEnv.OP
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(Op)))
===============================================================================
