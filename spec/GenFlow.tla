-------------------------------- MODULE GenFlow --------------------------------
(* Situations to put the servers and the pledge into: everything at most Dev          *)
(* deviations away from the good case (the first kind of each field).                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets, FiniteSetsExt, SequencesExt
Dev == IF IOEnv.DEV = "3" THEN 3 ELSE IF IOEnv.DEV = "1" THEN 1 ELSE 2
Content == <<"voucher", "text", "otherjson", "empty">>
Enc == <<"plain", "lines", "nopad", "garbage", "empty", "cut", "one", "nul", "tail", "notcms">>
How == <<"swap", "missing", "empty", "junk", "der", "both", "text", "unset">>
\* what the attacker has for a pledge's request, a registrar's, a voucher
PVR == <<"none", "old", "twin", "q", "qasp", "xp", "proxx", "proxunset", "logged", "tamper", "otherserial", "nonceless", "othernonce", "text", "both", "rvr">>
RVR == <<"none", "old", "xs", "xsq", "q", "p", "mixed", "tamper", "othernonce", "priorx", "priortamper", "noprior", "text">>
VOUCHER == <<"none", "old", "q", "nonceless", "othernonce", "pinx", "pint", "pinsub", "byxs", "byq", "byrs", "self", "both", "tamper", "pinunset", "pinjunk", "text", "garbage", "empty", "rvr">>
F ==
 [reg |-> [peer |-> <<"P", "none", "PN", "Q", "XP", "RS", "NUL", "long">>, enc |-> Enc, content |-> Content, serial |-> <<"same", "unset", "other">>, prox |-> <<"RT", "unset", "RT2", "XT">>,
           assertion |-> <<"proximity", "logged", "unset">>, nonce |-> <<"own", "unset">>, signer |-> <<"own", "Q", "XP", "RS", "both">>, intact |-> <<"yes", "no">>,
           file |-> <<"none", "r.tlscert", "r.tlskey", "r.signcert", "r.signkey", "r.add0", "r.certs0", "r.store0", "r.tlsca", "m.signcert", "m.store0", "m.ldevid", "p.signcert">>, how |-> How,
           masa |-> <<"up", "fail", "client", "400", "401", "404", "500", "503", "599", "other", "empty">>],
  masa |-> [enc |-> Enc, content |-> Content, serial |-> <<"same", "unset", "other">>, nonce |-> <<"own", "unset", "other">>, prior |-> <<"good", "unset", "garbage", "text", "rvr">>,
            psigner |-> <<"own", "Q", "XP", "both">>, pserial |-> <<"same", "unset", "other">>, signer |-> <<"RS", "XS", "P", "MS", "both">>, intact |-> <<"yes", "no">>, pintact |-> <<"yes", "no">>,
            file |-> <<"none", "m.ldevid", "m.signcert", "m.signkey", "m.tlscert", "m.add0", "m.certs0", "m.store0", "r.certs0", "r.store0", "r.add0", "r.signcert", "r.tlscert", "m.tlsca">>, how |-> How,
            peer |-> <<"RT", "none", "P">>, expires |-> <<"good", "unset", "bad", "date", "range", "leap">>],
  attack |-> [p1 |-> <<"RT", "XT", "FT", "RT2">>, p2 |-> <<"RT", "XT", "FT", "RT2">>, regin |-> PVR, masain |-> RVR, masaout |-> VOUCHER, regout |-> VOUCHER, client |-> <<"P", "Q", "none">>,
              drop |-> <<"none", "reg.0", "reg.1", "masa.0">>],
  enrol |-> [peer |-> <<"P", "none", "PN", "RS", "odd", "NUL", "big">>, enc |-> <<"plain", "lines", "nopad", "garbage", "empty", "cut", "one", "nul", "tail">>,
             body |-> <<"ec", "rsa", "ca", "exts", "odd", "noname", "v1", "big", "neg", "issued", "expired", "NUL", "key", "cms", "csr", "junk", "long">>,
             file |-> <<"none", "r.tlsca", "r.tlscakey", "r.tlscert", "r.signcert">>, how |-> How],
  pins |-> [v |-> [i \in 1..Len(VOUCHER)-1 |-> VOUCHER[i+1]], enc |-> <<"plain", "garbage", "empty", "notcms">>, tls |-> <<"RT", "RT2", "XT", "DR", "FT", "DI", "P">>,
            nonce |-> <<"deployed", "unset", "byte", "zero", "long", "bad1", "bad2", "bad3", "bad4">>, serial |-> <<"deployed", "unset", "other", "longest", "toolong">>,
            file |-> <<"none", "p.store0", "p.certs0", "p.idcert", "p.signcert", "p.signkey", "p.add0", "r.tlscert", "m.signcert", "r.store0">>, how |-> How],
  sign |-> [p1 |-> <<"RT", "XT">>, p2 |-> <<"RT", "XT", "FT">>, p3 |-> <<"RT", "RT2", "XT", "FT", "DR">>, drop |-> <<"none", "reg.0", "reg.1", "masa.0", "reg.2">>,
            regout |-> VOUCHER, status |-> <<"none", "0:400", "0:500", "1:400", "1:404", "1:500", "1:399", "2:400", "2:404", "2:500", "2:503">>,
            answer |-> <<"none", "empty", "garbage", "cut", "lines">>, file |-> <<"none", "r.tlsca", "r.tlscakey", "p.signkey", "p.store0", "m.ldevid", "r.store0">>, how |-> <<"missing", "swap", "unset">>]]
Good(op) == [f \in DOMAIN F[op] |-> F[op][f][1]]
Bad(op, f) == {F[op][f][i] : i \in 2..Len(F[op][f])}
RECURSIVE Spread(_, _, _)
Spread(op, c, fs) == IF fs = {} THEN {c} ELSE LET f == CHOOSE x \in fs : TRUE IN
  UNION {Spread(op, [c EXCEPT ![f] = v], fs \ {f}) : v \in Bad(op, f)}
\* how is part of file
Fields(op) == DOMAIN F[op] \ {"how"}
Cases(op) ==
  LET base == UNION {Spread(op, Good(op), fs) : fs \in UNION {kSubset(k, Fields(op)) : k \in 0..Dev}}
  IN UNION {IF "file" \in DOMAIN x /\ x.file # "none" THEN {[x EXCEPT !.how = h] : h \in {F[op].how[i] : i \in 1..Len(F[op].how)}} ELSE {x} : x \in base}
Op == IOEnv.OP
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(Op)))
================================================================================
