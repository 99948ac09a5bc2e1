------------------------------ MODULE GenCertGen ------------------------------
(* What may be asked of a certificate: every value of each field with all others    *)
(* as usual, and every pair of such values.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Usual == [kt |-> "ec", want |-> "ec", serial |-> "1", nb |-> "0", na |-> "86400", abs |-> "none", bc |-> "none", subject |-> "plain", issuer |-> "same"]
Values == [kt |-> {"ec", "rsa", "ec384", "none", "junk"}, want |-> {"ec", "rsa"},
  serial |-> {"0", "1", "127", "128", "255", "256", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"},
  nb |-> {"0", "-1", "1", "-86400", "31536000", "-2208988800", "-9999999999", "99999999999", "260000000000", "-2147483649", "4294967296"},
  na |-> {"0", "1", "86400", "315360000", "2147483648", "-5", "99999999999", "260000000000", "9223372036854775807", "-9223372036854775808"},
  abs |-> {"none", "99991231235959Z", "20491231235959Z", "20500101000000Z", "19700101000000Z", "20380119031408Z", "20240229120000Z", "491231235959Z", "500101000000Z", "000229000000Z",
           "20230229120000Z", "20301301000000Z", "20300001000000Z", "20300100000000Z", "20300101240000Z", "20300101006000Z", "20300101000060Z", "20300101000000", "2030-01-01T00:00:00Z", "", "Z", "never", "99991231235959ZZ", "19491231235959Z", "00010101000000Z"},
  bc |-> {"none", "CA:TRUE", "CA:FALSE", "critical,CA:TRUE", "critical,CA:FALSE", "CA:TRUE,pathlen:0", "critical,CA:TRUE,pathlen:7", "CA:MAYBE", "bogus", ""},
  subject |-> {"plain", "empty", "all", "reversed", "twice", "long", "toolong", "emptyval", "unknown", "badC", "badSerial", "longnames", "others", "control", "equals", "oids"},
  issuer |-> {"same", "plain", "empty", "all", "twice", "toolong", "unknown", "others"}]
F == DOMAIN Usual
One == UNION {{[Usual EXCEPT ![f] = v] : v \in Values[f]} : f \in F}
Two == UNION {UNION {{[Usual EXCEPT ![f] = v, ![g] = u] : v \in Values[f], u \in Values[g]} : g \in F \ {f}} : f \in F}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(One) \o SetToSeq(Two \ One))
===============================================================================
