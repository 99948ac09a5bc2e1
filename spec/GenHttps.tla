-------------------------------- MODULE GenHttps --------------------------------
(* Who meets whom over TLS: every server with every client, and every trust of a      *)
(* client with every server and every way to reply.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Uses == [server : {"open", "ca1", "ca2", "both", "sub", "none"},
         k : {"none", "L1", "L1e", "Li", "Lic", "L2", "Lf", "S", "Ln", "LS", "CA1", "R1"}, tls : {12, 13}]
Posts == [trust : {"no", "sys", "CA1", "CA2", "both", "CAi", "S", "junk", "empty"}, cert : {"L1", "L1e", "Li", "Lic", "L2", "Lf", "S", "LS", "R1"},
          k : {"L1"}, reply : {"length"}, tls : {13}]
    \cup [trust : {"no", "CA1"}, cert : {"L1", "R1"}, k : {"L1", "L2", "none", "mismatch", "missing"}, reply : {"length"}, tls : {12, 13}]
    \cup [trust : {"no", "CA1"}, cert : {"L1"}, k : {"L1"}, reply : {"length", "chunked", "close", "nothing", "garbage", "cut", "status", "late", "headers"}, tls : {12, 13}]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({<<"use", u>> : u \in Uses} \cup {<<"post", p>> : p \in Posts}))
=================================================================================
