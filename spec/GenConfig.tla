------------------------------- MODULE GenConfig -------------------------------
(* Configuration files: every key alone in every section, with and without a value *)
(* (so also where it does not belong); every short arrangement of list and single  *)
(* keys over two sections; every order of the sections.                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
K == {"createdOn", "serialNumber", "nonce", "idevidKeyPath", "idevidCertPath", "idevidCACertPath", "cmsSignCertPath", "cmsSignKeyPath",
      "bindAddress", "port", "tlsKeyPath", "tlsCertPath", "tlsCAKeyPath", "tlsCACertPath", "expiresOn", "ldevidCACertPath",
      "cmsAdditionalCertPath", "cmsVerifyCertPath", "cmsVerifyStorePath"}
S == {"pledge", "registrar", "masa"}
\* one key, alone in its section, after (or before) the sections in some order
Perms == {p \in [1..3 -> S] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Alone == {[f |-> <<[t |-> "sec", s |-> s], [t |-> "val", k |-> k, v |-> v]>>] : s \in S \cup {"other"}, k \in K, v \in {"", "v"}}
Everywhere == {[f |-> <<[t |-> "sec", s |-> p[1]], [t |-> "val", k |-> k, v |-> "a"], [t |-> "sec", s |-> p[2]], [t |-> "val", k |-> k, v |-> "b"],
                        [t |-> "sec", s |-> p[3]], [t |-> "val", k |-> k, v |-> "c"]>>] : p \in Perms, k \in K}
Line == {[t |-> "val", k |-> "cmsVerifyCertPath", v |-> "a"], [t |-> "val", k |-> "cmsVerifyCertPath", v |-> "b"], [t |-> "val", k |-> "cmsVerifyCertPath", v |-> ""],
         [t |-> "val", k |-> "cmsVerifyStorePath", v |-> "a"], [t |-> "val", k |-> "cmsVerifyStorePath", v |-> "c"], [t |-> "no"]}
Arr == {[f |-> <<[t |-> "sec", s |-> s], [t |-> "val", k |-> "cmsSignCertPath", v |-> "x"]>> \o q \o <<[t |-> "sec", s |-> u], [t |-> "val", k |-> "cmsVerifyCertPath", v |-> "z"]>>] :
          s \in {"pledge", "masa"}, u \in {"registrar", "other"}, q \in UNION {[1..n -> Line] : n \in 0..4}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Alone \cup Everywhere) \o SetToSeq(Arr))
================================================================================
