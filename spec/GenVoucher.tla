------------------------------ MODULE GenVoucher ------------------------------
(* Operation sequences: every pair of operations on one or two attributes.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
At == {"created", "expires", "renewal", "assertion", "serial", "issuer", "pinned", "revchk", "nonce", "prior", "proximity", "11", "99", "-1"}
Op(a) == {<<ty, a, i>> : ty \in {"time", "enum", "str", "arr", "bool"}, i \in {1, 2}} \cup {<<"clear", a, 1>>, <<"gen", a, 1>>, <<"gen", a, 2>>}
Good(a) == {<<"gen", a, 1>>, <<"gen", a, 2>>, <<"clear", a, 1>>}
ASSUME ndJsonSerialize(IOEnv.OUT,
  SetToSeq({[s |-> <<x, y>>] : x \in UNION {Good(a) : a \in At}, y \in UNION {Op(a) : a \in At}})
  \o SetToSeq({[s |-> <<x, y, z>>] : x \in Good("serial") \cup Good("nonce") \cup Good("created") \cup Good("revchk"),
                                     y \in UNION {Good(a) : a \in At}, z \in UNION {Good(a) : a \in At}}))
================================================================================
