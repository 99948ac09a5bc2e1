-------------------------------- MODULE GenJson --------------------------------
(* Voucher texts assembled from fragments: every attribute name (and near misses)  *)
(* with every kind of value, alone, beside others, and in every wrapping.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
Name == {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert",
         "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"}
Near == {"", "nonc", "noncee", "Nonce", " nonce", "serial_number", "serialNumber", "serial-numbe", "created-o", "assertio", "x", "ietf-voucher:voucher", "nonce\\u0000", "\\u006eonce"}
Q(s) == "\"" \o s \o "\""
Val == { Q("2024-02-29T23:59:59Z"), Q("2023-13-01T00:00:00Z"), Q("2024-02-29T23:59:59"), Q("2024-02-29 23:59:59Z"), Q("2024-2-9T3:5:9Z"), Q("2024-02-29T23:59:59Zx"),
         Q("2024-02-29T24:00:00Z"), Q("2024-00-10T00:00:00Z"), Q("2024-01-00T00:00:00Z"), Q("2024-01-32T00:00:00Z"), Q("2024-01-01T00:60:00Z"), Q("2024-01-01T00:00:62Z"),
         Q("verified"), Q("logged"), Q("proximity"), Q("Proximity"), Q("proximit"), Q("proximityy"), Q(""), Q("none"),
         "true", "false", "null", "1", "0", "2", "-1", "12.5e3", Q("true"), Q("TRUE"), Q("yes"),
         Q("QUJD"), Q("QUI="), Q("QQ=="), Q("QQ"), Q("Q"), Q("Q==="), Q("===="), Q("QU JD"), Q("QUJD\\n"), Q("QU*D"), Q("QUJDRA=="), Q("QUJ="), Q("QUJD===="), Q("\\u0051UJD"),
         Q("a\\\"b"), Q("a\\\\b"), Q("a\\u000ab"), Q("\\u00e9"), Q("\\u20ac"), Q("\\ud83d\\ude00"), Q("\\ud83d"), Q("\\ude00"), Q("\\u0000"), Q("a\\u0000b"), Q("a\\/b"), Q("\\x41"), Q("\\u12"), Q("\\b\\f\\n\\r\\t"),
         "[]", "{}", "[1,2]", "[" \o Q("QUJD") \o "]", "{" \o Q("nonce") \o ":" \o Q("QUJD") \o "}", "[[]]", "tru", "nul", "", "'a'", "01", "+1", ".5" }
Root == Q("ietf-voucher:voucher")
M(n, v) == Q(n) \o ":" \o v
Wrap(b) == "{" \o Root \o ":{" \o b \o "}}"
Other == {M("serial-number", Q("s")), M("nonce", Q("QUJD"))}
B == M("nonce", Q("QUJD")) \o "," \o M("serial-number", Q("s"))
Shapes == { Wrap(""), Wrap(B), "", "{}", "[]", "null", Q("ietf-voucher:voucher"), Root \o ":{" \o B \o "}", "{" \o Root \o "}", "{" \o Root \o ":null}", "{" \o Root \o ":[]}", "{" \o Root \o ":" \o Q("x") \o "}",
  "[" \o Wrap(B) \o "]", "{" \o Q("ietf-voucher") \o ":{" \o B \o "}}", "{" \o Q("ietf-voucher:vouche") \o ":{" \o B \o "}}", "{" \o Q("ietf-voucher:voucherx") \o ":{" \o B \o "}}",
  "{" \o Q("") \o ":{" \o B \o "}}", "{" \o Q("IETF-voucher:voucher") \o ":{" \o B \o "}}", "{" \o Q("ietf-voucher-request:voucher") \o ":{" \o B \o "}}", "{" \o Q("voucher") \o ":{" \o B \o "}}", "{" \o Q("i") \o ":{" \o B \o "}}",
  " " \o Wrap(B) \o "\n", Wrap(" " \o B \o " "), Wrap(B) \o "}", Wrap(B) \o "x", Wrap(B) \o ",", Wrap(B \o ","), Wrap("," \o B), "{" \o Wrap(B), "{" \o Wrap(B) \o "}",
  "{" \o Q("a") \o ":1," \o Root \o ":{" \o B \o "}}", "{" \o Root \o ":{" \o B \o "}," \o Q("a") \o ":1}", "{" \o Q("a") \o ":" \o Wrap(B) \o "}",
  "{" \o Root \o ":{" \o B \o "}," \o Root \o ":{}}", Wrap(M("nonce", Q("QUJD")) \o M("serial-number", Q("s"))), Wrap(Q("nonce") \o Q("QUJD")), Wrap(Q("nonce") \o "," \o Q("QUJD")), Wrap(Q("nonce")), Wrap("nonce:" \o Q("QUJD")),
  Wrap(M("nonce", Q("QUJD")) \o "," \o M("nonce", Q("QUJE"))), Wrap(M("serial-number", Q("a")) \o "," \o M("serial-number", Q("b"))), "{" \o Root \o ":{" \o B \o "]}", "[" \o Root \o ",{" \o B \o "}]",
  Wrap(B \o "," \o M("created-on", Q("2024-02-29T23:59:59Z")) \o "," \o M("expires-on", Q("2024-02-29T23:59:59Z")) \o "," \o M("last-renewal-date", Q("2024-02-29T23:59:59Z")) \o "," \o M("assertion", Q("logged")) \o "," \o M("idevid-issuer", Q("QUJD"))
      \o "," \o M("pinned-domain-cert", Q("QUJD")) \o "," \o M("domain-cert-revocation-checks", "true") \o "," \o M("prior-signed-voucher-request", Q("QUJD")) \o "," \o M("proximity-registrar-cert", Q("QUJD"))) }
ASSUME ndJsonSerialize(IOEnv.OUT,
  SetToSeq({[t |-> s] : s \in Shapes})
  \o SetToSeq({[t |-> Wrap(M(n, v))] : n \in Name \cup Near, v \in Val})
  \o SetToSeq({[t |-> Wrap(M(n, v) \o "," \o o)] : n \in Name, v \in Val, o \in Other})
  \o SetToSeq({[t |-> Wrap(o \o "," \o M(n, v))] : n \in Name, v \in Val, o \in Other}))
================================================================================
