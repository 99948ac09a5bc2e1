---------------------------- MODULE MCVoucherStore ----------------------------
EXTENDS VoucherStore
CONSTANT Small
Long == "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"
MCUsed == IF Small THEN {"created", "assertion", "serial", "nonce", "revchk", "pinned"} ELSE Attrs
MCV == [ty \in {"time", "enum", "str", "arr", "bool"} |->
         CASE ty = "time" -> {<<2020, 1, 1, 0, 0, 0>>}
           [] ty = "enum" -> IF Small THEN {0, 1, 4} ELSE {-1, 0, 1, 2, 4}
           [] ty = "str" -> IF Small THEN {"", Long \o Long, "null"} ELSE {"", "41", Long \o Long, "null"}
           [] ty = "arr" -> {"00", "null"}
           [] OTHER -> {TRUE, FALSE}]
================================================================================
