----------------------------- MODULE VoucherStore -----------------------------
(* One voucher: eleven typed attributes that are set, cleared and read.          *)
(* Values: time <<Y,M,D,h,m,s>>, assertion 0..3 (0 none), serial-number and      *)
(* arrays as hex text, revocation checks TRUE/FALSE. "unset" stands for none.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TimeAttrs == {"created", "expires", "renewal"}
ArrAttrs == {"issuer", "pinned", "nonce", "prior", "proximity"}
Attrs == TimeAttrs \cup ArrAttrs \cup {"assertion", "serial", "revchk"}
NoTime == <<1900, 1, 0, 0, 0, 0>>
MaxSerial == 128

Empty(a) == CASE a \in TimeAttrs -> NoTime
              [] a = "assertion" -> 0
              [] a = "revchk" -> FALSE
              [] OTHER -> "unset"
Fresh == [a \in Attrs |-> Empty(a)]
TypeOf(a) == CASE a \in TimeAttrs -> "time" [] a \in ArrAttrs -> "arr" [] a = "assertion" -> "enum"
               [] a = "serial" -> "str" [] a = "revchk" -> "bool" [] OTHER -> "none"
\* may attribute a take value v through the setter of type ty ("null": no value)
Accepts(ty, a, v) ==
  /\ TypeOf(a) = ty
  /\ CASE ty = "enum" -> v \in 1..3
       [] ty = "str" -> v # "null" /\ Len(v) < 2 * MaxSerial
       [] ty = "arr" -> v # "null"
       [] OTHER -> TRUE
IsSet(st, a) == a \in Attrs /\ (a = "revchk" \/ st[a] # Empty(a))
SetOf(st) == {a \in Attrs : IsSet(st, a)}

VARIABLES val,   \* the attributes
          last   \* the last operation: its attribute and whether it took effect
Init == val = Fresh /\ last = [a |-> "none", ok |-> TRUE]
Set(ty, a, v) == Accepts(ty, a, v) /\ val' = [val EXCEPT ![a] = v] /\ last' = [a |-> a, ok |-> TRUE]
Refuse(a) == UNCHANGED val /\ last' = [a |-> a, ok |-> FALSE]
Clear(a) == /\ val' = IF a \in Attrs THEN [val EXCEPT ![a] = Empty(a)] ELSE val
            /\ last' = [a |-> a, ok |-> TRUE]
Read == UNCHANGED <<val, last>>

\* the model checks itself over small values
CONSTANTS V,    \* type -> values tried
          Used   \* attributes tried
Setting == \E ty \in DOMAIN V, a \in Used : \E v \in V[ty] : Set(ty, a, v)
Refusing == \E ty \in DOMAIN V, a \in Used \cup {"bogus"} : \E v \in V[ty] : ~Accepts(ty, a, v) /\ Refuse(a)
Clearing == \E a \in Used \cup {"bogus"} : Clear(a)
Next == Setting \/ Refusing \/ Clearing
Spec == Init /\ [][Next]_<<val, last>>
Typed == \A a \in Attrs : IsSet(val, a) /\ a # "revchk" => Accepts(TypeOf(a), a, val[a])
\* an operation touches at most its own attribute, and a refused one none
Local == [][\A a \in Attrs : val'[a] # val[a] => (last'.a = a /\ last'.ok)]_<<val, last>>
================================================================================
