------------------------------- MODULE CertGen -------------------------------
(* Making keys and certificates: generation of a key, of a self signed           *)
(* certificate for what was asked, and signing of a certificate by a CA, which   *)
(* replaces the issuer and the signature and nothing else.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- names: sequences of [k, v, n, print, ascii] (n: length of the value)      *)
\* attributes with the name they are read back with, in the order they are read, and
\* the values they may have
Attr == <<[k |-> "C", as |-> {"C", "countryName"}, min |-> 2, max |-> 2, only |-> "print"],
          [k |-> "ST", as |-> {"ST", "stateOrProvinceName"}, min |-> 1, max |-> 128, only |-> "any"],
          [k |-> "L", as |-> {"L", "localityName"}, min |-> 1, max |-> 128, only |-> "any"],
          [k |-> "O", as |-> {"O", "organizationName"}, min |-> 1, max |-> 64, only |-> "any"],
          [k |-> "OU", as |-> {"OU", "organizationalUnitName"}, min |-> 1, max |-> 64, only |-> "any"],
          [k |-> "CN", as |-> {"CN", "commonName", "2.5.4.3"}, min |-> 1, max |-> 64, only |-> "any"],
          [k |-> "emailAddress", as |-> {"emailAddress"}, min |-> 1, max |-> 128, only |-> "ascii"],
          [k |-> "serialNumber", as |-> {"serialNumber", "2.5.4.5"}, min |-> 1, max |-> 64, only |-> "print"],
          [k |-> "SN", as |-> {"SN", "surname"}, min |-> 1, max |-> 32768, only |-> "any"],
          [k |-> "GN", as |-> {"GN", "givenName"}, min |-> 1, max |-> 32768, only |-> "any"]>>
\* others that certificates may have but that are not read back
Others == {"title", "2.5.4.12", "DC", "UID", "pseudonym", "dnQualifier"}
IsAttr(k) == \E i \in 1..Len(Attr) : k \in Attr[i].as
AttrOf(k) == Attr[CHOOSE i \in 1..Len(Attr) : k \in Attr[i].as]
Canon(k) == IF IsAttr(k) THEN AttrOf(k).k ELSE IF k = "2.5.4.12" THEN "title" ELSE k
EntryOk(e) == IF IsAttr(e.k) THEN LET a == AttrOf(e.k) IN
                 /\ e.n \in a.min..a.max
                 /\ a.only = "print" => e.print
                 /\ a.only = "ascii" => e.ascii
              ELSE e.k \in Others
NameOk(name) == \A i \in 1..Len(name) : EntryOk(name[i])
\* the name in the certificate: all of it, in order
AsName(name) == [i \in 1..Len(name) |-> <<Canon(name[i].k), name[i].v>>]
\* what reading it gives: of each known attribute the first value, in the order of Attr
First(raw, k) == LET S == {i \in 1..Len(raw) : raw[i][1] = k} IN IF S = {} THEN <<>> ELSE <<raw[CHOOSE i \in S : \A j \in S : i <= j]>>
RECURSIVE ReadFrom(_, _)
ReadFrom(raw, i) == IF i > Len(Attr) THEN <<>> ELSE First(raw, Attr[i].k) \o ReadFrom(raw, i + 1)
ReadName(raw) == ReadFrom(raw, 1)
\* the serial number of the device in a name that was read
DeviceSerial(read) == LET x == First(read, "serialNumber") IN IF x = <<>> THEN "NULL" ELSE x[1][2]

(* ---- times: [d, s], days since 1970-01-01 and seconds of the day               *)
Plus(t, o) == LET s == t.s + o.s IN [d |-> t.d + o.d + (s \div 86400), s |-> s % 86400]
Zero == [d |-> 0, s |-> 0]
\* days from the civil calendar
Days(y, m, d) == LET yy == IF m <= 2 THEN y - 1 ELSE y
                     era == yy \div 400
                     yoe == yy - (era * 400)
                     mp == IF m > 2 THEN m - 3 ELSE m + 9
                     doy == (((153 * mp) + 2) \div 5) + d - 1
                     doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy
                 IN (era * 146097) + doe - 719468
\* a clock reading plus an offset must be in the years 1900 to 9999
Reachable(t) == t.d >= Days(1900, 1, 1) /\ t.d <= Days(9999, 12, 31)
Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28)
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
\* an absolute time [f, t]: f is "gen" (YYYYMMDDHHMMSSZ), "utc" (YYMMDDHHMMSSZ) or "bad"
AbsYear(a) == IF a.f = "utc" THEN (IF a.t[1] < 50 THEN 2000 + a.t[1] ELSE 1900 + a.t[1]) ELSE a.t[1]
AbsOk(a) == /\ a.f # "bad" /\ a.t[2] \in 1..12 /\ a.t[3] \in 1..MonthLen(AbsYear(a), a.t[2])
            /\ a.t[4] \in 0..23 /\ a.t[5] \in 0..59 /\ a.t[6] \in 0..59
AbsTime(a) == [d |-> Days(AbsYear(a), a.t[2], a.t[3]), s |-> (a.t[4] * 3600) + (a.t[5] * 60) + a.t[6]]

(* ---- what was asked: [kt, want, subject, issuer, serial, nb, na, abs, bc]       *)
(*   want: the kind of certificate; kt: the kind of the key given ("none": no key)  *)
(*   bc: [f, has, ca, crit, path]; abs: <<>> or <<absolute time>>                   *)
\* o: how much the clock moved meanwhile
Possible(e, now) ==
  /\ e.kt = e.want /\ NameOk(e.subject) /\ NameOk(e.issuer)
  /\ Reachable(Plus(now, e.nb))
  /\ IF e.abs # <<>> THEN e.na = Zero /\ AbsOk(e.abs[1]) ELSE Reachable(Plus(now, e.na))
  /\ e.bc.f # "bad"
Alg(kt) == IF kt = "rsa" THEN "rsa-sha256" ELSE "ecdsa-sha256"
During(x, now, o, slack) == \E k \in 0..slack : x = Plus(Plus(now, [d |-> 0, s |-> k]), o)
Carries(c, e, now, slack) ==
  /\ c.ver = 3 /\ c.serial = e.serial
  /\ c.subject = AsName(e.subject) /\ c.issuer = AsName(e.issuer)
  /\ During(c.nb, now, e.nb, slack)
  /\ IF e.abs # <<>> THEN c.na = AbsTime(e.abs[1]) ELSE During(c.na, now, e.na, slack)
  /\ c.bc = [has |-> e.bc.has, ca |-> e.bc.ca, crit |-> e.bc.crit, path |-> e.bc.path]
  /\ c.exts = IF e.bc.has THEN 1 ELSE 0
  /\ c.keyfits /\ c.own /\ c.alg = Alg(e.kt)

(* ---- a small world, exhaustively                                               *)
CONSTANTS KeyIds, Metas, Depth
VARIABLES keys,  \* the keys generated so far
          certs, \* the certificates
          asked, \* what was asked for, with the key it was for
          signed \* signings so far: <<key, CA certificate, certificate, result>>
gv == <<keys, certs, asked, signed>>
Init == keys = {} /\ certs = {} /\ asked = {} /\ signed = {}
NewKey(k) == k \notin keys /\ keys' = keys \cup {k} /\ UNCHANGED <<certs, asked, signed>>
NewCert(m, k) == /\ k \in keys /\ asked' = asked \cup {<<m, k>>}
                 /\ certs' = certs \cup {[body |-> [meta |-> m, key |-> k], issuer |-> m.issuer, by |-> k]}
                 /\ UNCHANGED <<keys, signed>>
Sign(k, ca, c) == /\ k \in keys /\ ca \in certs /\ c \in certs /\ Cardinality(signed) < Depth
                  /\ LET n == [c EXCEPT !.issuer = ca.body.meta.subject, !.by = k] IN
                       certs' = certs \cup {n} /\ signed' = signed \cup {<<k, ca, c, n>>}
                  /\ UNCHANGED <<keys, asked>>
Next == \/ \E k \in KeyIds : NewKey(k)
        \/ \E m \in Metas, k \in KeyIds : NewCert(m, k)
        \/ \E k \in keys, ca \in certs, c \in certs : Sign(k, ca, c)
Spec == Init /\ [][Next]_gv
NobodySigns == signed = {} \* to be broken
\* every certificate there is, is as it was asked for, whoever signed it since
BodyKept == \A c \in certs : <<c.body.meta, c.body.key>> \in asked
\* self signed, or issued by the one who signed it last
Origin == \A c \in certs : \/ c.by = c.body.key /\ c.issuer = c.body.meta.issuer
                           \/ \E s \in signed : s[4] = c /\ c.by = s[1] /\ c.issuer = s[2].body.meta.subject
\* where CAs sign with their own keys, an issued certificate leads to a certificate
\* of that name and key
Chained == (\A s \in signed : s[1] = s[2].body.key) =>
             \A c \in certs : \/ c.by = c.body.key /\ c.issuer = c.body.meta.issuer
                              \/ \E a \in certs : a.body.meta.subject = c.issuer /\ a.body.key = c.by
================================================================================
