------------------------------- MODULE MCCertGen -------------------------------
EXTENDS CertGen
MMetas == {[subject |-> "s", issuer |-> "s"], [subject |-> "t", issuer |-> "s"], [subject |-> "t", issuer |-> "t"]}
===============================================================================
