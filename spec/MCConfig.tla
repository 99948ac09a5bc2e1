------------------------------- MODULE MCConfig -------------------------------
EXTENDS Config
MOne == [a |-> {"k"}, b |-> {"k", "m"}]
MMany == [a |-> {"l"}, b |-> {"l"}]
===============================================================================
