-------------------------------- MODULE MCHttps --------------------------------
EXTENDS Naturals, FiniteSets, TLC
R(sub, iss, key, by, ca) == [sub |-> sub, iss |-> iss, key |-> key, by |-> by, ca |-> ca, val |-> TRUE]
MCWorld == [A |-> R("A", "A", "a", "a", TRUE), B |-> R("B", "B", "b", "b", TRUE),
            la |-> R("la", "A", "la", "a", FALSE), lb |-> R("lb", "B", "lb", "b", FALSE), lf |-> R("lf", "A", "lf", "b", FALSE)]
Given(S) == [given |-> TRUE, set |-> S]
NotGiven == [given |-> FALSE, set |-> {}]
MCServers == [s1 |-> [cert |-> "la", ca |-> NotGiven, routes |-> {<<"POST", "/x">>}],
              s2 |-> [cert |-> "lb", ca |-> Given({"A"}), routes |-> {<<"POST", "/x">>, <<"GET", "/y">>}],
              s3 |-> [cert |-> "lf", ca |-> NotGiven, routes |-> {<<"POST", "/x">>}]]
Shows(c) == [cert |-> c, chain |-> {}]
MCClients == [a |-> [k |-> Shows("la"), trust |-> NotGiven], b |-> [k |-> Shows("lb"), trust |-> Given({"A"})], f |-> [k |-> Shows("lf"), trust |-> NotGiven],
              n |-> [k |-> Shows("none"), trust |-> NotGiven]]
MCReqs == [p |-> [method |-> "POST", path |-> "/x", body |-> "bp"], g |-> [method |-> "GET", path |-> "/x", body |-> ""], q |-> [method |-> "POST", path |-> "/xx", body |-> "bq"]]
CONSTANTS Lax, Conns
VARIABLES conn, calls, last
H == INSTANCE Https WITH World <- MCWorld, Servers <- MCServers, Clients <- MCClients, Reqs <- MCReqs
Spec == H!Spec
OnlyAdmitted == H!OnlyAdmitted
AsThemselves == H!AsThemselves
OnlyRoutes == H!OnlyRoutes
OnlyTrusted == H!OnlyTrusted
OwnAnswer == H!OwnAnswer
Answered == H!Answered
NobodyCalls == H!NobodyCalls
NobodyRefused == H!NobodyRefused
================================================================================
