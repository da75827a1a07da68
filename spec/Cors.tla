--------------------------------- MODULE Cors ----------------------------------
(* P19: which cross-origin headers a response carries. Optional settings are sequences of
   length at most one; list settings are sequences.                                       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Full
VARIABLES c, done
None == <<>>
Opt(S) == {None} \cup {<<x>> : x \in S}
Star == <<"*">>
A == "https://a.example"  B == "https://b.example"
Tailcall == "https://tailcall.run"
Cred == Opt({"true", "false"})
Hdrs == {<<>>, Star, <<"x-a", "x-b">>}
Meths == {<<>>, <<"GET">>, <<"GET", "POST">>}
Origs == {<<>>, Star, <<A>>, <<A, B>>, <<A, "*">>}
Expose == {<<>>, Star, <<"x-e">>}
Ages == Opt({"0", "600"})
Vary == {None} \cup {<<v>> : v \in {<<>>, <<"origin">>, <<"x-v", "x-w">>}}
K(cr, h, m, o, p, e, a, v) == [cors |-> TRUE, cred |-> cr, headers |-> h, methods |-> m, origins |-> o, priv |-> p, expose |-> e, age |-> a, vary |-> v]
Rules == {K(cr, h, m, o, <<>>, e, <<>>, <<>>) : cr \in Cred, h \in Hdrs, m \in Meths, o \in Origs, e \in Expose}
Rest1 == {K(cr, <<"x-a", "x-b">>, <<"GET">>, o, p, <<"x-e">>, a, v) : cr \in Opt({"true"}), o \in {<<A>>, <<>>, <<A, B>>}, p \in Opt({"true", "false"}), a \in Ages, v \in Vary}
All == {K(cr, h, m, o, p, e, a, v) : cr \in Cred, h \in Hdrs, m \in Meths, o \in Origs, p \in Opt({"true"}), e \in Expose, a \in Opt({"600"}), v \in {None, << <<"x-v", "x-w">> >>}}
Off == [K(<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>) EXCEPT !.cors = FALSE]
Configs == {Off} \cup Rules \cup Rest1 \cup (IF Full THEN All ELSE {})

Reqs == SetToSeq([m : {"OPTIONS", "POST", "GET"}, origin : Opt({A, B, "https://c.example", "null", Tailcall}), priv : BOOLEAN])

Wild(l) == l = Star
Refused(k) == k.cors /\ k.cred = <<"true">>
              /\ (Wild(k.headers) \/ k.methods = <<>> \/ Wild(k.expose) \/ \E i \in 1..Len(k.origins) : k.origins[i] = "*")
RECURSIVE Join(_)
Join(l) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o ", " \o Join(Tail(l))
H(cond, n, v) == IF cond THEN << <<n, v>> >> ELSE <<>>
Granted(k, r) == r.origin # None /\ \E i \in 1..Len(k.origins) : k.origins[i] \in {"*", r.origin[1]}
VaryOf(k) == IF k.vary = None THEN <<"origin", "access-control-request-method", "access-control-request-headers">> ELSE k.vary[1]
Headers(k, r) ==
  IF ~k.cors
  THEN IF r.origin # <<Tailcall>> THEN <<>>
       ELSE << <<"access-control-allow-origin", Tailcall>> >>
            \o IF r.m = "OPTIONS" THEN << <<"access-control-allow-methods", "GET, POST, OPTIONS">>, <<"access-control-allow-headers", "*">> >> ELSE <<>>
  ELSE H(Granted(k, r), "access-control-allow-origin", IF r.origin = None THEN "" ELSE r.origin[1])
    \o H(k.cred = <<"true">>, "access-control-allow-credentials", "true")
    \o H(k.priv = <<"true">> /\ r.priv, "access-control-allow-private-network", "true")
    \o (IF VaryOf(k) = <<>> THEN <<>> ELSE << <<"vary", Join(VaryOf(k))>> >>)
    \o IF r.m = "OPTIONS"
       THEN << <<"access-control-allow-methods", IF k.methods = <<>> THEN "*" ELSE Join(k.methods)>> >>
         \o (IF k.headers = <<>> THEN <<>> ELSE << <<"access-control-allow-headers", Join(k.headers)>> >>)
         \o (IF k.age = None THEN <<>> ELSE << <<"access-control-max-age", k.age[1]>> >>)
       ELSE IF k.expose = <<>> THEN <<>> ELSE << <<"access-control-expose-headers", Join(k.expose)>> >>
\* answered by the gateway itself, without the query being executed
Preflight(k, r) == r.m = "OPTIONS" /\ (k.cors \/ r.origin = <<Tailcall>>)
Answer(k, r) == [headers |-> Headers(k, r), kind |-> IF Preflight(k, r) THEN "preflight" ELSE IF r.m = "POST" THEN "query" ELSE IF r.m = "GET" THEN "status" ELSE "none"]
Init == done = FALSE /\ c \in Configs
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> [config |-> c, reqs |-> Reqs], out |-> IF Refused(c) THEN <<>> ELSE <<[j \in 1..Len(Reqs) |-> Answer(c, Reqs[j])]>>]))
Spec == Init /\ [][Next]_<<c, done>>
\* no origin is named that is not the request's own, and none at all to a request without one
OwnOrigin == \A j \in 1..Len(Reqs) : \A i \in 1..Len(Headers(c, Reqs[j])) :
               Headers(c, Reqs[j])[i][1] = "access-control-allow-origin" => <<Headers(c, Reqs[j])[i][2]>> = Reqs[j].origin
NoOpenCredentials == c.cred = <<"true">> /\ ~Refused(c) /\ c.cors =>
               \A j \in 1..Len(Reqs) : \A i \in 1..Len(Headers(c, Reqs[j])) : Headers(c, Reqs[j])[i][2] # "*"
=============================================================================
