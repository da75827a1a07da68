----------------------------- MODULE CallIdentity -----------------------------
(* P06: two configured upstream calls a and b and a mechanism that lets equal calls
   share one answer. Every call has components; what a call answers is a function of the
   components and of the time it was made. Sharing is right exactly when all components
   agree that the answer depends on.

   State machine: the store maps identities to answers; a is answered first, then b
   (or both at once); at the second call the upstream answers differently.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Two     \* Two: b may differ from a in two components

VARIABLES c, phase, store, ans, calls
vars == <<c, phase, store, ans, calls>>

Base(k) == [kind |-> k, host |-> "one", path |-> IF k = "gql" THEN "u" ELSE "p", query |-> IF k = "gql" THEN "-" ELSE "1", post |-> FALSE,
            body |-> "-", hdr |-> "-", req |-> "-", res |-> "-", group |-> "-", client |-> "-", other |-> "-", age |-> 9]
Vary(k) ==
  {<<"host", "two">>, <<"hdr", "x">>, <<"hdr", "y">>, <<"client", "x">>, <<"client", "y">>, <<"other", "x">>, <<"age", 1>>} \cup
  CASE k = "http" -> {<<"path", "q">>, <<"query", "2">>, <<"query", "-">>, <<"post", TRUE>>, <<"body", "1">>, <<"body", "2">>,
                      <<"req", "f">>, <<"req", "g">>, <<"res", "f">>, <<"res", "g">>, <<"group", "one">>, <<"group", "list">>}
    [] k = "gql" -> {<<"path", "w">>, <<"query", "1">>, <<"query", "2">>, <<"body", "m">>}     \* operation name, argument, selection
    [] OTHER -> {<<"body", "1">>, <<"body", "2">>, <<"res", "f">>}
Set(r, v) == [r EXCEPT ![v[1]] = v[2]]
Valid(r) == /\ r.body # "-" /\ r.kind = "http" => r.post
            /\ r.group # "-" => ~r.post /\ r.query # "-" /\ r.req = "-" /\ r.res = "-"
            /\ r.kind # "http" => ~r.post
Near(r) == {r} \cup {Set(r, v) : v \in Vary(r.kind)}
Far(r) == IF Two THEN UNION {Near(x) : x \in Near(r)} ELSE Near(r)
\* the client's headers are those of the request, so calls of one operation share them
Together(via) == via \in {"operation", "mutation"}
Init == /\ \E k \in Kinds : \E via \in {"cache", "operation", "requests", "mutation"} :
             \E a \in UNION {Near(x) : x \in Near(Base(k))} : \E b \in Far(a) :
               /\ Valid(a) /\ Valid(b)
               /\ via # "cache" => a.age = 9 /\ b.age = 9
               /\ Together(via) => a.client = b.client /\ a.other = b.other
               /\ via = "mutation" => a.group = "-" /\ b.group = "-"
               /\ c = [via |-> via, a |-> a, b |-> b]
        /\ phase = 0 /\ store = <<>> /\ ans = <<>> /\ calls = 0

\* what identifies an answer: everything but headers that are not forwarded
Id(r) == [r EXCEPT !.other = "-"]
Gap == 5
Alive(r) == c.via # "cache" \/ r.age > Gap
\* the answer: what the call carried and when it was made
Answer(r, gen) == [host |-> r.host, path |-> r.path, query |-> r.query, post |-> r.post, body |-> r.body, hdr |-> r.hdr,
                   req |-> r.req, res |-> r.res, group |-> r.group, client |-> r.client, gen |-> gen]
Shares == c.via # "mutation"
Look(r) == IF Shares /\ store # <<>> /\ store[1].id = Id(r) /\ Alive(r) THEN <<store[1].val>> ELSE <<>>
\* the upstream answers differently once time has passed
Gen == IF phase = 1 /\ c.via = "cache" THEN 2 ELSE 1
Resolve(r) ==
  LET hit == Look(r) IN
  IF hit # <<>> THEN /\ ans' = Append(ans, hit[1]) /\ UNCHANGED <<store, calls>>
  ELSE /\ ans' = Append(ans, Answer(r, Gen))
       /\ store' = <<[id |-> Id(r), val |-> Answer(r, Gen)]>>
       /\ calls' = calls + 1
Next == \/ phase = 0 /\ phase' = 1 /\ Resolve(c.a) /\ UNCHANGED c
        \/ phase = 1 /\ phase' = 2 /\ Resolve(c.b) /\ UNCHANGED c
           /\ PrintT("@" \o ToJson([in |-> c, out |-> [ans |-> ans', calls |-> calls']]))
Spec == Init /\ [][Next]_vars

\* nobody gets the answer of another call, however it was shared
Own == phase = 2 => \A i \in 1..2 : LET r == IF i = 1 THEN c.a ELSE c.b IN
         \E g \in {1, 2} : ans[i] = Answer(r, g)
\* an answer is reused only as long as the one who reuses it allows
Fresh == phase = 2 /\ c.via = "cache" /\ c.b.age <= Gap => ans[2].gen = 2
\* headers that are not forwarded never split
Share == phase = 2 /\ Id(c.a) = Id(c.b) /\ Alive(c.b) /\ Shares => calls = 1
=============================================================================
