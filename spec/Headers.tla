-------------------------------- MODULE Headers --------------------------------
(* P26: which headers reach the upstreams and the clients.
   Family "allow": requests with headers of their own, one after the other or at the same time, over an allow list.
   Family "reply": upstream answers with cache-control, cookies and experimental headers, and what the response says of them. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Family, Few
VARIABLES c, done

\* ---- allow: headers are <<name, value>>; names are compared without case
Lower == [n \in {"x-a", "X-A", "x-b", "X-B", "x-ab", "authorization", "Authorization", "cookie"} |->
          CASE n = "X-A" -> "x-a" [] n = "X-B" -> "x-b" [] n = "Authorization" -> "authorization" [] OTHER -> n]
Pool == {<<"x-a", "1">>, <<"X-A", "2">>, <<"x-b", "1">>, <<"x-ab", "1">>, <<"Authorization", "t">>, <<"cookie", "k=1">>, <<"x-a", "">>}
Lists == UNION {[1..n -> Pool] : n \in 0..(IF Few THEN 2 ELSE 3)}
Allows == {{}, {"x-a"}, {"X-A", "x-b"}, {"X-B", "authorization"}, {"x-a", "X-A"}, {"x-ab", "cookie"}}
Forwarded(h, allow) == SelectSeq(h, LAMBDA e : \E a \in allow : Lower[a] = Lower[e[1]])
Sent(h, allow, conf) == LET f == Forwarded(h, allow) IN
  [i \in 1..Len(f) |-> <<Lower[f[i][1]], f[i][2]>>] \o IF conf /\ ~\E i \in 1..Len(f) : Lower[f[i][1]] = "x-a" THEN <<<<"x-a", "conf">>>> ELSE <<>>

\* ---- reply: an upstream answer
Cc == {"none", "a60", "a10p", "nc", "ns", "a0", "pnc", "ncp", "upper", "pub5", "huge", "two", "other", "bad"}
Ages == [a60 |-> 60, a10p |-> 10, upper |-> 30, pub5 |-> 5, huge |-> 2147483647, two |-> 20]
Private == {"a10p", "pnc", "ncp", "upper", "two"}
NoCache == {"nc", "pnc", "ncp", "a0"}
NoStore == {"ns"}
Cookies == {<<>>, <<"a=1">>, <<"a=1; Path=/", "b=2">>}
Answer(cc, ck, x) == [cc |-> cc, ck |-> ck, x |-> x, fail |-> FALSE]
Plain == Answer("none", <<>>, "")
Fail == [Plain EXCEPT !.fail = TRUE]
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
\* what a response says that has been made of the answers as
Reply(as, s) ==
  LET ccs == {as[i].cc : i \in 1..Len(as)}  ages == {Ages[a] : a \in ccs \cap DOMAIN Ages}  ok == \A i \in 1..Len(as) : ~as[i].fail IN
  [cc |-> IF ~s.cc THEN [kind |-> "none", age |-> <<>>, private |-> FALSE]
          ELSE IF ccs \cap NoStore # {} THEN [kind |-> IF ok THEN "no-store" ELSE "open", age |-> <<>>, private |-> FALSE]
          ELSE IF ~ok THEN [kind |-> "none", age |-> <<>>, private |-> FALSE]
          ELSE IF ccs \cap NoCache # {} THEN [kind |-> "no-cache", age |-> <<>>, private |-> ccs \cap Private # {}]
          ELSE [kind |-> IF ages = {} /\ ccs \cap Private = {} THEN "none" ELSE "some", age |-> IF ages = {} THEN <<>> ELSE <<Least(ages)>>, private |-> ccs \cap Private # {}],
   cookies |-> IF s.ck THEN FlattenSeq([i \in 1..Len(as) |-> as[i].ck]) ELSE <<>>,
   x |-> IF s.x THEN SelectSeq([i \in 1..Len(as) |-> as[i].x], LAMBDA x : x # "") ELSE <<>>,
   custom |-> s.custom]
\* bare: what is off is left out, not said to be off
Settings == [cc : BOOLEAN, ck : BOOLEAN, x : BOOLEAN, custom : BOOLEAN, bare : BOOLEAN]
OnAll == [cc |-> TRUE, ck |-> TRUE, x |-> TRUE, custom |-> TRUE, bare |-> FALSE]
Sel(r, a, b) == (IF "a" \in r THEN <<a>> ELSE <<>>) \o (IF "b" \in r THEN <<b>> ELSE <<>>)
Answers == {Answer(cc, <<>>, "") : cc \in Cc} \cup {Answer("a60", ck, x) : ck \in Cookies, x \in {"", "v1"}} \cup {Fail}
Via == {"plain", "dedupe", "batch"}

Inputs ==
  CASE Family = "allow" -> [kind : {"allow"}, reqs : {<<h>> : h \in Lists}, allow : Allows, conf : BOOLEAN, via : {"plain"}, par : {FALSE}]
    [] Family = "pair" -> [kind : {"allow"}, reqs : {<<<<e>>, <<f>>>> : e \in Pool, f \in Pool} \cup {<<<<e>>, <<>>>> : e \in Pool}, allow : {{"x-a"}, {"X-A", "x-b"}, {"x-ab", "cookie"}}, conf : BOOLEAN, via : Via, par : BOOLEAN]
    [] Family = "reply" -> [kind : {"reply"}, a : Answers, b : IF Few THEN {Plain, Answer("a10p", <<"c=3">>, "v2"), Answer("nc", <<>>, "")} ELSE Answers, reqs : {<<{"a", "b"}>>}, set : {OnAll}, via : {"plain"}, par : {FALSE}]
                    \cup [kind : {"reply"}, a : {Answer("a10p", <<"a=1">>, "v1"), Answer("ns", <<"a=1">>, "v1")}, b : {Plain}, reqs : {<<{"a"}>>}, set : Settings, via : Via, par : {FALSE}]
    [] OTHER -> [kind : {"reply"}, a : {Answer("a10p", <<"a=1">>, "v1"), Answer("ns", <<>>, ""), Answer("nc", <<"a=1">>, "")}, b : {Plain, Answer("a60", <<"b=2">>, "v2")},
                 reqs : {<<{"a"}, {"a"}>>, <<{"a"}, {"b"}>>, <<{"b"}, {"a"}>>, <<{"a", "b"}, {"b"}>>, <<{"b"}, {"a"}, {"b"}>>}, set : {OnAll}, via : Via, par : BOOLEAN]
Out == [i \in 1..Len(c.reqs) |-> IF c.kind = "allow" THEN [sent |-> Sent(c.reqs[i], c.allow, c.conf), reply |-> <<>>] ELSE [sent |-> <<>>, reply |-> <<Reply(Sel(c.reqs[i], c.a, c.b), c.set)>>]]

Init == c \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out]))
Spec == Init /\ [][Next]_<<c, done>>

\* ---- laws
\* nothing is forwarded that is not listed, nothing listed is lost
OnlyListed == (done /\ c.kind = "allow") => \A i \in 1..Len(c.reqs) : \A j \in 1..Len(Out[i].sent) :
  Out[i].sent[j] = <<"x-a", "conf">> \/ \E e \in Range(c.reqs[i]) : Lower[e[1]] = Out[i].sent[j][1] /\ e[2] = Out[i].sent[j][2]
\* what one request gets does not depend on the others
Alone == done => \A i, j \in 1..Len(c.reqs) : c.reqs[i] = c.reqs[j] => Out[i] = Out[j]
\* one more answer never loosens the cache-control
Rank(r) == CASE r.kind = "no-store" -> 3 [] r.kind = "no-cache" -> 2 [] r.kind = "some" -> 1 [] OTHER -> 0
Restrictive == (done /\ c.kind = "reply" /\ ~c.a.fail /\ ~c.b.fail) =>
  LET one == Reply(<<c.a>>, c.set).cc  both == Reply(<<c.a, c.b>>, c.set).cc IN
  Rank(one) <= Rank(both) /\ (Rank(both) = 1 /\ one.age # <<>> => both.age[1] <= one.age[1]) /\ (Rank(both) < 3 /\ one.private => both.private)
===============================================================================
