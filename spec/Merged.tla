-------------------------------- MODULE Merged --------------------------------
(* P08: the call that stands for several requests.                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Thorough
VARIABLES c, done
Vals == {"1", "a b", "c&d=e", "100%", "+", "f%20g", ""}
Pairs == {<<"id", v>> : v \in Vals} \cup {<<"t", "1">>, <<"ids", "2">>}
Q1 == {<<>>} \cup {<<p>> : p \in Pairs}
Few == {<<"id", "1">>, <<"id", "c&d=e">>, <<"t", "1">>, <<"ids", "2">>}
Q2 == Q1 \cup {<<p, q>> : p, q \in IF Thorough THEN Pairs ELSE Few}
Bodies == {"-", "{\"id\":1}", "{\"id\":2,\"n\":\"x,y\"}", "\"s\""}
Req(Q, B) == [query : Q, body : B]
Bases == {"http://up/x", "http://up/x?k=v"}
Inputs == [base : Bases, post : {FALSE}, reqs : {<<a>> : a \in Req(Q2, {"-"})} \cup {<<a, b>> : a, b \in Req(Q2, {"-"})}]
     \cup [base : {"http://up/x"}, post : {FALSE}, reqs : [1..3 -> Req(IF Thorough THEN Q1 ELSE {<<>>} \cup {<<p>> : p \in Few}, {"-"})]]
     \cup [base : Bases, post : {TRUE}, reqs : UNION {[1..n -> Req({<<>>, <<<<"id", "1">>>>, <<<<"t", "c&d=e">>>>}, Bodies)] : n \in 1..(IF Thorough THEN 3 ELSE 2)}]
Init == done = FALSE /\ c \in Inputs
BasePairs(b) == IF b = "http://up/x" THEN <<>> ELSE <<<<"k", "v">>>>
Own(r, post) == IF post THEN r.query ELSE SelectSeq(r.query, LAMBDA p : p[1] = "id")
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Pairs_(x) == BasePairs(x.base) \o x.reqs[1].query
             \o Cat([i \in 1..(Len(x.reqs) - 1) |-> (IF x.post THEN BasePairs(x.base) ELSE <<>>) \o Own(x.reqs[i + 1], x.post)])
BodyList(x) == LET b == SelectSeq([i \in 1..Len(x.reqs) |-> x.reqs[i].body], LAMBDA s : s # "-") IN b
Next == ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> c, out |-> [query |-> Pairs_(c), bodies |-> BodyList(c)]]))
Spec == Init /\ [][Next]_<<c, done>>
\* what the merged call asks for is what its parts ask for
NothingLost == \A i \in 1..Len(c.reqs) : \A p \in Range(c.reqs[i].query) : p[1] = "id" => p \in Range(Pairs_(c))
NothingAdded == \A p \in Range(Pairs_(c)) : p = <<"k", "v">> \/ \E i \in 1..Len(c.reqs) : p \in Range(c.reqs[i].query)
=============================================================================
