------------------------------ MODULE Distribute ------------------------------
(* P07: the answer of one batched HTTP call is distributed to the requests it stands
   for by grouping its records on a key path.                                      *)
EXTENDS JsonVal, Json
CONSTANTS Thorough
VARIABLES c, done
Big1 == "9007199254740993"
Big2 == "9007199254740992"
Ids == {"1", "2", "x", Big1, Big2}
RecIds == {<<"i", "1">>, <<"s", "1">>, <<"i", "2">>, <<"s", "x">>, Null, <<"i", Big1>>, <<"i", Big2>>, <<"b", "true">>}
Rec(id, n) == <<"o", <<<<"id", id>>, <<"v", <<"i", ToString(n)>>>>>>>>
NoId(n) == <<"o", <<<<"v", <<"i", ToString(n)>>>>>>>>
Lists(n) == UNION {[1..k -> RecIds \cup {<<"missing">>}] : k \in 0..n}
AsRecords(l) == <<"a", [i \in 1..Len(l) |-> IF l[i] = <<"missing">> THEN NoId(i) ELSE Rec(l[i], i)]>>
Shapes == {"flat", "data", "owner", "nested", "single"}
\* where the grouping key lives for each shape of answer
Path(s) == CASE s = "flat" -> <<"id">> [] s = "data" -> <<"data", "id">> [] s = "owner" -> <<"owner", "id">>
             [] s = "nested" -> <<"id">> [] OTHER -> <<"id">>
Answer(s, l) == CASE s = "flat" -> AsRecords(l)
                  [] s = "data" -> <<"o", <<<<"data", AsRecords(l)>>>>>>
                  [] s = "owner" -> <<"a", [i \in 1..Len(l) |-> <<"o", <<<<"n", <<"i", ToString(i)>>>>, <<"owner", AsRecords(<<l[i]>>)[2][1]>>>>>>]>>
                  [] s = "nested" -> <<"a", <<AsRecords(l), <<"a", <<>>>>>>>>
                  [] OTHER -> IF l = <<>> THEN Null ELSE AsRecords(l)[2][1]
Reqs == {<<a>> : a \in Ids} \cup {r \in Ids \X Ids : r[1] # r[2]}
        \cup IF Thorough THEN {r \in Ids \X Ids \X Ids : Cardinality({r[1], r[2], r[3]}) = 3} ELSE {<<"x", Big2, "1">>}
\* how the grouping is configured: by path only ("path"), not at all ("default", the path is id then), or by path and the
\* name of the query parameter ("named"); the requests of the latter have a parameter "id", too, which means something else
Group(x) == [path |-> IF x.group = "default" THEN <<>> ELSE Path(x.shape), key |-> IF x.group = "named" THEN <<"k">> ELSE <<>>]
Param(x) == IF x.group = "named" THEN "k" ELSE LET p == Path(x.shape) IN p[Len(p)]
Decoys(x) == IF x.group = "named" THEN << <<"id", "2">>, <<"owner", "1">> >> ELSE IF x.group = "path" THEN << <<"owner", "1">> >> ELSE <<>>
\* the parameters of the one call: those of one request, and the grouping parameter of every other
Query(x) == Decoys(x) \o [i \in 1..Len(x.reqs) |-> <<Param(x), x.reqs[i]>>]
Init == /\ done = FALSE
        /\ c \in [reqs : Reqs, l : Lists(IF Thorough THEN 3 ELSE 2), shape : Shapes, list : BOOLEAN, post : BOOLEAN, fail : {FALSE}, group : {"path", "default", "named"}]
                 \cup [reqs : Reqs, l : {<<>>}, shape : {"flat"}, list : BOOLEAN, post : BOOLEAN, fail : {TRUE}, group : {"path"}]
        /\ c.group = "default" => Path(c.shape) = <<"id">>
        /\ c.group # "path" => ~c.post /\ (Thorough \/ (c.list /\ Len(c.l) = 2))
        /\ Len(c.l) = 3 => c.shape = "flat" /\ ~c.post /\ Len(c.reqs) = 2
        /\ ~Thorough => (c.shape # "flat" => Len(c.l) = 2 /\ Len(c.reqs) >= 2 /\ ~c.post /\ c.list)
\* the records of request id: those whose key, as text, is its id
Mine(id, a, p) == LET g == SelectSeq(GroupBy(a, p), LAMBDA e : e[1] = id) IN IF g = <<>> THEN <<>> ELSE g[1][2]
Expect(x) == LET a == Answer(x.shape, x.l) IN
  [i \in 1..Len(x.reqs) |->
     LET m == Mine(x.reqs[i], a, Path(x.shape)) IN
     IF x.list THEN <<"a", m>> ELSE IF m = <<>> THEN Null ELSE m[1]]
Next == ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> [c |-> c, answer |-> Answer(c.shape, c.l), path |-> Path(c.shape), group |-> Group(c), param |-> Param(c), decoys |-> Decoys(c), query |-> IF c.post THEN <<>> ELSE Query(c)],
                                 out |-> IF c.fail THEN <<>> ELSE Expect(c)]))
Spec == Init /\ [][Next]_<<c, done>>
\* no record is given to two requests, and none to a request with another id
Disjoint == ~c.fail => LET a == Answer(c.shape, c.l) IN \A i, j \in 1..Len(c.reqs) : i # j =>
   \A x \in Range(Mine(c.reqs[i], a, Path(c.shape))), y \in Range(Mine(c.reqs[j], a, Path(c.shape))) : x # y
=============================================================================
