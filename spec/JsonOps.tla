-------------------------------- MODULE JsonOps -------------------------------
(* P09: one record per JSON value of the domain with the outcome of every operation. *)
EXTENDS JsonVal, Json
CONSTANTS Deep
VARIABLES v, done
L0 == {Null, <<"b", "true">>, <<"i", "1">>, <<"i", "9007199254740993">>, <<"i", "18446744073709551615">>, <<"s", "1">>, <<"s", "x">>, <<"f", "1.5">>, <<"i", "-3">>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Objs(S, T) == {<<"o", <<>>>>} \cup {<<"o", <<<<"id", x>>>>>> : x \in S} \cup {<<"o", <<<<"a", x>>>>>> : x \in S}
              \cup {<<"o", <<<<"id", x>>, <<"a", y>>>>>> : x \in S, y \in T}
Few == {Null, <<"i", "1">>, <<"s", "1">>}
L1 == L0 \cup {<<"a", s>> : s \in Seqs(L0, 2)} \cup Objs(L0, Few)
K1 == Few \cup {<<"a", s>> : s \in Seqs(Few, 2)} \cup Objs(Few, {<<"i", "2">>})
L2 == L1 \cup {<<"a", s>> : s \in Seqs(K1, 2)} \cup Objs(K1, K1)
K2 == {<<"a", s>> : s \in Seqs(Objs({<<"i", "1">>, <<"i", "2">>, <<"s", "1">>}, {<<"a", <<>>>>}), 3)}
Domain == IF Deep THEN L2 \cup K2 \cup {<<"a", <<x, y>>>> : x \in K2, y \in {<<"a", <<Null>>>>, <<"i", "7">>}}
                     \cup {<<"o", <<<<"a", x>>>>>> : x \in K2}
          ELSE L1 \cup {<<"a", s>> : s \in Seqs(K1, 2)} \cup K2 \cup {<<"o", <<<<"a", x>>>>>> : x \in K2}
Paths == << <<>>, <<"id">>, <<"a">>, <<"a", "id">>, <<"0">>, <<"1", "id">>, <<"a", "0">>, <<"0", "0">>,
            <<"a", "1", "id">>, <<"id", "id">>, <<"a", "a">>, <<"3">>, <<"x">>, <<"10">>, <<"-1">>, <<"a", "10">>, <<"", "id">>, <<"id", "">>, <<"ID">> >>
OPaths == << <<"id">>, <<"a">>, <<"a", "id">>, <<"id", "id">>, <<>> >>
FailOn == <<"s", "1">>
FailAt(w) == LET ls == Leaves(w) IN IF \E i \in 1..Len(ls) : ls[i] = FailOn
                THEN CHOOSE i \in 1..Len(ls) : ls[i] = FailOn /\ \A j \in 1..(i-1) : ls[j] # FailOn ELSE 0
\* setting a key replaces its value, or adds it at the end
Put(w, k) == IF ~IsObj(w) THEN <<>> ELSE
  LET fs == w[2] IN
  << <<"o", IF \E i \in 1..Len(fs) : fs[i][1] = k THEN [i \in 1..Len(fs) |-> IF fs[i][1] = k THEN <<k, <<"s", "new">>>> ELSE fs[i]]
            ELSE Append(fs, <<k, <<"s", "new">>>>)>> >>
\* what a value is when it is read as one of its kind; integers that fit
As(w) == [null |-> w = Null, bool |-> IF w[1] = "b" THEN <<w[2]>> ELSE <<>>, str |-> IF w[1] = "s" THEN <<w[2]>> ELSE <<>>,
          i64 |-> IF w[1] = "i" /\ w[2] # "18446744073709551615" THEN <<w[2]>> ELSE <<>>,
          u64 |-> IF w[1] = "i" /\ w[2] # "-3" THEN <<w[2]>> ELSE <<>>,
          arr |-> IF IsArr(w) THEN <<Len(w[2])>> ELSE <<>>, obj |-> IF IsObj(w) THEN <<Len(w[2])>> ELSE <<>>]
Init == v \in Domain /\ done = FALSE
Out(w) == [paths |-> [i \in 1..Len(Paths) |-> GetPath(w, Paths[i])],
           gather |-> [i \in 1..Len(OPaths) |-> Gather(w, OPaths[i])],
           groups |-> [i \in 1..Len(OPaths) |-> GroupBy(w, OPaths[i])],
           leaves |-> Leaves(w), wrapped |-> Wrap(w), failat |-> FailAt(w), puts |-> <<Put(w, "id"), Put(w, "zz")>>, as |-> As(w)]
Next == ~done /\ done' = TRUE /\ UNCHANGED v
        /\ PrintT("@" \o ToJson([in |-> v, out |-> Out(v)]))
Spec == Init /\ [][Next]_<<v, done>>
(* laws of the specification itself *)
GroupsPartition == \A i \in 1..Len(OPaths) :
   LET g == Gather(v, OPaths[i])  gs == GroupBy(v, OPaths[i])
       keyed == SelectSeq(g, LAMBDA e : KeyText(e[1]) # <<>>)
   IN Len(keyed) = FoldSeq(LAMBDA e, n : n + Len(e[2]), 0, gs)
PathIsGather == \* on values without lists the two lookups coincide
   Len(Leaves(v)) = 1 /\ ~IsArr(v) => \A k \in {"id", "a"} : Get(v, k) # <<>> => Len(GetPath(v, <<k>>)) = 1
Kinds == LET a == As(v) IN Len(a.bool) + Len(a.str) + Len(a.arr) + Len(a.obj) + (IF a.i64 # <<>> \/ a.u64 # <<>> THEN 1 ELSE 0) + (IF a.null THEN 1 ELSE 0) <= 1
=============================================================================
