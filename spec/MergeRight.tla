------------------------------ MODULE MergeRight -------------------------------
(* P11: merging. Values of each kind are tagged; a case merges two and three values. *)
EXTENDS JsonVal, Json
CONSTANTS Deep
VARIABLES c, done
Seqs(T, n) == UNION {[1..k -> T] : k \in 0..n}
IdxOf(fs, k) == CHOOSE i \in 1..Len(fs) : fs[i][1] = k
Has(fs, k) == \E i \in 1..Len(fs) : fs[i][1] = k
\* entry by entry; entries of the left keep their place, new ones follow in their own order
RECURSIVE Entries(_, _, _)
Entries(M(_, _), l, r) == IF r = <<>> THEN l
  ELSE LET k == r[1][1]  v == r[1][2] IN
       Entries(M, IF Has(l, k) THEN [l EXCEPT ![IdxOf(l, k)] = <<k, M(l[IdxOf(l, k)][2], v)>>] ELSE Append(l, <<k, v>>), Tail(r))
RECURSIVE MJ(_, _), MY(_, _)
\* JSON (GraphQL constants)
MJ(a, b) == IF IsArr(a) THEN <<"a", a[2] \o (IF IsArr(b) THEN b[2] ELSE <<b>>)>>
            ELSE IF IsObj(a) /\ IsObj(b) THEN <<"o", Entries(MJ, a[2], b[2])>> ELSE b
\* YAML: as JSON, but a mapping merged with a list joins the list; values may carry tags <<"t", tag, value>>: those of one tag merge, else the right wins
MY(a, b) == IF IsArr(a) THEN <<"a", a[2] \o (IF IsArr(b) THEN b[2] ELSE <<b>>)>>
            ELSE IF IsObj(a) /\ IsObj(b) THEN <<"o", Entries(MY, a[2], b[2])>>
            ELSE IF IsObj(a) /\ IsArr(b) THEN <<"a", Append(b[2], a)>>
            ELSE IF a[1] = "t" /\ b[1] = "t" /\ a[2] = b[2] THEN <<"t", a[2], MY(a[3], b[3])>> ELSE b
Right(a, b) == b
Cat(a, b) == a \o b
Opt(M(_, _), a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<M(a[1], b[1])>>
OptNum(a, b) == Opt(Right, a, b)
OptSeq(a, b) == Opt(Cat, a, b)
Nums == {1, 2}
OptN == {<<>>} \cup {<<n>> : n \in Nums}
NSeqs == Seqs(Nums, 2)
Maps(V) == {<<>>} \cup {<<<<k, v>>>> : k \in {"p", "q"}, v \in V} \cup {<<<<"p", v>>, <<"q", w>>>> : v, w \in V} \cup {<<<<"q", v>>, <<"p", w>>>> : v, w \in V}
J0 == {Null, <<"i", "1">>, <<"s", "x">>, <<"b", "false">>}
J1 == J0 \cup {<<"a", s>> : s \in Seqs({<<"i", "1">>, Null}, 1)} \cup {<<"o", m>> : m \in Maps({Null, <<"i", "2">>})}
J2 == J1 \cup {<<"o", <<<<"p", x>>>>>> : x \in J1} \cup {<<"a", <<x>>>> : x \in J1} \cup {<<"o", <<<<"q", x>>, <<"p", <<"i", "3">>>>>>>> : x \in J1}
Kinds == {"opt", "optseq", "seq", "btset", "hashset", "btmap", "hashmap", "indexmap", "json", "yaml"}
Dom(k) == CASE k = "opt" -> OptN [] k = "optseq" -> {<<>>} \cup {<<s>> : s \in NSeqs} [] k \in {"seq", "btset", "hashset"} -> NSeqs
            [] k \in {"btmap", "hashmap"} -> Maps(OptN) [] k = "indexmap" -> Maps(NSeqs)
            [] OTHER -> IF Deep THEN J2 ELSE J1 \cup {<<"o", <<<<"p", x>>>>>> : x \in J1} \cup {<<"a", <<x>>>> : x \in J0}
T0 == {<<"i", "1">>, <<"a", <<Null>>>>, <<"o", <<<<"p", <<"i", "2">>>>>>>>, <<"o", <<<<"q", <<"b", "true">>>>>>>>}
T1 == {<<"t", n, v>> : n \in {"x", "y"}, v \in T0}
T2 == T0 \cup T1 \cup {Null} \cup {<<"o", <<<<"p", v>>>>>> : v \in T1} \cup {<<"a", <<v>>>> : v \in T1}
Merge(k, a, b) == CASE k = "opt" -> OptNum(a, b) [] k = "optseq" -> OptSeq(a, b) [] k \in {"seq", "btset", "hashset"} -> Cat(a, b)
                    [] k \in {"btmap", "hashmap"} -> Entries(OptNum, a, b) [] k = "indexmap" -> Entries(Cat, a, b)
                    [] k = "json" -> MJ(a, b) [] OTHER -> MY(a, b)
Thirds(k) == CASE k = "json" -> {<<"i", "7">>, <<"a", <<<<"i", "7">>>>>>, <<"o", <<<<"p", <<"i", "7">>>>>>>>}
              [] k = "yaml" -> {<<"i", "7">>, <<"a", <<<<"i", "7">>>>>>, <<"o", <<<<"p", <<"i", "7">>>>>>>>}
              [] k \in {"opt", "seq", "btset", "hashset", "optseq"} -> Dom(k)
              [] OTHER -> {<<>>, <<<<"q", <<2>>>>>>, <<<<"p", <<1>>>>, <<"r", <<2>>>>>>}
Init == done = FALSE /\ \/ \E k \in Kinds : c \in [k : {k}, a : Dom(k), b : Dom(k)]
                        \/ c \in [k : {"yaml"}, a : T2, b : T2]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET ts == SetToSeq(Thirds(c.k)) IN
           PrintT("@" \o ToJson([in |-> [c |-> c, thirds |-> ts],
              out |-> [ab |-> Merge(c.k, c.a, c.b),
                       ab_c |-> [i \in 1..Len(ts) |-> Merge(c.k, Merge(c.k, c.a, c.b), ts[i])],
                       a_bc |-> [i \in 1..Len(ts) |-> Merge(c.k, c.a, Merge(c.k, c.b, ts[i]))]]]))
Spec == Init /\ [][Next]_<<c, done>>
(* laws: associative where shapes agree, empty is the unit, entries of one side survive *)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Same(k, x, y) == IF k \in {"btset", "hashset", "btmap", "hashmap"} THEN SetOf(x) = SetOf(y) ELSE x = y
RECURSIVE Shape(_, _)
Shape(a, b) == \/ IsArr(a) /\ IsArr(b)
               \/ IsObj(a) /\ IsObj(b) /\ \A i \in 1..Len(a[2]) : Has(b[2], a[2][i][1]) => Shape(a[2][i][2], b[2][IdxOf(b[2], a[2][i][1])][2])
               \/ a[1] = "t" /\ b[1] = "t" /\ (a[2] # b[2] \/ Shape(a[3], b[3]))
               \/ a[1] \notin {"a", "o", "t"} /\ b[1] \notin {"a", "o", "t"}
Alike(k, a, b) == k \notin {"json", "yaml"} \/ Shape(a, b)
Assoc == \A t \in Thirds(c.k) : Alike(c.k, c.a, c.b) /\ Alike(c.k, c.b, t) /\ Alike(c.k, c.a, t) =>
            Same(c.k, Merge(c.k, Merge(c.k, c.a, c.b), t), Merge(c.k, c.a, Merge(c.k, c.b, t)))
Unit == c.k \notin {"json", "yaml"} => Merge(c.k, <<>>, c.b) = c.b /\ Merge(c.k, c.b, <<>>) = c.b
Keeps == c.k \in {"btmap", "hashmap", "indexmap"} => LET m == Merge(c.k, c.a, c.b) IN
           /\ \A i \in 1..Len(c.a) : ~Has(c.b, c.a[i][1]) => c.a[i] \in SetOf(m)
           /\ \A i \in 1..Len(c.b) : ~Has(c.a, c.b[i][1]) => c.b[i] \in SetOf(m)
=============================================================================
