------------------------------ MODULE Entities ------------------------------
(* P30: entity lookups of a federated subgraph.
   Entity types: U is fetched by key with one call each, B in batches, X is made from the
   representation, C calls a query field, N has a nested key, T is no entity.
   A representation: [t, id] with t "" for a missing __typename and "null" for null.
   Records 1 and 2 exist for every type, 3 for none; asking for 4 fails upstream.          *)
EXTENDS JsonVal, Json
CONSTANTS Family, Deep
VARIABLES c, done
S(x) == <<"s", x>>
I(x) == <<"i", x>>
Fetched == {"U", "B", "C", "N"}
Listed == {"U", "B"}  \* with a field that is fetched for each of them
Entity == Fetched \cup {"X"}
R(t, id) == [t |-> t, id |-> id]
Bad == {R("T", "1"), R("", "1"), R("null", ""), R("Nope", "1"), R("num", "")}
Pool == IF Deep THEN [t : Entity, id : {"1", "2", "3"}] \cup [t : {"U", "B"}, id : {"4"}] \cup Bad
        ELSE {R("U", "1"), R("U", "2"), R("U", "3"), R("U", "4"), R("B", "1"), R("B", "2"), R("B", "3"), R("B", "4"), R("X", "1"), R("X", "3"), R("C", "1"), R("C", "3"), R("N", "2")} \cup Bad
Lists(s, n) == UNION {[1..k -> s] : k \in 0..n}
PairPool == {R("U", "1"), R("B", "1"), R("B", "2"), R("B", "3"), R("X", "1")} \cup IF Deep THEN {R("C", "2"), R("N", "1")} ELSE {}
\* a template in some place of the resolver of a type, by the paths into the value it refers to
Paths == {<<"id">>, <<"sku">>, <<"k", "id">>, <<"k", "n">>, <<"k", "l", "m">>}
\* what is no field of the type
NoPaths == {<<"zz">>, <<"k", "zz">>, <<"id", "zz">>, <<"k", "l", "n">>, <<"k", "sku">>}
\* keys the type is given explicitly
Owns == {<<>>, << <<"id">> >>, << <<"id", "sku">> >>, << <<"sku">>, <<"id">> >>}
Places == {"url", "query", "header", "body", "expr", "gqlarg", "call"}
Cases ==
  CASE Family = "lists" -> {[batch |-> b, num |-> n, lit |-> FALSE, reqs |-> <<l>>] : b \in BOOLEAN, n \in {FALSE}, l \in Lists(Pool, IF Deep THEN 3 ELSE 2)}
                           \cup {[batch |-> TRUE, num |-> TRUE, lit |-> TRUE, reqs |-> <<l>>] : l \in Lists(Pool, 2)}
                           \cup {[batch |-> TRUE, num |-> FALSE, lit |-> FALSE, reqs |-> <<l>>] : l \in Lists(PairPool, IF Deep THEN 4 ELSE 3)}
    [] Family = "pairs" -> {[batch |-> b, num |-> FALSE, lit |-> FALSE, reqs |-> <<l, m>>] : b \in BOOLEAN, l, m \in Lists(PairPool, 2)}
    [] OTHER -> {[at |-> a, refs |-> r, twice |-> t, own |-> o] : a \in Places, r \in SUBSET Paths, t \in BOOLEAN, o \in Owns}
             \cup {[at |-> a, refs |-> {b} \cup r, twice |-> FALSE, own |-> <<>>] : a \in {"url", "query"}, b \in NoPaths, r \in SUBSET {<<"id">>, <<"k", "id">>}}
Init == c \in Cases /\ done = FALSE
\* ---- lookups
Known(r) == r.t \in Entity
Fails(r) == ~Known(r) \/ (r.t \in Fetched /\ r.id = "4")
Id(x, r) == IF x.num THEN I(r.id) ELSE S(r.id)
\* what is looked up; every type answers with its name, the key, and a field of its own fetched from the entity
Found(x, r) == IF r.t \in Fetched /\ r.id = "3" THEN Null
               ELSE <<"o", << <<"__typename", S(r.t)>>, <<"id", IF r.t = "X" THEN Id(x, r) ELSE I(r.id)>>, <<"name", S(r.t \o r.id)>> >> \o IF r.t \in Listed THEN << <<"f", S("f" \o r.id)>> >> ELSE <<>> >>
Answer(x, l) == IF \E j \in DOMAIN l : Fails(l[j]) THEN <<>> ELSE << [j \in DOMAIN l |-> Found(x, l[j])] >>
Keys(l, t) == {l[j].id : j \in {h \in DOMAIN l : l[h].t = t}}
Asked(x) == [t \in Fetched |-> UNION {Keys(x.reqs[j], t) : j \in DOMAIN x.reqs}]
\* ---- keys: a tree of the fields referred to, as a set of <<path, has fields below>>
RECURSIVE Heads(_)
Heads(p) == IF p = <<>> THEN {} ELSE {p} \cup Heads(Front(p))
KeyTree(refs) == {<<p, \E q \in UNION {Heads(r) : r \in refs} : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p>> : p \in UNION {Heads(r) : r \in refs}}
Trees(x) == ({KeyTree({<<k>> : k \in Range(x.own[j])}) : j \in DOMAIN x.own} \cup {KeyTree(x.refs)}) \ {{}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> c, out |->
             IF Family = "keys" THEN [trees |-> SetToSeq({SetToSeq(t) : t \in Trees(c)}), refused |-> c.refs \cap NoPaths # {}]
             ELSE [refused |-> FALSE, answers |-> [j \in DOMAIN c.reqs |-> Answer(c, c.reqs[j])], asked |-> [t \in Fetched |-> SetToSeq(Asked(c)[t])], f |-> SetToSeq((Asked(c)["U"] \cup Asked(c)["B"]) \ {"3"})]]))
Spec == Init /\ [][Next]_<<c, done>>
\* position by position, each element depends on its own representation only
EachAlone == (done /\ Family # "keys") => \A j \in DOMAIN c.reqs : LET a == Answer(c, c.reqs[j]) IN a # <<>> =>
   /\ Len(a[1]) = Len(c.reqs[j])
   /\ \A h \in DOMAIN a[1] : Answer(c, <<c.reqs[j][h]>>) = << <<a[1][h]>> >>
\* every reference is a leaf of the key made of them
KeyWhole == (done /\ Family = "keys" /\ c.refs \cap NoPaths = {}) => \A r \in c.refs : <<r, FALSE>> \in KeyTree(c.refs)
\* of the requested type or null
Typed == (done /\ Family # "keys") => \A j \in DOMAIN c.reqs : LET a == Answer(c, c.reqs[j]) IN a # <<>> =>
   \A h \in DOMAIN a[1] : a[1][h] = Null \/ Get(a[1][h], "__typename") = <<S(c.reqs[j][h].t)>>
=============================================================================
