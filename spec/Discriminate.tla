----------------------------- MODULE Discriminate ------------------------------
(* P14: resolution of abstract values by a single key or by a type field.           *)
EXTENDS JsonVal, Json
CONSTANTS Deep
VARIABLES c, done
Types == {"Foo", "Bar"}
TN == "__typename"
S(x) == <<"s", x>>
\* setting a key of an object keeps its place, or appends
Set(fs, k, v) == IF \E i \in 1..Len(fs) : fs[i][1] = k THEN [i \in 1..Len(fs) |-> IF fs[i][1] = k THEN <<k, v>> ELSE fs[i]] ELSE Append(fs, <<k, v>>)
Bad == <<>>
Typed(v) == IsObj(v) /\ Get(v, TN) # <<>> /\ Get(v, TN)[1][1] = "s"
Mark(v, t) == IF v = Null THEN <<Null>> ELSE IF IsObj(v) THEN <<<<"o", Set(v[2], TN, S(t))>>>> ELSE Bad
One(mode, v) ==
  IF mode = "keyed"
  THEN IF Len(v[2]) = 1 /\ v[2][1][1] \in Types THEN Mark(v[2][1][2], v[2][1][1]) ELSE Bad
  ELSE LET f == Get(v, "kind") IN IF f # <<>> /\ f[1][1] = "s" /\ f[1][2] \in Types THEN Mark(v, f[1][2]) ELSE Bad
RECURSIVE Resolve(_, _)
Resolve(mode, v) ==
  IF Typed(v) THEN <<v>>
  ELSE IF v = Null THEN <<v>>
  ELSE IF IsArr(v) THEN LET rs == [i \in 1..Len(v[2]) |-> Resolve(mode, v[2][i])]
                        IN IF \E i \in 1..Len(rs) : rs[i] = Bad THEN Bad ELSE <<<<"a", [i \in 1..Len(rs) |-> rs[i][1]]>>>>
  ELSE IF IsObj(v) THEN One(mode, v) ELSE Bad

(* the response to { u { __typename ... on Foo { a } ... on Bar { b c: a } } } *)
Or(x) == IF x = <<>> THEN Null ELSE x[1]
RECURSIVE Answer(_)
Answer(v) == IF v = Null THEN Null ELSE IF IsArr(v) THEN <<"a", [i \in 1..Len(v[2]) |-> Answer(v[2][i])]>>
             ELSE LET t == Get(v, TN)[1] IN
                  <<"o", <<<<TN, t>>>> \o IF t = S("Foo") THEN <<<<"a", Or(Get(v, "a"))>>>> ELSE <<<<"b", Or(Get(v, "b"))>>, <<"c", Or(Get(v, "a"))>>>>>>

Leaf == {Null, <<"i", "1">>, S("Foo"), <<"b", "true">>}
A == <<"a", S("x")>>  B == <<"b", S("y")>>
Inner == {<<"o", <<>>>>, <<"o", <<A>>>>, <<"o", <<A, B>>>>, <<"o", <<<<TN, S("Bar")>>, A>>>>, <<"a", <<>>>>, <<"a", <<<<"o", <<A>>>>>>>>} \cup Leaf
Keys == {"Foo", "Bar", "Fizz", "kind", "U", "foo", " Foo", "Bar "}
Kinds == {S("Foo"), S("Bar"), S("Fizz"), S(""), S(" Foo"), S("Foo "), S("FOO"), S("U"), Null, <<"i", "1">>, <<"a", <<S("Foo")>>>>}
Objs == {<<"o", <<>>>>} \cup {<<"o", <<<<k, i>>>>>> : k \in Keys, i \in Inner}
        \cup {<<"o", <<<<k, <<"o", <<A>>>>>>, <<j, <<"o", <<B>>>>>>>>>> : k \in {"Foo", "Fizz"}, j \in {"Bar", "Buzz"}}
        \cup {<<"o", <<<<"kind", k>>, A, B>>>> : k \in Kinds} \cup {<<"o", <<A, <<"kind", k>>>>>> : k \in Kinds}
        \cup {<<"o", <<<<TN, k>>, A, <<"kind", S("Foo")>>>>>> : k \in Kinds}
        \cup {<<"o", <<A, <<TN, S("Foo")>>, <<"kind", S("Bar")>>>>>>}
Some == {Null, <<"o", <<<<"Foo", <<"o", <<A>>>>>>>>>>, <<"o", <<<<"Bar", <<"o", <<A, B>>>>>>>>>>, <<"o", <<<<"kind", S("Bar")>>, B>>>>, <<"o", <<<<"kind", S("Foo")>>, A>>>>,
         <<"o", <<<<"Fizz", Null>>>>>>, <<"o", <<>>>>, S("Foo"),
         <<"o", <<<<TN, S("Foo")>>, A, <<"kind", S("Bar")>>>>>>, <<"o", <<<<"Foo", <<"o", <<<<TN, S("Bar")>>>>>>>>>>>>}
L1 == {<<"a", s>> : s \in UNION {[1..n -> Some] : n \in 0..(IF Deep THEN 3 ELSE 2)}} \cup {<<"a", <<o>>>> : o \in Objs}
L2 == {<<"a", s>> : s \in UNION {[1..n -> {<<"a", t>> : t \in UNION {[1..m -> Some] : m \in 0..1}} \cup {Null}] : n \in 1..2}}
Inputs == [mode : {"keyed", "field"}, nest : {0}, v : Leaf \cup Objs] \cup [mode : {"keyed", "field"}, nest : {1}, v : L1] \cup [mode : {"keyed", "field"}, nest : {2}, v : L2]
\* what the response can be asked about: no foreign names, no wrong nesting inside
RECURSIVE Regular(_, _)
Regular(v, n) == IF v = Null THEN TRUE ELSE IF n > 0 THEN IsArr(v) /\ \A i \in 1..Len(v[2]) : Regular(v[2][i], n - 1)
                 ELSE IsObj(v) /\ Get(v, TN) # <<>> /\ Get(v, TN)[1] \in {S("Foo"), S("Bar")}
Init == done = FALSE /\ c \in Inputs
Out(x) == LET r == Resolve(x.mode, x.v) IN
          [resolved |-> r, answer |-> IF r = Bad THEN <<Null>> ELSE IF Regular(r[1], x.nest) THEN <<Answer(r[1])>> ELSE <<>>]
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out(c)]))
Spec == Init /\ [][Next]_<<c, done>>
\* a resolution names a declared member, or what the data already said
RECURSIVE Named(_)
Named(v) == IF IsArr(v) THEN \A i \in 1..Len(v[2]) : Named(v[2][i]) ELSE v = Null \/ Typed(v)
Total == LET r == Resolve(c.mode, c.v) IN r # Bad => Named(r[1])
Stable == LET r == Resolve(c.mode, c.v) IN r # Bad => Resolve(c.mode, r[1]) = r
=============================================================================
