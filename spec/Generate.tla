------------------------------- MODULE Generate -------------------------------
(* P34: configurations generated from samples of an upstream. A sample is a request with its answer. What is generated is a gateway with one field
   for each sample, and asked for everything it offers, with the arguments the sample was made with, it makes the sample's request and answers
   with the sample's answer. The shape says what can be asked for:
     <<"leaf", known>>           a value without selection; known: whether the sample shows of which kind it is
     <<"obj", <<<<key, list, shape>>, ..>>>>   an object with its members; list: whether the member's values are lists *)
EXTENDS JsonVal, Json
CONSTANTS Family, Thorough
VARIABLES c, done

s(x) == <<"s", x>>  i(x) == <<"i", x>>  ar(x) == <<"a", x>>  ob(x) == <<"o", x>>
BadNames == {"x-y", "_z", "1a", "a b", ""}
\* objects that can be a type, and lists that can tell one
AsType(v) == /\ v[2] # <<>>
             /\ IsObj(v) => \A k \in DOMAIN v[2] : v[2][k][1] \notin BadNames
Structured(v) == IsArr(v) \/ IsObj(v)
Leaf(known) == <<"leaf", known>>
\* members of several objects: the first that shows its kind
RECURSIVE Add(_, _), AddAll(_, _)
Add(ms, m) == IF \E k \in DOMAIN ms : ms[k][1] = m[1]
              THEN [k \in DOMAIN ms |-> IF ms[k][1] = m[1] /\ ms[k][3] = Leaf(FALSE) THEN m ELSE ms[k]]
              ELSE Append(ms, m)
AddAll(ms, new) == IF new = <<>> THEN ms ELSE AddAll(Add(ms, new[1]), Tail(new))
RECURSIVE Shape(_), Items(_, _), Members(_)
Shape(v) == CASE v[1] = "n" -> Leaf(FALSE)
              [] ~Structured(v) -> Leaf(TRUE)
              [] ~AsType(v) -> Leaf(FALSE)
              [] IsObj(v) -> <<"obj", Members(v)>>
              [] OTHER -> Items(v[2], <<>>)
Members(v) == [k \in DOMAIN v[2] |-> <<v[2][k][1], IsArr(v[2][k][2]), Shape(v[2][k][2])>>]
Items(vs, ms) == IF vs = <<>> THEN <<"obj", ms>>
                 ELSE IF ~IsObj(vs[1]) \/ ~AsType(vs[1]) THEN Shape(vs[1])
                 ELSE Items(Tail(vs), AddAll(ms, Members(vs[1])))

\* does every value of the sample have the shape (list: at a place for lists)
RECURSIVE Fits(_, _, _)
Fits(sh, list, v) ==
  CASE v = Null -> TRUE
    [] sh[1] = "leaf" -> list => IsArr(v)
    [] list -> IsArr(v) /\ \A k \in DOMAIN v[2] : Fits(sh, FALSE, v[2][k])
    [] OTHER -> IsObj(v) /\ \A k \in DOMAIN sh[2] : LET x == Get(v, sh[2][k][1]) IN x = <<>> \/ Fits(sh[2][k][3], sh[2][k][2], x[1])

\* asked for everything
RECURSIVE Answer(_, _)
Answer(sh, v) == CASE sh[1] = "leaf" \/ v = Null -> v
                   [] IsArr(v) -> ar([k \in DOMAIN v[2] |-> Answer(sh, v[2][k])])
                   [] OTHER -> ob([k \in DOMAIN sh[2] |-> LET x == Get(v, sh[2][k][1]) IN <<sh[2][k][1], IF x = <<>> THEN Null ELSE Answer(sh[2][k][3], x[1])>>])
\* types of a single member taken out: where a chain of them ends in a leaf, the leaf stands for it
RECURSIVE Single(_), Unwrap(_), Inner(_, _)
Single(sh) == sh[1] = "leaf" \/ (Len(sh[2]) = 1 /\ Single(sh[2][1][3]))
Unwrap(sh) == IF Single(sh) THEN Leaf(TRUE) ELSE <<"obj", [k \in DOMAIN sh[2] |-> <<sh[2][k][1], sh[2][k][2], Unwrap(sh[2][k][3])>>]>>
\* the leaf at the end
Inner(sh, v) == IF sh[1] = "leaf" \/ v = Null THEN v
                ELSE IF IsArr(v) THEN ar([k \in DOMAIN v[2] |-> Inner(sh, v[2][k])])
                ELSE LET x == Get(v, sh[2][1][1]) IN IF x = <<>> THEN Null ELSE Inner(sh[2][1][3], x[1])
RECURSIVE AnswerU(_, _)
AnswerU(sh, v) == CASE Single(sh) -> Inner(sh, v)
                    [] v = Null -> v
                    [] IsArr(v) -> ar([k \in DOMAIN v[2] |-> AnswerU(sh, v[2][k])])
                    [] OTHER -> ob([k \in DOMAIN sh[2] |-> LET x == Get(v, sh[2][k][1]) IN <<sh[2][k][1], IF x = <<>> THEN Null ELSE AnswerU(sh[2][k][3], x[1])>>])

\* ---- samples
L == {Null, <<"b", "true">>, i("1"), <<"f", "1.5">>, s("x")}
L2 == {Null, i("1"), s("x")}
O1(k, v) == ob(<< <<k, v>> >>)
O2(k, v, k2, v2) == ob(<< <<k, v>>, <<k2, v2>> >>)
V1 == L \cup {O1("a", x) : x \in L2} \cup {O2("a", x, "b", y) : x \in L2, y \in {i("2"), s("y")}} \cup {ar(<<x>>) : x \in L2} \cup {ar(<<x, y>>) : x \in L2, y \in L2}
      \cup {ar(<<>>), ob(<<>>), O1("x-y", i("1")), O2("a", i("1"), "_z", i("2")), O1("1a", i("1"))}
V1s == {Null, i("1"), O1("a", i("1")), O1("b", s("x")), O2("a", i("2"), "b", s("y")), ar(<<i("1")>>), ar(<<>>), ob(<<>>), O1("x-y", i("1")), ar(<<Null>>)}
V2 == V1 \cup {ar(<<x, y>>) : x \in V1s, y \in V1s} \cup {ar(<<x>>) : x \in V1} \cup {O1(k, x) : k \in {"a", "b"}, x \in V1} \cup {O2("a", x, "b", y) : x \in V1s, y \in V1s}
V2s == {Null, i("1"), O1("a", O1("b", i("1"))), O2("a", i("1"), "b", O1("a", i("2"))), ar(<<O1("a", i("1")), O1("b", i("2"))>>), ar(<<O1("a", O1("b", i("3")))>>), ar(<<ar(<<O1("a", i("1"))>>)>>),
        O1("b", ar(<<O1("c", i("1"))>>)), O2("a", ar(<<>>), "b", O1("c", Null)), ar(<<O2("a", Null, "b", i("1")), O2("a", O1("c", i("1")), "b", i("2"))>>)}
V3 == V2 \cup {O1("c", x) : x \in V2} \cup {O2("c", x, "d", y) : x \in V2s, y \in V2s} \cup {ar(<<x, y>>) : x \in V2s, y \in V2s}
      \cup (IF Thorough THEN {O2("c", x, "d", y) : x \in V2, y \in V2s} \cup {ar(<<O1("c", x), O1("c", y)>>) : x \in V2, y \in V1s \cup V2s} ELSE {})
\* ---- names: of members that are objects, and of the field
Names == <<"user", "users", "date", "url", "json", "string", "int", "id", "boolean", "float", "query", "mutation", "Query", "T1", "t1", "GEN__1", "F", "f", "data", "x_y", "xY", "type", "input", "bytes", "empty", "email", "int8", "entity", "m", "status", "series", "interface", "on", "true", "null">>
Named == {O2(Names[j], O2("a", i("1"), "b", i("2")), Names[k], O2("a", i("3"), "c", s("x"))) : j \in DOMAIN Names, k \in (IF Thorough THEN DOMAIN Names ELSE 1..6)}
Distinct(v) == v[2][1][1] # v[2][2][1]
\* ---- requests: path segments, query
Segs == {"x", "12", "0", "007", "12a", "70b0be87-d339-4395-8559-204fd368604a", "12345678-1234-1234-1234-123456789012", "a b", "99999999999", "v1.2", "-5", "A"}
Pairs == {<<"a", "1">>, <<"a", "x">>, <<"user_id", "7">>, <<"userId", "8">>, <<"ids[]", "1">>, <<"ids[]", "2">>, <<"q", "1,2">>, <<"q", "x,y">>, <<"t", "a b&c">>, <<"e", "">>, <<"f", "1.5">>, <<"b", "true">>, <<"9", "1">>, <<"x-y", "z">>, <<"$top", "5">>, <<"big", "99999999999">>,
          <<"type", "x">>, <<"f", "1e3">>, <<"n", "007">>}
Paths == {<<>>} \cup {<<x>> : x \in Segs} \cup {<<x, y>> : x \in Segs, y \in Segs} \cup (IF Thorough THEN {<<x, y, z>> : x \in Segs, y \in Segs, z \in {"12", "x"}} ELSE {})
Queries == {<<>>} \cup {<<p>> : p \in Pairs} \cup {<<p, q>> : p \in Pairs, q \in Pairs}
\* ---- several samples of one gateway
Bodies == {O2("id", i("1"), "t", s("x")), O1("t", s("x")), O1("in", O2("t", s("x"), "l", ar(<<i("1"), i("2")>>))), O1("l", ar(<<O1("t", s("x"))>>)), O2("t", s("y"), "n", Null)}
Rs == {O2("id", i("1"), "t", s("x")), O1("d", O2("id", i("1"), "t", s("x"))), ar(<<O2("id", i("2"), "t", s("y"))>>), O1("l", ar(<<O1("t", s("x"))>>)), i("5"), O1("date", O2("y", i("1"), "m", i("2")))}

Get1(res) == [field |-> "f", m |-> "GET", path |-> <<"x">>, q |-> <<>>, req |-> <<>>, res |-> res]
Req(p, q, f) == [Get1(O2("a", i("1"), "b", s("x"))) EXCEPT !.path = p, !.q = q, !.field = f]
Post(m, b, res) == [field |-> "g", m |-> m, path |-> <<"y">>, q |-> <<>>, req |-> <<b>>, res |-> res]
Presets == {"none", "names", "merge", "unwrap", "all"}
Inputs == CASE Family = "shapes" -> [samples : {<<Get1(v)>> : v \in V3}, preset : {"none", "all", "merge"}]
            [] Family = "names" -> [samples : {<<Get1(v)>> : v \in {w \in Named : Distinct(w)}} \cup {<<Req(<<"x">>, <<>>, Names[k])>> : k \in DOMAIN Names}, preset : Presets]
            [] Family = "requests" -> [samples : {<<Req(p, <<>>, "f")>> : p \in Paths} \cup {<<Req(<<"x">>, q, "f")>> : q \in Queries} \cup {<<Req(<<"12">>, <<p>>, "f")>> : p \in Pairs}, preset : {"none"}]
            [] OTHER -> [samples : {<<Get1(r), Post(m, b, t)>> : r \in Rs, b \in Bodies, t \in Rs, m \in {"POST", "PUT"}}
                             \cup {<<Get1(r), [Get1(t) EXCEPT !.field = "h", !.path = <<"y">>]>> : r \in Rs, t \in Rs}, preset : Presets]
Unwraps == c.preset \in {"unwrap", "all"}
Out == [k \in DOMAIN c.samples |->
  LET v == c.samples[k].res  sh == Shape(v) IN
  [judged |-> Fits(sh, IsArr(v), v), sel |-> IF Unwraps THEN Unwrap(sh) ELSE sh, answer |-> IF ~Fits(sh, IsArr(v), v) THEN Null ELSE IF Unwraps THEN AnswerU(sh, v) ELSE Answer(sh, v)]]
Init == c \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out]))
Spec == Init /\ [][Next]_<<c, done>>

\* ---- laws
\* without a list in it, and with usable names only, a sample is answered as it is
RECURSIVE Pure(_)
Pure(v) == IF IsObj(v) THEN AsType(v) /\ \A k \in DOMAIN v[2] : Pure(v[2][k][2]) ELSE ~IsArr(v)
Whole == done => \A k \in DOMAIN c.samples : (Pure(c.samples[k].res) /\ ~Unwraps) => Out[k].judged /\ Out[k].answer = c.samples[k].res
\* taking single members out twice is taking them out once
Once == done => \A k \in DOMAIN c.samples : LET sh == Shape(c.samples[k].res) IN Unwrap(Unwrap(sh)) = Unwrap(sh)
================================================================================
