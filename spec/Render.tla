-------------------------------- MODULE Render --------------------------------
(* P28: the upstream request of one HTTP call: its path, query parameters, body and headers from templates.
   A template is a sequence of pieces: "T" a literal text, "X" the value under test, "Y" a second argument, "M" a missing one.
   A path is a sequence of segments and a query a sequence of <<key, <<>> | <<text>> >>, so no value can reach the structure. *)
EXTENDS JsonVal, Json
CONSTANTS Family, Few
VARIABLES c, done

S(t) == <<"s", t>>
I(t) == <<"i", t>>
A(xs) == <<"a", xs>>
O(fs) == <<"o", fs>>
RECURSIVE Join(_), Commas(_)
Join(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Join(Tail(ss))
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Commas(Tail(ss))

\* ---- values: their type in the schema, and the value; ~u, ~n, ~z, ~e stand for characters outside of ASCII, a line feed, a NUL, and an emoji
Strings == {"s", "a&b=c", "#?/", "+ %20", "", "~u~n", "{{.args.y}}", "\"\\'", "a/../b", "http://x/y?z=1", ";,:@!$*()", "~e|^`<>[]", " ", "%", "~z"}
Scalars == {<<"JSON", Null>>, <<"JSON", I("5")>>, <<"Int", I("-7")>>, <<"JSON", <<"f", "1.5">>>>, <<"Boolean", <<"b", "true">>>>, <<"JSON", <<"b", "false">>>>, <<"E", S("ONE")>>, <<"ID", S("a&b")>>, <<"Int", Null>>, <<"JSON", I("9007199254740993")>>}
Lists == {<<"JSON", A(<<>>)>>, <<"[Int]", A(<<I("1"), I("2")>>)>>, <<"JSON", A(<<S("a,b&c"), Null, I("3")>>)>>, <<"[[String]]", A(<<A(<<S("x y"), S("")>>), A(<<S("z")>>)>>)>>, <<"JSON", A(<<O(<<<<"k", I("1")>>>>), S("v")>>)>>, <<"[E]", A(<<S("TWO"), S("ONE")>>)>>}
Objects == {<<"JSON", O(<<>>)>>, <<"JSON", O(<<<<"k", S("v&w")>>, <<"l", A(<<I("1")>>)>>>>)>>, <<"In", O(<<<<"k", I("1")>>>>)>>}
Typed == {<<"JSON", S(s)>> : s \in Strings} \cup {<<"String", S(s)>> : s \in {"s", "a&b=c"}} \cup Scalars
Plain == {<<"String", S(s)>> : s \in Strings}
HeaderSafe == {<<"String", S(s)>> : s \in Strings \ {"~u~n", "~e|^`<>[]", "", " ", "~z"}}
VarSafe == {<<"String", S(s)>> : s \in Strings \ {"~z"}}
EnvSafe == {<<"String", S("s")>>, <<"String", S("")>>}     \* the environment is spliced into the text of the configuration
Sources == {"args", "value", "headers", "vars", "env"}
Of(src, vs) == IF src \in {"args", "value"} THEN vs ELSE IF src = "headers" THEN HeaderSafe ELSE IF src = "vars" THEN VarSafe ELSE EnvSafe
YText == "Y&=/"

\* ---- texts of values
RECURSIVE Quote(_), JsonText(_)
Quote(s) == "\"" \o Join([i \in 1..Len(s) |-> LET ch == SubSeq(s, i, i) IN IF ch = "\"" THEN "\\\"" ELSE IF ch = "\\" THEN "\\\\" ELSE ch]) \o "\""
JsonText(v) == CASE v[1] = "n" -> "null" [] v[1] = "s" -> Quote(v[2]) [] v[1] \in {"i", "f", "b"} -> v[2]
                 [] v[1] = "a" -> "[" \o Commas([i \in 1..Len(v[2]) |-> JsonText(v[2][i])]) \o "]"
                 [] OTHER -> "{" \o Commas([i \in 1..Len(v[2]) |-> Quote(v[2][i][1]) \o ":" \o JsonText(v[2][i][2])]) \o "}"
IsScalar(v) == v[1] \in {"s", "i", "f", "b"}
Text(v) == CASE IsScalar(v) -> v[2] [] v[1] = "n" -> "" [] OTHER -> JsonText(v)
\* the value of a piece that is an expression
Val(p) == IF p = "X" THEN c.v[2] ELSE IF p = "Y" THEN S(YText) ELSE Null
Piece(p) == IF p = "T" THEN "t-" ELSE Text(Val(p))
Render(ps) == Join([i \in 1..Len(ps) |-> Piece(ps[i])])

\* ---- query parameters
RECURSIVE Pairs(_, _)
Pairs(k, v) == CASE IsScalar(v) -> <<<<k, <<v[2]>>>>>>
                 [] IsArr(v) /\ v[2] # <<>> -> FlattenSeq([i \in 1..Len(v[2]) |-> Pairs(k, v[2][i])])
                 [] OTHER -> <<<<k, <<>>>>>>
RECURSIVE Part(_)
Part(v) == IF IsScalar(v) THEN v[2] ELSE IF IsArr(v) THEN Commas([i \in 1..Len(SelectSeq(v[2], IsScalar)) |-> SelectSeq(v[2], IsScalar)[i][2]]) ELSE ""
Entry(e) ==
  IF Len(e.ps) = 1 /\ e.ps[1] # "T" THEN LET r == Pairs(e.k, Val(e.ps[1])) IN IF e.skip /\ r = <<<<e.k, <<>>>>>> THEN <<>> ELSE r
  ELSE LET t == Join([i \in 1..Len(e.ps) |-> IF e.ps[i] = "T" THEN "t-" ELSE Part(Val(e.ps[i]))]) IN
       IF t # "" THEN <<<<e.k, <<t>>>>>> ELSE IF e.skip THEN <<>> ELSE <<<<e.k, <<>>>>>>
\* of a base URL: <<key, pieces>>
BasePairs(b) == FlattenSeq([i \in 1..Len(b) |-> LET t == Render(b[i][2]) IN IF t = "" THEN <<>> ELSE <<<<b[i][1], <<t>>>>>>])
Bases == {<<>>, <<<<"z", <<"T">>>>>>, <<<<"z", <<"T">>>>, <<"w", <<"Y">>>>>>, <<<<"w", <<"T", "Y">>>>>>}
\* an empty text with skipEmpty may be sent or left out
Open(es) == \E i \in 1..Len(es) : es[i].skip /\ \E p \in {"X"} : es[i].ps = <<p>> /\ Val(p) = S("")

\* ---- paths: segments of pieces
SegShapes == {<<"X">>, <<"T", "X">>, <<"X", "T">>, <<"X", "Y">>, <<"T", "X", "T", "Y">>}
Dots == {".", ".."}
PathOut(ss) == [i \in 1..Len(ss) |-> Render(ss[i])]

\* ---- bodies: JSON values whose texts are <<"p", pieces>>
P(ps) == <<"p", ps>>
Bodies == {P(<<"X">>), O(<<<<"a", P(<<"X">>)>>>>), O(<<<<"a", P(<<"T", "X">>)>>, <<"b", P(<<"Y">>)>>, <<"c", I("1")>>>>), A(<<P(<<"X">>), I("1"), Null, P(<<"X", "Y", "T">>)>>),
           O(<<<<"d", O(<<<<"e", A(<<P(<<"T", "X", "T">>), <<"b", "false">>>>)>>>>)>>>>), O(<<<<"a", I("1")>>, <<"b", P(<<"T">>)>>, <<"m", P(<<"M">>)>>, <<"q", S("\"")>>>>)}
Flat == {O(<<<<"a", P(<<"X">>)>>, <<"b", P(<<"Y">>)>>>>), O(<<<<"a", P(<<"T", "X", "T">>)>>, <<"n", I("1")>>, <<"u", S("~u &=")>>>>)}
RECURSIVE Body(_)
Body(b) == CASE b[1] = "p" -> S(Render(b[2])) [] b[1] = "a" -> A([i \in 1..Len(b[2]) |-> Body(b[2][i])])
             [] b[1] = "o" -> O([i \in 1..Len(b[2]) |-> <<b[2][i][1], Body(b[2][i][2])>>]) [] OTHER -> b
BodyOut == IF c.enc = "form" THEN [kind |-> "form", v |-> [i \in 1..Len(c.body[2]) |-> <<c.body[2][i][1], <<Text(Body(c.body)[2][i][2])>>>>]]
           ELSE IF c.body[1] = "p" THEN (IF Val("X")[1] \in {"s", "n"} THEN [kind |-> "open", v |-> Null] ELSE [kind |-> "json", v |-> Val("X")]) ELSE [kind |-> "json", v |-> Body(c.body)]

\* ---- headers: the configured one, and the one of the client that is allowed to pass
Heads == {<<"X">>, <<"T", "X">>, <<"X", "Y">>, <<"T">>}
Clients == {<<>>, <<"mine">>}
Bad(t) == t \in {"~u~n", "t-~u~n", "~u~nY&=/", "~z", "t-~z", "~zY&=/"}
HeadOut == IF c.client # <<>> /\ c.same THEN c.client ELSE LET t == Render(c.ps) IN IF Bad(t) THEN <<>> ELSE <<t>>

Via == IF Few THEN {"plain"} ELSE {"plain", "loader", "dedupe"}
Methods == {"POST", "PUT", "PATCH", "DELETE"}
EntryShapes == {<<"X">>, <<"T", "X">>, <<"X", "T">>, <<"T">>, <<"X", "Y">>, <<"M">>, <<"T", "M">>}
All == Typed \cup Lists \cup Objects
Fits(src, v) == v \in Of(src, All)
E(k, ps, skip) == [k |-> k, ps |-> ps, skip |-> skip]
Inputs ==
  CASE Family = "query" -> UNION {[kind : {"query"}, src : {s}, v : {v \in Of(s, All) : v[1] # "In"}, base : Bases, es : {<<E("k", ps, sk)>> : ps \in EntryShapes, sk \in BOOLEAN}, via : IF s = "args" THEN Via ELSE {"plain"}] : s \in IF Few THEN {"args", "value"} ELSE Sources}
    [] Family = "entries" -> [kind : {"query"}, src : {"args"}, v : {<<"JSON", S("a&b=c")>>, <<"JSON", Null>>, <<"[Int]", A(<<I("1"), I("2")>>)>>, <<"JSON", A(<<>>)>>}, base : {<<>>, <<<<"z", <<"T">>>>>>}, via : {"plain"},
          es : {<<E("k", p, sk), E(k2, p2, sk2)>> : p \in {<<"X">>, <<"T", "X">>}, p2 \in {<<"X">>, <<"Y">>, <<"T">>, <<"M">>}, sk \in BOOLEAN, sk2 \in BOOLEAN, k2 \in {"k", "j"}}]
    [] Family = "path" -> UNION {[kind : {"path"}, src : {s}, v : {v \in Of(s, All) : v[2] # Null /\ v[1] \in {"JSON", "Int", "Boolean", "E", "ID", "String"}}, ss : {<<a>> : a \in SegShapes} \cup {<< <<"T">>, a, <<"T">> >> : a \in SegShapes} \cup {<<a, <<"X">> >> : a \in {<<"X">>, <<"Y">>}}, base : {<<>>, <<<<"z", <<"X">>>>>>, <<<<"z", <<"T", "X">>>>, <<"y", <<"Y">>>>>>}, via : {"plain"}] : s \in {"args", "value"}}
    [] Family = "body" -> UNION {[kind : {"body"}, src : {s}, v : Of(s, All), body : b, enc : {"json"}, m : Methods, via : {"plain"}] : s \in IF Few THEN {"args"} ELSE {"args", "value", "env"}, b \in {Bodies}}
                       \cup [kind : {"body"}, src : {"args"}, v : Typed, body : Flat, enc : {"form"}, m : {"POST", "PUT"}, via : {"plain"}]
    [] OTHER -> UNION {[kind : {"head"}, src : {s}, v : Of(s, Typed), ps : Heads, client : Clients, same : BOOLEAN, m : {"GET", "POST"}, enc : {"json", "form"}, via : {"plain"}] : s \in Sources}
Out == CASE c.kind = "query" -> [path |-> <<"u">>, query |-> BasePairs(c.base) \o FlattenSeq([i \in 1..Len(c.es) |-> Entry(c.es[i])]), open |-> Open(c.es)]
         [] c.kind = "path" -> [path |-> <<"u">> \o PathOut(c.ss), query |-> BasePairs(c.base), open |-> FALSE]
         [] c.kind = "body" -> [body |-> BodyOut]
         [] OTHER -> [head |-> HeadOut]

Init == c \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out]))
Spec == Init /\ [][Next]_<<c, done>>

\* ---- laws
\* no value changes how many segments a path has
Segments == (done /\ c.kind = "path") => Len(Out.path) = 1 + Len(c.ss)
\* no value adds a parameter of another name, and only lists repeat one
Keys == (done /\ c.kind = "query") => \A i \in 1..Len(Out.query) : Out.query[i][1] \in ({"z", "w"} \cup {c.es[j].k : j \in 1..Len(c.es)})
Repeats == (done /\ c.kind = "query" /\ ~IsArr(c.v[2])) => Len(Out.query) <= Len(c.base) + Len(c.es)
\* a body has the shape that is configured
RECURSIVE Shape(_)
Shape(b) == CASE b[1] \in {"p", "s"} -> <<"s">> [] b[1] = "a" -> A([i \in 1..Len(b[2]) |-> Shape(b[2][i])]) [] b[1] = "o" -> O([i \in 1..Len(b[2]) |-> <<b[2][i][1], Shape(b[2][i][2])>>]) [] OTHER -> b
Bodied == (done /\ c.kind = "body" /\ c.enc = "json" /\ c.body[1] # "p") => Shape(Out.body.v) = Shape(c.body)
===============================================================================
