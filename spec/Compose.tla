-------------------------------- MODULE Compose --------------------------------
(* P29: fields composed of resolvers and directives. A configuration is a sequence of types [n, kind, fields, added]; a field is
   [n, t, args, res, mod, prot]: `res` its resolvers in order (<<>>: read from the parent), `mod` <<>>, <<"name", new>> or <<"omit">>.
   An added field is [n, path]. A type reference is <<"n", name>> or <<"l", reference>>; nothing is required.
   A resolver: <<"expr", template>>, <<"get", upstream>>, <<"call", steps>> with steps [f, args] (args <<>> or <<pairs of name and template>>).
   A template: <<"lit", value>>, <<"text", parts>>, <<"obj", pairs>>, <<"arr", items>>; a part: <<"t", text>> or <<"p", path>>. *)
EXTENDS JsonVal, Json
CONSTANTS Family, Wide
VARIABLES c, done
s(x) == <<"s", x>>  i(x) == <<"i", ToString(x)>>  o(x) == <<"o", x>>  a(x) == <<"a", x>>
N(x) == <<"n", x>>  L(x) == <<"l", x>>
RECURSIVE Base(_)
Base(t) == IF t[1] = "n" THEN t[2] ELSE Base(t[2])
Leafs == {"Int", "String", "JSON", "E"}
Fd(n, t, res, mod) == [n |-> n, t |-> t, args |-> <<>>, res |-> res, mod |-> mod, prot |-> FALSE]
Plain(n, t) == Fd(n, t, <<>>, <<>>)
Ty(n, fields, added) == [n |-> n, kind |-> "type", fields |-> fields, added |-> added]
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Flat(Tail(x))
Find(sq, n) == LET m == SelectSeq(sq, LAMBDA x : x.n = n) IN IF m = <<>> THEN <<>> ELSE <<m[1]>>

\* ---- templates: text that is JSON counts as that JSON
Fail == <<"fail">>
Reads == [t \in {"1", "2", "7", "11", "12", "21", "71", "17", "null", "true"} |-> CASE t = "null" -> Null [] t = "true" -> <<"b", "true">> [] OTHER -> <<"i", t>>]
FromText(t) == IF t \in DOMAIN Reads THEN Reads[t] ELSE s(t)
Ref(x, p) == GetPath(o(<< <<"args", x.args>>, <<"value", x.value>> >>), p)
TextOf(v) == IF v = <<>> \/ v = <<Null>> THEN "" ELSE v[1][2]
RECURSIVE Concat(_, _), Render(_, _)
Concat(x, ps) == IF ps = <<>> THEN "" ELSE (IF ps[1][1] = "t" THEN ps[1][2] ELSE TextOf(Ref(x, ps[1][2]))) \o Concat(x, Tail(ps))
Render(x, t) == CASE t[1] = "lit" -> t[2]
                  [] t[1] = "obj" -> o([j \in DOMAIN t[2] |-> <<t[2][j][1], Render(x, t[2][j][2])>>])
                  [] t[1] = "arr" -> a([j \in DOMAIN t[2] |-> Render(x, t[2][j])])
                  [] OTHER -> LET w == IF Len(t[2]) = 1 THEN Ref(x, t[2][1][2]) ELSE <<>>
                              IN IF w # <<>> /\ w[1][1] \in {"a", "o", "i", "b"} THEN w[1] ELSE FromText(Concat(x, t[2]))

\* ---- merging what several resolvers give: the later one wins, lists and objects are combined
RECURSIVE Merge2(_, _), MergeIn(_, _)
MergeIn(fs, f) == IF fs = <<>> THEN <<f>> ELSE IF fs[1][1] = f[1] THEN << <<f[1], Merge2(fs[1][2], f[2])>> >> \o Tail(fs) ELSE <<fs[1]>> \o MergeIn(Tail(fs), f)
RECURSIVE MergeAll(_, _)
MergeAll(fs, gs) == IF gs = <<>> THEN fs ELSE MergeAll(MergeIn(fs, gs[1]), Tail(gs))
Merge2(x, y) == IF IsArr(x) THEN IF IsArr(y) THEN a(x[2] \o y[2]) ELSE a(Append(x[2], y))
                ELSE IF IsObj(x) /\ IsObj(y) THEN o(MergeAll(x[2], y[2])) ELSE y
RECURSIVE Combine(_)
Combine(vs) == IF Len(vs) = 1 THEN vs[1] ELSE Merge2(Combine(SubSeq(vs, 1, Len(vs) - 1)), vs[Len(vs)])

\* ---- aliases of an enumeration's values
Alias == [k \in {"A", "B", "x", "y", "z"} |-> CASE k \in {"x", "y"} -> "A" [] k = "z" -> "B" [] OTHER -> k]
RECURSIVE Named(_)
Named(v) == CASE v = Null -> v
              [] IsArr(v) -> (LET rs == [j \in DOMAIN v[2] |-> Named(v[2][j])] IN IF \E j \in DOMAIN rs : rs[j] = Fail THEN Fail ELSE a(rs))
              [] v[1] = "s" /\ v[2] \in DOMAIN Alias -> s(Alias[v[2]])
              [] OTHER -> Fail

\* ---- resolvers. x: the arguments and the parent's value
Ups(d, u) == LET m == SelectSeq(d, LAMBDA e : e[1] = u) IN IF m = <<>> THEN Fail ELSE m[1][2]
RECURSIVE Resolve(_, _, _), Own(_, _, _), Steps(_, _, _, _)
Resolve(w, r, x) == CASE r[1] = "expr" -> Render(x, r[2])
                      [] r[1] = "get" -> Ups(w.data, r[2])
                      [] OTHER -> Steps(w, r[2], x, 1)
\* what a step gives are the next step's arguments
Steps(w, ss, x, j) ==
  LET st == ss[j]
      v == Own(w, Find(Find(w.types, "Query")[1].fields, st.f)[1], IF st.args = <<>> THEN x ELSE [x EXCEPT !.args = Render(x, <<"obj", st.args[1]>>)])
  IN IF v = Fail \/ j = Len(ss) THEN v ELSE Steps(w, ss, [x EXCEPT !.args = v], j + 1)
Own(w, f, x) == LET vs == [j \in DOMAIN f.res |-> Resolve(w, f.res[j], x)]
                    v == IF \E j \in DOMAIN vs : vs[j] = Fail THEN Fail ELSE Combine(vs)
                IN IF v # Fail /\ Base(f.t) = "E" THEN Named(v) ELSE v
Value(w, f, x) == IF f.res # <<>> THEN Own(w, f, x) ELSE LET v == Get(x.value, f.n) IN IF v = <<>> THEN Null ELSE v[1]

\* ---- the type of a path: through objects by field, through lists by index; no field on the way has a resolver of its own
Index(p) == p \in DOMAIN Digit
RECURSIVE TypeAt(_, _, _)
TypeAt(w, t, p) ==
  IF p = <<>> THEN <<t>>
  ELSE IF Index(p[1]) THEN IF t[1] = "l" THEN TypeAt(w, t[2], Tail(p)) ELSE <<>>
  ELSE IF t[1] = "l" THEN LET inner == TypeAt(w, t[2], p) IN IF inner = <<>> THEN <<>> ELSE <<L(inner[1])>>
  ELSE LET ty == Find(w.types, t[2])
           f == IF ty = <<>> THEN <<>> ELSE Find(ty[1].fields, p[1])
       IN IF f = <<>> \/ f[1].res # <<>> THEN <<>> ELSE TypeAt(w, f[1].t, Tail(p))
AddedType(w, ty, ad) == LET f == Find(ty.fields, ad.path[1]) IN IF f = <<>> THEN <<>> ELSE TypeAt(w, f[1].t, Tail(ad.path))
\* a list that no index leads into is read element by element
RECURSIVE Descend(_, _)
Descend(v, p) == IF p = <<>> THEN <<v>>
                 ELSE IF IsArr(v) /\ ~Index(p[1]) THEN << a([j \in DOMAIN v[2] |-> LET d == Descend(v[2][j], p) IN IF d = <<>> THEN Null ELSE d[1]]) >>
                 ELSE LET nx == GetPath(v, <<p[1]>>) IN IF nx = <<>> THEN <<>> ELSE Descend(nx[1], Tail(p))

\* fields only steps refer to; no query asks for them
Unasked == {"dead", "en"}
\* ---- what a type shows: [n, t, get] with get the field and the path below its value
Shown(w, ty) == Flat([j \in DOMAIN ty.fields |-> LET f == ty.fields[j] IN
                        IF f.mod = <<"omit">> \/ f.n \in Unasked THEN <<>> ELSE << [n |-> IF f.mod = <<>> THEN f.n ELSE f.mod[2], t |-> f.t, f |-> f, path |-> <<>>] >>])
             \o [j \in DOMAIN ty.added |-> [n |-> ty.added[j].n, t |-> AddedType(w, ty, ty.added[j])[1], f |-> Find(ty.fields, ty.added[j].path[1])[1], path |-> Tail(ty.added[j].path)]]
Valid(w) == \A k \in DOMAIN w.types : \A j \in DOMAIN w.types[k].added : AddedType(w, w.types[k], w.types[k].added[j]) # <<>>
\* everything that is shown, as a selection and as the answer to it
RECURSIVE Sel(_, _)
Sel(w, name) == IF name \in Leafs THEN <<>>
                ELSE LET sh == Shown(w, Find(w.types, name)[1]) IN [j \in DOMAIN sh |-> [n |-> sh[j].n, sel |-> Sel(w, Base(sh[j].t))]]
RECURSIVE Shape(_, _, _), Answer(_, _, _, _)
Shape(w, t, v) == IF v = Null THEN Null
                  ELSE IF t = N("JSON") THEN <<"j", v>>
                  ELSE IF IsArr(v) # (t[1] = "l") THEN Null
                  ELSE IF t[1] = "l" THEN LET rs == [j \in DOMAIN v[2] |-> Shape(w, t[2], v[2][j])] IN IF \E j \in DOMAIN rs : rs[j] = Fail THEN Fail ELSE a(rs)
                  ELSE IF t[2] \in Leafs THEN v
                  ELSE IF ~IsObj(v) THEN Null
                  ELSE Answer(w, t[2], v, <<"o", <<>>>>)
Answer(w, name, value, args) ==
  LET sh == Shown(w, Find(w.types, name)[1])
      rs == [j \in DOMAIN sh |-> LET v == Value(w, sh[j].f, [args |-> args, value |-> value])
                                     d == IF v = Fail THEN <<Fail>> ELSE Descend(v, sh[j].path)
                                 IN IF d = <<>> THEN Null ELSE IF d = <<Fail>> THEN Fail ELSE Shape(w, sh[j].t, d[1])]
  IN IF \E j \in DOMAIN rs : rs[j] = Fail THEN Fail ELSE o([j \in DOMAIN sh |-> <<sh[j].n, rs[j]>>])

\* ---- worlds [types, data, args]: args are those given to every root field that takes some
World(types, data, args) == [types |-> types, data |-> data, args |-> args]
\* expressions over the arguments and over the parent's value
P(path) == <<"text", << <<"p", path>> >> >>
Lits == <<i(1), s("a"), s("1"), Null, <<"b", "true">>, o(<< <<"k", i(1)>>, <<"e", o(<<>>)>> >>), a(<<i(1), a(<<>>), Null>>)>>
Paths == << <<"args", "i">>, <<"args", "s">>, <<"args", "o">>, <<"args", "o", "k">>, <<"value", "v">>, <<"value", "w">>, <<"value", "w", "k">>, <<"value", "none">> >>
Temps == [j \in DOMAIN Lits |-> <<"lit", Lits[j]>>] \o [j \in DOMAIN Paths |-> P(Paths[j])]
  \o << <<"text", << <<"p", <<"args", "i">>>>, <<"p", <<"args", "s">>>> >> >>, <<"text", << <<"t", "x">>, <<"p", <<"args", "i">>>>, <<"t", "-">>, <<"p", <<"value", "v">>>> >> >>,
        <<"text", << <<"p", <<"value", "v">>>>, <<"t", "1">> >> >>,
        <<"obj", << <<"p", P(<<"args", "s">>)>>, <<"q", <<"arr", <<P(<<"args", "o">>), <<"lit", i(1)>>, <<"obj", << <<"v", P(<<"value", "v">>)>> >>>> >>>>>> >>>>,
        <<"arr", << P(<<"value", "w">>), <<"obj", <<>>>>, <<"arr", <<P(<<"args", "i">>)>>>> >>>> >>
Is == << <<>>, <<Null>>, <<i(1)>>, <<i(7)>> >>
Ss == << <<>>, <<s("a")>>, <<s("1")>>, <<s("null")>>, <<s("")>> >>
Os == << <<>>, <<o(<< <<"k", i(2)>> >>)>>, <<a(<<i(1), o(<< <<"k", s("2")>> >>)>>)>>, <<s("true")>> >>
ExprArgs == << [n |-> "i", t |-> N("Int")], [n |-> "s", t |-> N("String")], [n |-> "o", t |-> N("JSON")] >>
Given(x, y, z) == (IF x = <<>> THEN <<>> ELSE << <<"i", x[1]>> >>) \o (IF y = <<>> THEN <<>> ELSE << <<"s", y[1]>> >>) \o (IF z = <<>> THEN <<>> ELSE << <<"o", z[1]>> >>)
PVals == << o(<< <<"v", i(7)>>, <<"w", o(<< <<"k", s("true")>> >>)>> >>), o(<< <<"v", s("b")>>, <<"w", a(<<i(1)>>)>> >>), o(<< <<"v", Null>> >>) >>
ExprWorld(t, args, v) == World(<<Ty("Query", <<Fd("p", N("P"), << <<"expr", <<"lit", v>>>> >>, <<>>), [Fd("f", N("JSON"), << <<"expr", t>> >>, <<>>) EXCEPT !.args = ExprArgs]>>, <<>>),
                                  Ty("P", <<Plain("v", N("JSON")), [Fd("g", N("JSON"), << <<"expr", t>> >>, <<>>) EXCEPT !.args = ExprArgs], Plain("w", N("JSON"))>>, <<>>)>>, <<>>, args)
ExprCases == {ExprWorld(t, Given(x, y, z), v) : t \in Range(Temps), x \in Range(Is), y \in Range(Ss), z \in Range(Os), v \in Range(IF Wide THEN PVals ELSE SubSeq(PVals, 1, 2))}

\* several resolvers of one field
Gives == << o(<< <<"k", i(1)>>, <<"u", o(<< <<"a", i(1)>>, <<"l", a(<<i(1)>>)>> >>)>> >>), o(<< <<"u", o(<< <<"l", a(<<i(2)>>)>>, <<"b", Null>>, <<"a", s("z")>> >>)>>, <<"k", Null>> >>),
            o(<< <<"u", a(<<i(3)>>)>>, <<"m", s("m")>> >>), a(<<i(1), o(<<>>)>>), s("t"), Null, o(<<>>) >>
Parts == [j \in 1..14 |-> IF j < 8 THEN << <<"expr", <<"lit", Gives[j]>>>>, <<>> >> ELSE << <<"get", "u" \o ToString(j)>>, <<"u" \o ToString(j), Gives[j - 7]>> >>]
        \o << << <<"get", "down">>, <<>> >>, << <<"expr", P(<<"value", "v">>)>>, <<>> >> >>
MergeWorld(ps) == World(<<Ty("Query", <<Fd("p", N("P"), << <<"expr", <<"lit", o(<< <<"v", o(<< <<"k", i(5)>> >>)>> >>)>>>> >>, <<>>), Fd("m", N("JSON"), [j \in DOMAIN ps |-> Parts[ps[j]][1]], <<>>)>>, <<>>),
                          Ty("P", <<Fd("m", N("JSON"), [j \in DOMAIN ps |-> Parts[ps[j]][1]], <<>>), Plain("v", N("JSON"))>>, <<>>)>>,
                        Flat([j \in DOMAIN ps |-> IF Parts[ps[j]][2] = <<>> THEN <<>> ELSE <<Parts[ps[j]][2]>>]), <<>>)
MergeCases == {MergeWorld(ps) : ps \in UNION {[1..n -> 1..16] : n \in 1..2} \cup (IF Wide THEN [1..3 -> 1..16] ELSE [1..3 -> {1, 2, 3, 9, 10, 11, 13, 15, 16}])}

\* renamed, omitted and added fields
OType(m) == Ty("O", <<Plain("x", N("Int")), Fd("y", N("String"), <<>>, IF m = "inner" THEN <<"name", "yy">> ELSE IF m = "hide" THEN <<"omit">> ELSE <<>>), Plain("k", L(N("Int"))), Plain("d", N("D"))>>, <<>>)
DType == Ty("D", <<Plain("z", N("Int"))>>, <<>>)
TFields(m, pr, own) == <<Fd("v", N("Int"), <<>>, IF m = "v" THEN <<"name", "vv">> ELSE <<>>),
  [Fd("o", N("O"), IF own THEN << <<"expr", P(<<"value", "o">>)>> >> ELSE <<>>, CASE m = "o" -> <<"name", "oo">> [] m = "o-" -> <<"omit">> [] OTHER -> <<>>) EXCEPT !.prot = pr],
  Fd("l", L(N("O")), <<>>, CASE m = "l" -> <<"name", "ll">> [] m = "l-" -> <<"omit">> [] OTHER -> <<>>),
  Plain("g", L(N("Int"))), Plain("h", L(L(N("Int")))),
  Fd("e", N("O"), << <<"expr", <<"lit", o(<< <<"x", i(8)>>, <<"k", a(<<i(4), i(5)>>)>> >>)>>>> >>, IF m = "e" THEN <<"name", "ee">> ELSE IF m = "e-" THEN <<"omit">> ELSE <<>>)>>
Mods == {"", "v", "o", "o-", "l", "l-", "e", "e-", "inner", "hide"}
AddPaths == << <<"v">>, <<"o">>, <<"o", "x">>, <<"o", "y">>, <<"o", "k">>, <<"o", "k", "1">>, <<"o", "d", "z">>, <<"o", "d">>, <<"l">>, <<"l", "0">>, <<"l", "1", "x">>, <<"l", "0", "k">>, <<"l", "0", "k", "1">>, <<"l", "0", "d">>,
               <<"g", "0">>, <<"g">>, <<"h", "1">>, <<"h", "0", "1">>, <<"h">>, <<"e">>, <<"e", "x">>, <<"e", "k">>, <<"e", "k", "1">>, <<"l", "x">>, <<"l", "k">>, <<"o", "none">>, <<"none">>, <<"o", "none", "x">>, <<"o", "v">>, <<"l", "0", "v">> >>
OVal(n) == o(<< <<"x", i(n)>>, <<"y", s("y")>>, <<"k", a(<<i(n), i(2)>>)>>, <<"d", o(<< <<"z", i(9)>> >>)>> >>)
TVals == << o(<< <<"v", i(1)>>, <<"o", OVal(3)>>, <<"l", a(<<OVal(4), OVal(5)>>)>>, <<"g", a(<<i(6), i(7)>>)>>, <<"h", a(<<a(<<i(1), i(2)>>), a(<<i(3)>>)>>)>> >>),
            o(<< <<"v", Null>>, <<"o", o(<< <<"k", a(<<>>)>>, <<"d", Null>> >>)>>, <<"l", a(<<Null>>)>>, <<"g", a(<<Null>>)>>, <<"h", a(<<>>)>> >>),
            o(<< <<"o", Null>>, <<"l", a(<<>>)>> >>) >>
ModWorld(m, ads, v, pr, lst, own) == World(<<Ty("Query", <<Fd("t", IF lst THEN L(N("T")) ELSE N("T"), << <<"get", "t">> >>, <<>>)>>, <<>>),
                                  Ty("T", TFields(m, pr, own), [j \in DOMAIN ads |-> [n |-> "add" \o ToString(j), path |-> ads[j]]]), OType(m), DType>>, << <<"t", IF lst THEN a(<<v, TVals[1], Null>>) ELSE v>> >>, <<>>)
ModCases == {ModWorld(m, <<AddPaths[p]>>, TVals[v], FALSE, FALSE, FALSE) : m \in Mods, p \in DOMAIN AddPaths, v \in DOMAIN TVals}
       \cup {ModWorld(m, <<AddPaths[p]>>, TVals[v], pr, lst, own) : m \in {"", "o"}, p \in DOMAIN AddPaths, v \in (IF Wide THEN {1, 2, 3} ELSE {1}), pr \in BOOLEAN, lst \in BOOLEAN, own \in BOOLEAN}
       \cup {ModWorld(m, <<>>, TVals[v], FALSE, lst, own) : m \in Mods, v \in DOMAIN TVals, lst \in BOOLEAN, own \in BOOLEAN}
       \cup {ModWorld(m, <<AddPaths[p], AddPaths[q]>>, TVals[1], FALSE, FALSE, own) : m \in {"", "v", "o-"}, p \in (IF Wide THEN DOMAIN AddPaths ELSE {1, 3, 11}), q \in DOMAIN AddPaths, own \in BOOLEAN}
\* added to the type whose field is fetched; its other fields must not be taken for those of the fetched one
RootPaths == << <<"t">>, <<"t", "v">>, <<"t", "o">>, <<"t", "o", "x">>, <<"t", "l">>, <<"t", "l", "1", "k">>, <<"t", "g">>, <<"t", "g", "1">>, <<"ts">>, <<"ts", "0", "v">>, <<"ts", "1", "o", "k">>, <<"ts", "0", "l", "0">>, <<"t", "other">>, <<"t", "e", "x">>, <<"t", "h", "0">>, <<"ts", "v">>, <<"ts", "1", "g">> >>
RootWorld(p, m, v, pr) == World(<<Ty("Query", <<[Fd("t", N("T"), << <<"get", "t">> >>, IF m = "t" THEN <<"name", "tt">> ELSE IF m = "t-" THEN <<"omit">> ELSE <<>>) EXCEPT !.prot = pr], Fd("ts", L(N("T")), << <<"get", "ts">> >>, <<>>),
                                     Fd("v", L(N("String")), << <<"expr", <<"lit", a(<<s("w")>>)>>>> >>, <<>>), Fd("g", N("Int"), << <<"expr", <<"lit", i(5)>>>> >>, <<>>), Fd("other", N("Int"), << <<"expr", <<"lit", i(5)>>>> >>, <<>>)>>, << [n |-> "add", path |-> p] >>),
                           Ty("T", TFields("", FALSE, FALSE), <<>>), OType(""), DType>>, << <<"t", TVals[v]>>, <<"ts", a(<<TVals[v], TVals[1]>>)>> >>, <<>>)
RootCases == {RootWorld(RootPaths[p], m, v, pr) : p \in DOMAIN RootPaths, m \in {"", "t", "t-"}, v \in DOMAIN TVals, pr \in BOOLEAN}

\* steps
StepFields == << [Fd("pick", N("JSON"), << <<"expr", P(<<"args", "in", "k">>)>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                 [Fd("wrap", N("JSON"), << <<"expr", <<"obj", << <<"in", P(<<"args", "in">>)>> >>>>>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                 [Fd("all", N("JSON"), << <<"expr", <<"obj", << <<"in", P(<<"args">>)>> >>>>>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                 [Fd("two", N("JSON"), << <<"expr", <<"obj", << <<"in", <<"lit", o(<< <<"k", i(1)>> >>)>>>> >>>>>>, <<"get", "two">> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                 [Fd("dead", N("JSON"), << <<"get", "down">> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                 [Fd("en", N("E"), << <<"expr", P(<<"args", "in">>)>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>] >>
StepArgs == << <<>>, << << <<"in", P(<<"args", "in">>)>> >> >>, << << <<"in", P(<<"args", "in", "k">>)>> >> >>, << << <<"in", <<"lit", s("x")>>>> >> >>, << << <<"in", P(<<"value", "v">>)>> >> >>, << << <<"in", P(<<"args">>)>> >> >> >>
StepNames == {"pick", "wrap", "all", "two"} \cup {"dead", "en"}
StepSet == {[f |-> f, args |-> ar] : f \in StepNames, ar \in Range(StepArgs)}
FewSteps == {[f |-> "pick", args |-> <<>>], [f |-> "wrap", args |-> <<>>], [f |-> "all", args |-> <<>>], [f |-> "wrap", args |-> StepArgs[3]], [f |-> "two", args |-> StepArgs[5]], [f |-> "en", args |-> StepArgs[4]]}
CallIns == << <<>>, <<o(<< <<"k", o(<< <<"k", s("y")>> >>)>> >>)>>, <<s("z")>>, <<Null>> >>
CallWorld(ss, in) == World(<<Ty("Query", StepFields \o <<[Fd("f", N("JSON"), << <<"call", ss>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>],
                                Fd("p", N("P"), << <<"expr", <<"lit", o(<< <<"v", o(<< <<"k", s("x")>> >>)>> >>)>>>> >>, <<>>)>>, <<>>),
                             Ty("P", <<[Fd("c", N("JSON"), << <<"call", ss>> >>, <<>>) EXCEPT !.args = << [n |-> "in", t |-> N("JSON")] >>], Plain("v", N("JSON"))>>, <<>>)>>,
                           << <<"two", o(<< <<"in", o(<< <<"m", i(2)>> >>)>> >>)>> >>, IF in = <<>> THEN <<>> ELSE << <<"in", in[1]>> >>)
CallCases == {CallWorld(ss, in) : ss \in UNION {[1..n -> StepSet] : n \in 1..2} \cup (IF Wide THEN [1..3 -> StepSet] ELSE [1..3 -> FewSteps]), in \in (IF Wide THEN Range(CallIns) ELSE {CallIns[1], CallIns[2], CallIns[3]})}

\* enumerations
EVals == {s("A"), s("x"), s("y"), s("z"), s("q"), Null, i(1), a(<<s("x"), s("B"), Null>>), a(<<>>), a(<<a(<<s("z")>>)>>), a(<<s("x"), s("q")>>), o(<<>>)}
ETypes == {N("E"), L(N("E")), L(L(N("E")))}
EMods == {<<>>, <<"name", "f">>}
EnumWorld(t, v, m, k) == World(<<Ty("Query", <<CASE k = "expr" -> Fd("e", t, << <<"expr", <<"lit", v>>>> >>, m) [] k = "get" -> Fd("e", t, << <<"get", "e">> >>, m)
                                                 [] k = "tmpl" -> Fd("e", t, << <<"expr", P(<<"args", "v">>)>> >>, m) [] OTHER -> Fd("e", t, << <<"expr", <<"lit", Null>>>>, <<"get", "e">> >>, m)>>, <<>>)>>, << <<"e", v>> >>, <<>>)
EnumCases == {EnumWorld(t, v, m, k) : t \in ETypes, v \in EVals, m \in EMods, k \in {"get", "merge"}}

Cases == CASE Family = "expr" -> ExprCases [] Family = "merge" -> MergeCases [] Family = "mod" -> ModCases [] Family = "root" -> RootCases [] Family = "call" -> CallCases [] OTHER -> EnumCases
\* the answer to every field shown by the root, the arguments given to those that take some
RootAnswer(w) == Answer(w, "Query", o(<<>>), o(w.args))
Init == c \in Cases /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([w |-> c, ok |-> Valid(c), sel |-> IF Valid(c) THEN Sel(c, "Query") ELSE <<>>, res |-> IF Valid(c) THEN RootAnswer(c) ELSE Fail]))
\* laws
\* omitting or renaming a field, or adding one, changes no other field's value
Without(w) == [w EXCEPT !.types = [k \in DOMAIN w.types |-> [w.types[k] EXCEPT !.added = <<>>, !.fields = [j \in DOMAIN w.types[k].fields |-> [w.types[k].fields[j] EXCEPT !.mod = <<>>]]]]]
TopOf(w) == Find(w.types, "Query")[1].fields
Undisturbed == (done /\ Valid(c) /\ Family = "root") => LET x == RootAnswer(c) y == RootAnswer(Without(c)) IN x = Fail \/ y = Fail \/ \A n \in {"ts", "v", "g", "other"} : Get(x, n) = Get(y, n)
\* a literal is its own value
Literal == (done /\ Family = "expr" /\ TopOf(c)[2].res[1][2][1] = "lit") => LET v == TopOf(c)[2].res[1][2][2] IN Get(RootAnswer(c), "f") = <<IF v = Null THEN Null ELSE <<"j", v>>>>
\* enumerations answer only with declared values or nothing
OnlyNames(v) == v = Null \/ v = s("A") \/ v = s("B")
Declared == (done /\ Family = "enum" /\ RootAnswer(c) # Fail) => LET e == RootAnswer(c)[2][1][2] IN
   OnlyNames(e) \/ (IsArr(e) /\ \A j \in DOMAIN e[2] : OnlyNames(e[2][j]) \/ (IsArr(e[2][j]) /\ \A k \in DOMAIN e[2][j][2] : OnlyNames(e[2][j][2][k])))
\* merging in groups is merging one by one
Grouped == (done /\ Family = "merge" /\ Len(TopOf(c)[2].res) = 3) =>
   LET vs == [j \in 1..3 |-> Resolve(c, TopOf(c)[2].res[j], [args |-> o(<<>>), value |-> o(<<>>)])]
   IN (\A j \in 1..3 : IsObj(vs[j]) /\ (\A k \in DOMAIN vs[j][2] : IsObj(vs[j][2][k][2]) => TRUE)) /\ (\A j \in 1..3 : vs[j] \in {Gives[1], Gives[2], Gives[7]}) => Merge2(Merge2(vs[1], vs[2]), vs[3]) = Merge2(vs[1], Merge2(vs[2], vs[3]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
