------------------------------- MODULE Transforms -------------------------------
(* P35: improving a configuration (merging similar types, renaming, removing the unused, taking unions apart, telling input from output types, taking
   types of a single field out) does not change what it serves. A configuration is a graph of types; what it serves is what it answers when asked for
   everything up to a depth, over an upstream whose data has exactly the configured shape.
   A field: [n, ty, l (list), w (how it is wrapped, if not by l: "[%!]"), aw (the same of its argument), res: "" from the parent | a text that is its constant | "echo" its argument `i`, arg: type of `i` or ""]. *)
EXTENDS JsonVal, Json, TLC
CONSTANTS Family, Thorough
VARIABLES c, done

F(n, ty) == [n |-> n, ty |-> ty, l |-> FALSE, w |-> "", aw |-> "", res |-> "", arg |-> ""]
FW(n, ty, w) == [F(n, ty) EXCEPT !.w = w]
FL(n, ty) == [F(n, ty) EXCEPT !.l = TRUE]
FC(n, res) == [F(n, "String") EXCEPT !.res = res]
FE(n, in) == [F(n, "JSON") EXCEPT !.res = "echo", !.arg = in]
Scalars == {"Int", "String", "JSON", "Float", "Boolean"}
None == [x \in {} |-> <<>>]
Cfg(types) == [types |-> types, unions |-> None, enums |-> None, impl |-> None]
Leaf(x, t) == t \in Scalars \cup DOMAIN x.enums
Members(x, t) == IF t \in DOMAIN x.unions THEN x.unions[t] ELSE SelectSeq(SetToSeq({u \in DOMAIN x.impl : t \in x.impl[u]}), LAMBDA u : TRUE)
Abstract(x, t) == t \in DOMAIN x.unions \/ \E u \in DOMAIN x.impl : t \in x.impl[u]
\* concrete types of a type: unions within unions, interfaces within interfaces
RECURSIVE Concrete(_, _, _)
Concrete(x, t, d) == IF ~Abstract(x, t) THEN {t} ELSE IF d = 0 THEN {} ELSE UNION {Concrete(x, Members(x, t)[k], d - 1) : k \in DOMAIN Members(x, t)}
Of(x, t) == SetToSeq(Concrete(x, t, 4))

\* types of a single field, taken out: the names on the way to a leaf, <<>> if there is none
Flat == \E k \in DOMAIN c.ts : c.ts[k].t = "flatten_single_field"
RECURSIVE Way(_, _, _)
Way(x, t, seen) == IF Leaf(x, t) THEN <<"">>
                   ELSE IF t \in seen \/ Abstract(x, t) \/ Len(x.types[t]) # 1 THEN <<>>
                   ELSE IF x.types[t][1].res # "" THEN <<>>
                   ELSE LET w == Way(x, x.types[t][1].ty, seen \cup {t}) IN IF w = <<>> THEN <<>> ELSE <<x.types[t][1].n>> \o w
Short(x, t) == Flat /\ ~Leaf(x, t) /\ Way(x, t, {}) # <<>>
\* names after renaming
Ren(t) == LET ms == UNION {Range(c.ts[k].map) : k \in {j \in DOMAIN c.ts : c.ts[j].t = "rename_types"}} IN
          IF \E m \in ms : m[1] = t THEN (CHOOSE m \in ms : m[1] = t)[2] ELSE t
\* what can be asked for: <<key, selection>> of each field; a selection is <<"leaf">>, <<"obj", fields>> or <<"any", <<<<type, fields>>, ..>>>>
RECURSIVE Sel(_, _, _), Fields(_, _, _)
Sel(x, t, d) == IF Leaf(x, t) \/ Short(x, t) THEN <<"leaf">>
                ELSE IF Abstract(x, t) THEN <<"any", [k \in DOMAIN Of(x, t) |-> <<Of(x, t)[k], Fields(x, Of(x, t)[k], d)>>]>>
                ELSE <<"obj", Fields(x, t, d)>>
Fields(x, t, d) == LET all == [k \in DOMAIN x.types[t] |-> <<x.types[t][k].n, IF d = 0 /\ ~Leaf(x, x.types[t][k].ty) /\ ~Short(x, x.types[t][k].ty) THEN <<"none">> ELSE Sel(x, x.types[t][k].ty, d - 1)>>]
                   IN SelectSeq(all, LAMBDA f : f[2] \notin {<<"none">>, <<"obj", <<>> >>})
\* a value of a type; p: where it is
RECURSIVE Val(_, _, _, _), One(_, _, _, _)
Num(p) == 10 + Len(p)
One(x, t, p, d) ==
  CASE t = "Int" -> <<"i", ToString(Num(p))>>
    [] t = "Float" -> <<"f", ToString(Num(p)) \o ".5">>
    [] t = "Boolean" -> <<"b", "true">>
    [] t = "String" -> <<"s", p>>
    [] t = "JSON" -> <<"o", << <<"k", <<"s", p>> >> >> >>
    [] t \in DOMAIN x.enums -> <<"s", x.enums[t][1]>>
    [] OTHER -> LET all == [k \in DOMAIN x.types[t] |-> LET f == x.types[t][k] IN <<f.n, IF d = 0 /\ ~Leaf(x, f.ty) THEN Null ELSE Val(x, f, p \o "." \o f.n, d - 1)>>]
                IN <<"o", SelectSeq(all, LAMBDA m : m[2] # Null)>>
\* values of abstract types say their type: {"A": {..}}
Keyed(x, t, p, d) == <<"o", << <<Ren(t), One(x, t, p, d)>> >> >>
Deep(w) == Cardinality({i \in 1..Len(w) : SubSeq(w, i, i) = "["})
RECURSIVE Nest(_, _)
Nest(v, n) == IF n = 0 THEN v ELSE Nest(<<"a", <<v>> >>, n - 1)
Val(x, f, p, d) == IF f.w # "" THEN Nest(One(x, f.ty, p, d), Deep(f.w))
                   ELSE IF f.l /\ Abstract(x, f.ty) THEN <<"a", [k \in DOMAIN Of(x, f.ty) |-> Keyed(x, Of(x, f.ty)[k], p \o ToString(k), d)]>>
                   ELSE IF f.l THEN <<"a", <<One(x, f.ty, p \o "1", d), One(x, f.ty, p \o "22", d)>> >>
                   ELSE IF Abstract(x, f.ty) THEN Keyed(x, Of(x, f.ty)[1], p, d)
                   ELSE One(x, f.ty, p, d)
\* the answer at a place with value v
RECURSIVE Walk(_, _, _), Ans(_, _, _, _, _), Obj(_, _, _, _)
Walk(x, t, v) == IF Leaf(x, t) \/ v = Null THEN v
                 ELSE IF IsArr(v) THEN <<"a", [k \in DOMAIN v[2] |-> Walk(x, t, v[2][k])]>>
                 ELSE LET f == x.types[t][1]  m == Get(v, f.n) IN IF f.res # "" THEN <<"s", f.res>> ELSE IF m = <<>> THEN Null ELSE Walk(x, f.ty, m[1])
Obj(x, t, v, fs) == <<"o", [k \in DOMAIN fs |-> LET f == CHOOSE g \in Range(x.types[t]) : g.n = fs[k][1] IN
                            <<f.n, CASE f.res = "echo" -> Val(x, FW("i", f.arg, f.aw), f.n, 3)
                                     [] f.res # "" -> <<"s", f.res>>
                                     [] OTHER -> LET m == Get(v, f.n) IN IF m = <<>> THEN Null ELSE IF Short(x, f.ty) THEN Walk(x, f.ty, m[1]) ELSE Ans(x, f.ty, Concrete(x, f.ty, 4), m[1], fs[k][2])>>]>>
Ans(x, t, ts, v, sel) ==
  IF v = Null \/ sel = <<"leaf">> THEN v
  ELSE IF IsArr(v) THEN <<"a", [k \in DOMAIN v[2] |-> Ans(x, t, ts, v[2][k], sel)]>>
  ELSE IF sel[1] = "obj" THEN Obj(x, t, v, sel[2])
  ELSE LET u == CHOOSE y \in ts : Ren(y) = v[2][1][1]
           fr == CHOOSE g \in Range(sel[2]) : g[1] = u
       IN <<"o", << <<"__typename", <<"s", Ren(u)>> >> >> \o Obj(x, u, v[2][1][2], fr[2])[2]>>
\* the argument of a field that repeats it
Args(x) == [k \in DOMAIN x.types["Query"] |-> LET f == x.types["Query"][k] IN IF f.arg = "" THEN Null ELSE Val(x, FW("i", f.arg, f.aw), f.n, 3)]
Depth == 3
Data(x) == [k \in DOMAIN x.types["Query"] |-> LET f == x.types["Query"][k] IN Val(x, f, f.n, Depth)]
Served(x) == LET fs == Fields(x, "Query", Depth) IN Obj(x, "Query", <<"o", [k \in DOMAIN x.types["Query"] |-> <<x.types["Query"][k].n, Data(x)[k]>>]>>, fs)

\* ---- what is in use
RECURSIVE Used(_, _)
Next1(x, t) == IF t \in DOMAIN x.unions THEN Range(x.unions[t])
               ELSE IF t \in DOMAIN x.types THEN {x.types[t][k].ty : k \in DOMAIN x.types[t]} \cup {x.types[t][k].arg : k \in DOMAIN x.types[t]}
                                                 \cup (IF t \in DOMAIN x.impl THEN x.impl[t] ELSE {}) \cup {u \in DOMAIN x.impl : t \in x.impl[u]}
               ELSE {}
Used(x, s) == LET n == s \cup UNION {Next1(x, t) : t \in s} IN IF n = s THEN s ELSE Used(x, n)
Left(x) == Used(x, {"Query"}) \cap (DOMAIN x.types \cup DOMAIN x.unions)

\* ---- configurations
q(fs) == [x \in {"Query"} |-> fs]
T1(n, fs) == [x \in {n} |-> fs]
Rs(f) == {f} \cup {[f EXCEPT !.res = r] : r \in {"one", "two"}}
As == {F("a", "Int"), F("a", "String"), FL("a", "Int"), F("a", "JSON"), FC("a", "one"), FC("a", "two"), F("a", "N"), FL("a", "N"), F("a", "M"), FL("a", "M")}
Bs == {<<>>, <<F("b", "Int")>>} \cup IF Thorough THEN {<<F("b", "N")>>, <<F("b", "M")>>, <<FC("b", "two")>>} ELSE {<<F("b", "M")>>}
Ns == {<<F("x", "Int")>>, <<F("x", "String")>>, <<F("x", "Int"), F("y", "Int")>>} \cup IF Thorough THEN {<<F("x", "Int"), F("p", "P")>>, <<F("x", "Int"), F("p", "Q")>>, <<F("x", "Int"), F("n", "N")>>, <<FL("x", "Int"), F("m", "M")>>} ELSE {<<F("x", "Int"), F("p", "Q")>>}
MergeCfgs == {Cfg(q(<<F("p", "P"), FL("q", "Q")>>) @@ T1("P", <<a1>> \o b1) @@ T1("Q", <<a2>> \o b2) @@ T1("N", n) @@ T1("M", m)) : a1 \in As, a2 \in As, b1 \in Bs, b2 \in Bs, n \in Ns, m \in Ns}
\* input types
Is == {<<F("a", "Int")>>, <<F("a", "Int"), F("b", "String")>>, <<F("a", "N")>>, <<FL("a", "N")>>, <<F("a", "M")>>, <<F("a", "String")>>}
NIs == {<<F("x", "Int")>>, <<F("x", "String")>>, <<FL("x", "Int")>>}
InputCfgs == {Cfg(q(<<FE("p", "P"), FE("q", "Q")>>) @@ T1("P", i) @@ T1("Q", j) @@ T1("N", n) @@ T1("M", m)) : i \in Is, j \in Is, n \in NIs, m \in NIs}
\* the same types as inputs and as outputs
BothCfgs == {Cfg(q(<<F("o", t), FE("e", u)>>) @@ T1("P", p) @@ T1("Q", s) @@ T1("N", n) @@ more) :
             t \in {"P", "Q"}, u \in {"P", "Q", "N"}, p \in {<<F("a", "Int")>>, <<F("a", "N")>>, <<F("a", "Q"), F("b", "Int")>>}, s \in {<<F("c", "Int")>>, <<FL("c", "N"), F("d", "String")>>}, n \in {<<F("x", "Int")>>, <<FL("x", "String")>>},
             more \in {T1("Z", <<F("z", "Int")>>), T1("PInput", <<F("z", "Int")>>), T1("NInput", <<F("z", "Int")>>)}}
\* interfaces, unions, enums and what is not used
Abs == [types |-> T1("A", <<F("i", "Int"), F("a", "Int")>>) @@ T1("B", <<F("i", "Int"), F("b", "N")>>) @@ T1("I", <<F("i", "Int")>>) @@ T1("N", <<F("x", "Int")>>) @@ T1("D", <<F("d", "E")>>) @@ T1("In", <<F("y", "In2")>>) @@ T1("In2", <<F("z", "Int")>>) @@ T1("X", <<F("n", "X2")>>) @@ T1("X2", <<F("n", "X"), F("m", "Int")>>),
        unions |-> T1("U", <<"A", "D">>) @@ T1("V", <<"U", "B">>), enums |-> T1("E", <<"K", "L">>), impl |-> [x \in {"A", "B"} |-> {"I"}]]
Roots == {F("n", "N"), FL("l", "I"), FL("u", "U"), FL("v", "V"), FE("e", "In"), F("x", "X"), F("en", "E"), FL("a", "A")}
AbsCfgs == {[Abs EXCEPT !.types = @ @@ q(SetToSeq(rs))] : rs \in {s \in SUBSET Roots : s # {} /\ Cardinality(s) <= (IF Thorough THEN 4 ELSE 2)}}
\* unions of unions
MNs == {"A", "B", "D"}
UCfg(us) == [types |-> T1("A", <<F("a", "Int")>>) @@ T1("B", <<F("b", "Int")>>) @@ T1("D", <<F("d", "Int")>>) @@ q(<<FL("u", "U"), FL("v", "V"), FL("w", "W")>>), unions |-> us, enums |-> None, impl |-> None]
Mems == {<<"A">>, <<"A", "B">>, <<"V", "D">>, <<"V", "W">>, <<"W">>, <<"W", "A">>, <<"U", "A">>}
UnionCfgs == {UCfg(T1("U", u) @@ T1("V", v) @@ T1("W", w)) : u \in Mems, v \in {<<"A", "B">>, <<"W", "D">>, <<"W">>, <<"B", "W">>, <<"U">>, <<"A", "V">>}, w \in {<<"A">>, <<"B", "D">>, <<"U", "B">>}}
\* does every union end in types
RECURSIVE Reach(_, _)
Reach(x, s) == LET n == s \cup UNION {IF t \in DOMAIN x.unions THEN Range(x.unions[t]) ELSE {} : t \in s} IN IF n = s THEN s ELSE Reach(x, n)
Cyclic(x) == \E u \in DOMAIN x.unions : u \in Reach(x, Range(x.unions[u]))
\* chains of single fields
SingleCfgs == {Cfg(q(<<[f EXCEPT !.n = "f"], F("g", "P")>>) @@ T1("P", p) @@ T1("Q", s) @@ T1("N", n)) :
               f \in {F("f", "P"), FL("f", "P"), F("f", "N"), F("f", "Q"), FL("f", "N")}, p \in {<<F("a", "N")>>, <<FL("a", "N")>>, <<F("a", "Q")>>, <<F("a", "Int"), F("b", "N")>>, <<FC("a", "one")>>, <<F("a", "P"), F("b", "Int")>>, <<F("query", "Q")>>},
               s \in {<<F("c", "N")>>, <<FL("c", "Int")>>, <<F("c", "N"), F("d", "Q")>>}, n \in {<<F("x", "Int")>>, <<FL("x", "String")>>, <<F("x", "JSON")>>, <<FC("x", "two")>>}}
\* types wrapped in every way: what is nested or required stays so
Ws == {"%", "%!", "[%]", "[%!]", "[%]!", "[%!]!", "[[%]]", "[[%]!]", "[[%!]]", "[[%]]!", "[[%!]!]!", "[[[%]!]]", "[[[%]]!]"}
WrapCfgs == {Cfg(q(<<FW("f", "P", v), [FE("e", "In") EXCEPT !.aw = w]>>) @@ T1("P", <<FW("n", "N", u), FW("k", "Int", v)>>) @@ T1("N", <<FW("x", "String", w)>>) @@ T1("In", <<FW("y", "In2", u), FW("h", "Int", w)>>) @@ T1("In2", <<FW("z", "Int", v)>>)) :
             u \in Ws, v \in Ws, w \in IF Thorough THEN Ws ELSE {"[[%]!]", "[%!]", "[[%!]]!"}}
Tr(t) == [t |-> t]
Th(x) == [t |-> "merge_types", threshold |-> x]
Rename(m) == [t |-> "rename_types", map |-> m]
Renames == {<< <<"P", "X">> >>, << <<"P", "Q">> >>, << <<"P", "Q">>, <<"Q", "P">> >>, << <<"Query", "Root">> >>, << <<"P", "Q">>, <<"Q", "N">>, <<"N", "P">> >>, << <<"N", "X">>, <<"P", "N">> >>, << <<"P", "X">>, <<"Q", "X">> >>, << <<"N", "Int">> >>, << <<"P", "P">> >>}
RenameCfgs == {Cfg(q(<<F("p", "P"), FL("q", "Q")>>) @@ T1("P", p) @@ T1("Q", s) @@ T1("N", <<F("x", "Int")>>)) : p \in {<<F("a", "N")>>, <<F("a", "Q")>>, <<FL("b", "N"), F("c", "String")>>}, s \in {<<F("d", "Int")>>, <<FL("d", "N")>>}}
AbsRenames == {<< <<"A", "X9">> >>, << <<"U", "X9">> >>, << <<"E", "X9">> >>, << <<"I", "X9">> >>, << <<"In", "X9">>, <<"In2", "Y9">> >>, << <<"U", "V">>, <<"V", "U">> >>, << <<"A", "B">>, <<"B", "A">> >>}
Ts(s) == {<<t>> : t \in s}
Inputs == CASE Family = "merge" -> [x : MergeCfgs, ts : Ts({Th("1.0"), Th("0.5")} \cup IF Thorough THEN {Th("0.3")} ELSE {})]
            [] Family = "inputs" -> [x : InputCfgs, ts : Ts({Th("1.0"), Th("0.5"), Tr("ambiguous_type"), Tr("improve_type_names")})] \cup [x : BothCfgs, ts : Ts({Tr("ambiguous_type")}) \cup {<<Tr("ambiguous_type"), Th("1.0")>>}]
            [] Family = "abstract" -> [x : AbsCfgs, ts : Ts({Tr("tree_shake"), Tr("required"), Tr("flatten_single_field")})] \cup [x : UnionCfgs, ts : Ts({Tr("nested_unions")})]
            [] Family = "names" -> [x : SingleCfgs, ts : Ts({Tr("flatten_single_field"), Tr("improve_type_names")}) \cup {<<Tr("improve_type_names"), Tr("flatten_single_field")>>}] \cup [x : RenameCfgs, ts : Ts({Rename(m) : m \in Renames})] \cup [x : AbsCfgs, ts : Ts({Rename(m) : m \in AbsRenames})]
            [] Family = "wraps" -> [x : WrapCfgs, ts : Ts({Rename(m) : m \in {<< <<"P", "X">> >>, << <<"In", "X">>, <<"N", "Y">> >>, << <<"P", "N">>, <<"N", "P">>, <<"In2", "Z">> >>}} \cup {Th("1.0"), Tr("ambiguous_type"), Tr("tree_shake"), Tr("improve_type_names")})]
            [] OTHER -> {}
\* names of other types and of scalars are not given to types
Names(x) == DOMAIN x.types \cup DOMAIN x.unions \cup DOMAIN x.enums \cup UNION {x.impl[t] : t \in DOMAIN x.impl}
Taken(x, m, k) == /\ m[k][1] # m[k][2]
                  /\ \/ m[k][2] \in Scalars
                     \/ (m[k][2] \in Names(x) /\ \A j \in DOMAIN m : m[j][1] # m[k][2])
                     \/ (\E j \in DOMAIN m \ {k} : m[j][2] = m[k][2])
Refused == \/ (Family = "abstract" /\ Cyclic(c.x))
           \/ (\E j \in DOMAIN c.ts : c.ts[j].t = "rename_types" /\ \E k \in DOMAIN c.ts[j].map : Taken(c.x, c.ts[j].map, k))
\* which fields and arguments there are, how they are wrapped
Wraps(x) == SetToSeq(UNION {UNION {{<<f.n, f.w>>} \cup (IF f.arg = "" THEN {} ELSE {<<f.n \o ".i", f.aw>>}) : f \in Range(x.types[t])} : t \in DOMAIN x.types})
Expect == IF Refused THEN [refused |-> TRUE]
          ELSE [refused |-> FALSE, sel |-> Fields(c.x, "Query", Depth), data |-> Data(c.x), args |-> Args(c.x), answer |-> Served(c.x), left |-> SetToSeq(Left(c.x)), wraps |-> IF Family = "wraps" THEN Wraps(c.x) ELSE <<>>]
List(f) == [k \in DOMAIN SetToSeq(DOMAIN f) |-> <<SetToSeq(DOMAIN f)[k], f[SetToSeq(DOMAIN f)[k]]>>]
Sets(f) == [k \in DOMAIN List(f) |-> <<List(f)[k][1], SetToSeq(List(f)[k][2])>>]
Shown == [types |-> List(c.x.types), unions |-> List(c.x.unions), enums |-> List(c.x.enums), impl |-> Sets(c.x.impl)]
Init == c \in Inputs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> Shown, ts |-> c.ts, out |-> Expect]))
\* the types left serve what is served without the others; everything in use stays in use
Only(x, s) == [x EXCEPT !.types = [t \in DOMAIN x.types \cap s |-> x.types[t]], !.unions = [t \in DOMAIN x.unions \cap s |-> x.unions[t]]]
Some == done /\ ~Refused
LawLeft == Some => LET y == Only(c.x, Left(c.x)) IN /\ Left(y) = Left(c.x)
                                                    /\ Data(y) = Data(c.x) /\ Args(y) = Args(c.x)
                                                    /\ (~Flat => Served(y) = Served(c.x))
\* taking a type of one field out is the only transformation of which the answer differs from that of the configuration given, and only there
RECURSIVE Shape(_)
Shape(s) == CASE s[1] = "leaf" -> TRUE
              [] s[1] = "obj" -> s[2] # <<>> /\ \A k \in DOMAIN s[2] : Shape(s[2][k][2])
              [] s[1] = "any" -> \A k \in DOMAIN s[2] : \A j \in DOMAIN s[2][k][2] : Shape(s[2][k][2][j][2])
LawAsked == Some => \A k \in DOMAIN Fields(c.x, "Query", Depth) : Shape(Fields(c.x, "Query", Depth)[k][2])
LawRename == done => \A t \in DOMAIN c.x.types, u \in DOMAIN c.x.types : ~Refused /\ Ren(t) = Ren(u) => t = u
Spec == Init /\ [][Next]_<<c, done>>
=================================================================================
