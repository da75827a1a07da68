------------------------------- MODULE ExecNulls -------------------------------
(* P24: nulls, failures and values of the wrong kind at every position. One field of every nullability and list depth over an integer, an
   enumeration and an object type, at five places (answered by an upstream at the root, below an object, below the objects of a list, by an
   upstream per element of a list, and below lists of lists), against small values. *)
EXTENDS JsonVal, Json
CONSTANTS Depth3
VARIABLES c, done, o
Nm(x, q) == <<"n", x, q>>  Ls(t, q) == <<"l", t, q>>
s(x) == <<"s", x>>  i(x) == <<"i", x>>  ar(x) == <<"a", x>>  ob(x) == <<"o", x>>
FD(n, t, r) == [n |-> n, t |-> t, args |-> <<>>, r |-> r]
TY(n, fs) == [n |-> n, kind |-> "type", impl |-> <<>>, fs |-> fs]
None == <<"none">>  Call(u) == <<"call", u, <<>>>>  By(u, f) == <<"call", u, << <<"value", f>> >>>>
STR == Nm("String", FALSE)
RefsOf(b) == LET n == {Nm(b, q) : q \in BOOLEAN}
                 l == {Ls(t, q) : t \in n, q \in BOOLEAN}
                 m == {Ls(t, q) : t \in l, q \in BOOLEAN}
             IN n \cup l \cup IF Depth3 THEN m ELSE {t \in m : t[3] = t[2][2][3]}
Leaf(b) == CASE b = "Int" -> {i("5"), s("x"), <<"f", "5.5">>, <<"b", "true">>} [] b = "E" -> {s("V1"), s("V3"), i("5")} [] b = "Email" -> {s("a@b.co"), s("x"), i("5")} [] b = "JSON" -> {s("x"), ob(<< <<"g", Null>> >>)} [] OTHER -> {ob(<< <<"g", i("1")>>, <<"h", Null>> >>), ob(<< <<"g", Null>>, <<"h", i("2")>> >>), ob(<<>>), ob(<< <<"g", s("x")>> >>), s("x")}
Good(b) == CASE b = "Int" -> i("5") [] b = "E" -> s("V1") [] b = "Email" -> s("a@b.co") [] b = "JSON" -> i("5") [] OTHER -> ob(<< <<"g", i("1")>>, <<"h", i("2")>> >>)
ValuesOf(b) == LET v == Leaf(b) \cup {Null}
                   l == {ar(<<>>)} \cup {ar(<<x>>) : x \in v} \cup {ar(<<Good(b), x>>) : x \in v}
                   m == {ar(<<x>>) : x \in l} \cup {ar(<<ar(<<Good(b)>>), x>>) : x \in l \cup v}
               IN v \cup l \cup m \cup {ob(<< <<"z", i("1")>> >>)}
Places == {"root", "object", "list", "each", "lists"}
\* ---- the schema of the case at hand
F == FD("f", c.t, IF c.place \in {"object", "list", "lists"} THEN None ELSE IF c.place = "root" THEN Call("v") ELSE By("v", "x"))
Types == <<TY("Query", <<FD("s", STR, <<"const", s("c")>>)>> \o CASE c.place = "root" -> <<F>> [] c.place = "object" -> <<FD("o", Nm("P", c.over), Call("v"))>> [] c.place = "lists" -> <<FD("o", Ls(Ls(Nm("P", c.over), FALSE), FALSE), Call("v"))>>
              [] OTHER -> <<FD("o", Ls(Nm("P", c.over), FALSE), Call(IF c.place = "each" THEN "all" ELSE "v"))>>),
           TY("P", <<FD("x", Nm("Int", FALSE), None)>> \o IF c.place = "root" THEN <<>> ELSE <<F>>),
           TY("O", <<FD("g", Nm("Int", TRUE), None), FD("h", Nm("Int", FALSE), None)>>)>>
Enums == << <<"E", <<"V1", "V2">>>> >>
Fields(t) == Types[CHOOSE j \in DOMAIN Types : Types[j].n = t].fs
Possible(t) == {}
EnumOf(t) == IF t = "E" THEN {"V1", "V2"} ELSE {}
P(x, fs) == ob(<< <<"x", i(x)>> >> \o fs)
Ups == CASE c.place = "root" -> << <<"v", <<>>, c.v>> >>
         [] c.place = "object" -> << <<"v", <<>>, <<P("1", << <<"f", c.v[1]>> >>)>>>> >>
         [] c.place = "list" -> << <<"v", <<>>, <<ar(<<P("1", << <<"f", c.w>> >>), P("2", << <<"f", c.v[1]>> >>)>>)>>>> >>
         [] c.place = "lists" -> << <<"v", <<>>, <<ar(<<ar(<<P("1", << <<"f", c.w>> >>)>>), ar(<<>>), ar(<<P("3", << <<"f", c.w>> >>), P("2", << <<"f", c.v[1]>> >>)>>)>>)>>>> >>
         [] OTHER -> << <<"all", <<>>, <<ar(<<P("1", <<>>), P("2", <<>>)>>)>>>>, <<"v", <<"1">>, <<c.w>>>>, <<"v", <<"2">>, c.v>> >>
Fetch(u, k) == Ups[CHOOSE j \in DOMAIN Ups : Ups[j][1] = u /\ Ups[j][2] = k][3]
INSTANCE Exec
NC == [skip |-> <<>>, inc |-> <<>>]
S(n, sel) == [k |-> "f", out |-> n, n |-> n, args |-> <<>>, cond |-> NC, sel |-> sel]
FSel == S("f", IF Base(c.t) = "O" THEN <<S("g", <<>>), S("h", <<>>)>> ELSE <<>>)
Sel == <<S("s", <<>>)>> \o IF c.place = "root" THEN <<FSel>> ELSE <<S("o", <<S("x", <<>>), FSel>>)>>
\* a value in order for a type
RECURSIVE GoodFor(_)
GoodFor(t) == IF t[1] = "l" THEN ar(<<GoodFor(t[2])>>) ELSE Good(t[2])
Init == /\ done = 0 /\ o = <<>>
        /\ \E b \in {"Int", "E", "Email", "JSON", "O"} : \E t \in RefsOf(b) : \E p \in Places : \E q \in IF p = "root" THEN {FALSE} ELSE BOOLEAN :
             \/ \E v \in ValuesOf(b) : c = [t |-> t, place |-> p, over |-> q, v |-> <<v>>, w |-> GoodFor(t)]
             \/ p \in {"root", "each"} /\ c = [t |-> t, place |-> p, over |-> q, v |-> <<>>, w |-> GoodFor(t)]
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ LET r == Run(Sel, "Query", <<>>)
           IN o' = <<r>> /\ PrintT("@" \o ToJson([req |-> [sel |-> Sel, vars |-> <<>>, defs |-> <<>>], c |-> c, out |-> <<r>>, t |-> [types |-> Types, unions |-> <<>>, enums |-> Enums, ups |-> Ups]]))
Spec == Init /\ [][Next]_<<c, done, o>>

\* ---- laws
Plain == done = 1
\* values in order for a type, and answers in order for it, stated on their own
RECURSIVE Fits(_, _), Holding(_, _)
Fits(t, v) == IF v = Null THEN ~t[3] ELSE IF t[1] = "l" THEN IsArr(v) /\ \A j \in DOMAIN v[2] : Fits(t[2], v[2][j])
              ELSE CASE t[2] = "Int" -> v[1] = "i" [] t[2] = "E" -> v \in {s("V1"), s("V2")} [] t[2] = "Email" -> v = s("a@b.co") [] t[2] = "JSON" -> TRUE [] OTHER -> IsObj(v) /\ Get(v, "g") # <<>> /\ Get(v, "g")[1] # Null
Holding(t, v) == IF v = Null THEN ~t[3] ELSE IF t[1] = "l" THEN IsArr(v) /\ \A j \in DOMAIN v[2] : Holding(t[2], v[2][j])
                 ELSE CASE t[2] = "Int" -> TRUE [] t[2] = "JSON" -> v[1] = "j" [] t[2] = "E" -> v \in {s("V1"), s("V2")} [] t[2] = "Email" -> v = s("a@b.co")
                        [] OTHER -> IsObj(v) /\ Len(v[2]) = 2 /\ v[2][1][1] = "g" /\ v[2][1][2] # Null /\ v[2][2][1] = "h"
RECURSIVE Found(_, _)
\* what the answer holds for the field, wherever it is
Found(v, n) == IF IsArr(v) THEN UNION {Found(v[2][j], n) : j \in DOMAIN v[2]} ELSE IF IsObj(v) THEN (LET x == Get(v, n) IN IF x # <<>> THEN {x[1]} ELSE UNION {Found(v[2][j][2], n) : j \in DOMAIN v[2]}) ELSE {}
Sound == Plain /\ o[1].errs = <<>> => \A x \in Found(o[1].v, "f") : Holding(c.t, x)
Complaint == Plain /\ c.v # <<>> /\ Fits(c.t, c.v[1]) => o[1].errs = <<>>
Failure == Plain /\ c.v = <<>> => o[1].errs # <<>>
\* the neighbour is untouched
Sibling == Plain => Get(o[1].v, "s") = <<s("c")>>
=============================================================================
