------------------------------- MODULE ExecShape -------------------------------
(* P23: the shape of responses. All pairs (triples) of items in one selection set at four places of a schema with nested, listed and
   abstract types, each item bare or in a fragment, with conditions; and all ways of giving arguments. *)
EXTENDS JsonVal, Json
CONSTANTS Fams
VARIABLES c, done, o
Nm(x, q) == <<"n", x, q>>  Ls(t, q) == <<"l", t, q>>
s(x) == <<"s", x>>  i(x) == <<"i", x>>  ar(x) == <<"a", x>>  ob(x) == <<"o", x>>
None == <<"none">>
FD(n, t, r) == [n |-> n, t |-> t, args |-> <<>>, r |-> r]
FA(n, t, args, r) == [n |-> n, t |-> t, args |-> args, r |-> r]
AD(n, t, d) == [n |-> n, t |-> t, d |-> d]
INT == Nm("Int", FALSE)  STR == Nm("String", FALSE)
Call(u) == <<"call", u, <<>>>>
By(u, f) == <<"call", u, << <<"value", f>> >>>>
InT == Nm("In", FALSE)
Types == <<
  [n |-> "Query", kind |-> "type", impl |-> <<>>, fs |-> <<FD("s", Nm("String", TRUE), <<"const", s("c")>>), FD("e", Nm("E", FALSE), <<"const", s("V1")>>), FD("a", Nm("A", FALSE), Call("a")),
     FD("as", Ls(Nm("A", TRUE), TRUE), Call("as")), FD("u", Nm("U", FALSE), Call("u")), FD("us", Ls(Nm("I", FALSE), FALSE), Call("us")), FD("n", Nm("N", FALSE), None),
     FA("k", Nm("JSON", FALSE), <<AD("x", INT, <<i("3")>>), AD("y", Ls(Nm("String", TRUE), FALSE), <<>>), AD("z", Nm("String", TRUE), <<s("dz")>>), AD("w", Nm("E", FALSE), <<>>), AD("r", Nm("In", FALSE), <<>>)>>, <<"echo">>),
     FA("q", Nm("JSON", FALSE), <<AD("x", Nm("Int", TRUE), <<>>)>>, <<"echo">>)>>],
  [n |-> "N", kind |-> "type", impl |-> <<>>, fs |-> <<FD("a", Nm("A", FALSE), Call("a")), FD("m", Nm("N2", FALSE), None)>>],
  [n |-> "N2", kind |-> "type", impl |-> <<>>, fs |-> <<FD("a", Nm("A", FALSE), Call("a")), FD("s", STR, <<"const", s("deep")>>)>>],
  [n |-> "A", kind |-> "type", impl |-> <<"I">>, fs |-> <<FD("x", INT, None), FD("y", STR, None), FD("b", Nm("B", FALSE), None), FD("bs", Ls(Nm("B", FALSE), FALSE), None), FD("bss", Ls(Ls(Nm("B", FALSE), FALSE), FALSE), None), FD("c", Nm("C", FALSE), By("c", "x")),
     FA("m", Nm("C", FALSE), <<AD("n", INT, <<i("7")>>)>>, <<"call", "m", << <<"value", "x">>, <<"args", "n">> >>>>)>>],
  [n |-> "B", kind |-> "type", impl |-> <<>>, fs |-> <<FD("z", INT, None), FD("w", Ls(INT, FALSE), None), FD("d", Nm("C", FALSE), By("c", "z"))>>],
  [n |-> "C", kind |-> "type", impl |-> <<>>, fs |-> <<FD("p", INT, None), FD("q", STR, None), FD("ds", Ls(Nm("B", FALSE), FALSE), Call("ds"))>>],
  [n |-> "D", kind |-> "type", impl |-> <<"I">>, fs |-> <<FD("x", INT, None), FD("o", Nm("B", FALSE), None), FD("c", Nm("C", FALSE), By("c", "x"))>>],
  [n |-> "I", kind |-> "interface", impl |-> <<>>, fs |-> <<FD("x", INT, None)>>],
  [n |-> "In", kind |-> "input", impl |-> <<>>, fs |-> <<FD("f", INT, None), FD("g", Ls(STR, FALSE), None)>>] >>
Unions == << <<"U", <<"A", "D">>>> >>
Enums == << <<"E", <<"V1", "V2">>>> >>
NamesOf == {Types[j].n : j \in DOMAIN Types}
FT == [x \in NamesOf |-> Types[CHOOSE j \in DOMAIN Types : Types[j].n = x].fs]
Fields(t) == FT[t]
Possible(t) == IF t \in {"I", "U"} THEN {"A", "D"} ELSE {}
EnumOf(t) == IF t = "E" THEN {"V1", "V2"} ELSE {}
BV(z, w) == ob(<< <<"z", i(z)>>, <<"w", ar(w)>> >>)
AV(x, y) == ob(<< <<"type", s("A")>>, <<"x", i(x)>>, <<"y", s(y)>>, <<"b", BV("1", <<i("5"), i("6")>>)>>, <<"bs", ar(<<BV("2", <<>>), BV("1", <<i("7")>>)>>)>>,
                  <<"bss", ar(<<ar(<<BV("1", <<>>)>>), ar(<<>>), ar(<<BV("2", <<>>), BV("3", <<>>)>>)>>)>>, <<"extra", i("0")>> >>)
DV(x) == ob(<< <<"type", s("D")>>, <<"x", i(x)>>, <<"o", BV("2", <<i("8")>>)>> >>)
CV(p, q) == ob(<< <<"q", s(q)>>, <<"p", i(p)>> >>)
Ups == << <<"a", <<>>, AV("1", "ya")>>, <<"as", <<>>, ar(<<AV("1", "y1"), AV("2", "y2")>>)>>, <<"u", <<>>, DV("2")>>, <<"us", <<>>, ar(<<AV("2", "y1"), DV("1"), AV("1", "y3")>>)>>,
          <<"c", <<"1">>, CV("10", "q1")>>, <<"c", <<"2">>, CV("20", "q2")>>, <<"c", <<"3">>, CV("30", "q3")>>, <<"ds", <<>>, ar(<<BV("3", <<>>), BV("1", <<>>)>>)>>,
          <<"m", <<"1", "7">>, CV("17", "m")>>, <<"m", <<"2", "7">>, CV("27", "m")>>, <<"m", <<"1", "4">>, CV("14", "m")>>, <<"m", <<"2", "4">>, CV("24", "m")>> >>
UpKeys == {<<Ups[j][1], Ups[j][2]>> : j \in DOMAIN Ups}
UpMap == [k \in UpKeys |-> Ups[CHOOSE j \in DOMAIN Ups : <<Ups[j][1], Ups[j][2]>> = k][3]]
Fetch(u, k) == IF <<u, k>> \in UpKeys THEN <<UpMap[<<u, k>>]>> ELSE <<>>
INSTANCE Exec

\* ---- items
NC == [skip |-> <<>>, inc |-> <<>>]
F(n) == [k |-> "f", out |-> n, n |-> n, args |-> <<>>, cond |-> NC, sel |-> <<>>]
W(n, sel) == [F(n) EXCEPT !.sel = sel]
As(a, x) == [x EXCEPT !.out = a]
Arg(x, a) == [x EXCEPT !.args = a]
Fr(on, sel) == [k |-> "frag", on |-> on, cond |-> NC, sel |-> sel]
LI(v) == <<"lit", v>>
ItemsC == <<F("p"), As("p2", F("q")), W("ds", <<F("z")>>), W("ds", <<W("d", <<F("p")>>)>>)>>
ItemsB == <<F("z"), As("z2", F("z")), F("w"), W("d", <<F("p")>>), W("d", <<F("q"), As("p3", F("p"))>>), As("z", F("__typename"))>>
ItemsA == <<F("x"), F("y"), As("x", F("x")), As("y", F("x")), W("b", <<F("z")>>), W("b", <<F("w"), As("ty", F("__typename"))>>), As("b2", W("b", <<W("d", <<F("p")>>)>>)), W("bs", <<W("d", <<F("q")>>)>>),
            As("bs", W("bs", <<F("z")>>)), W("bss", <<F("z"), W("d", <<F("p")>>)>>), W("c", <<F("p")>>), W("c", <<As("p", F("p")), F("q")>>), As("c2", W("c", <<W("ds", <<W("d", <<F("p")>>)>>)>>)), W("m", <<F("p")>>),
            As("m4", Arg(W("m", <<F("p")>>), << <<"n", LI(i("4"))>> >>)), F("__typename")>>
ItemsI == <<F("x"), F("__typename"), As("t", F("__typename")), Fr("A", <<F("y"), W("c", <<F("p")>>)>>), Fr("D", <<W("o", <<F("z")>>)>>), Fr("D", <<As("c3", W("c", <<F("q")>>))>>), Fr("I", <<As("x2", F("x"))>>),
            Fr("A", <<F("x"), As("bb", W("bs", <<W("d", <<F("p")>>)>>))>>), Fr("", <<F("x")>>), Fr("D", <<F("x"), W("o", <<W("d", <<F("p")>>)>>)>>), Fr("I", <<Fr("D", <<F("x"), F("__typename")>>)>>)>>
ItemsQ == <<F("s"), As("s2", F("s")), F("e"), W("a", <<F("x")>>), W("a", <<F("y"), W("b", <<F("z")>>)>>), As("a2", W("a", <<W("c", <<F("p")>>)>>)), W("as", <<F("x"), W("c", <<F("q")>>)>>), W("n", <<W("a", <<F("x")>>)>>),
            As("n2", W("n", <<As("mm", W("m", <<F("s"), W("a", <<F("y")>>)>>))>>)), W("us", <<F("x"), Fr("A", <<F("y")>>)>>), As("a", F("s")), F("__typename")>>
Places == <<"Query", "a", "as", "u", "us", "b", "c">>
ItemsAt(p) == CASE p = "Query" -> ItemsQ [] p \in {"a", "as"} -> ItemsA [] p \in {"u", "us"} -> ItemsI [] p = "b" -> ItemsB [] OTHER -> ItemsC
TypeAt(p) == CASE p = "Query" -> "Query" [] p \in {"a", "as"} -> "A" [] p = "u" -> "U" [] p = "us" -> "I" [] p = "b" -> "B" [] OTHER -> "C"
\* a selection set at a place, as an operation
At(p, sel) == CASE p = "Query" -> sel [] p \in {"a", "as", "u", "us"} -> <<W(p, sel)>> [] p = "b" -> <<W("as", <<W("bs", sel), F("x")>>)>> [] OTHER -> <<W("a", <<W("c", sel)>>), W("as", <<As("c9", W("c", sel))>>)>>
Ok(p, x) == ~(p = "u" /\ (x = F("x") \/ x = Fr("", <<F("x")>>)))      \* a union has no fields of its own
\* fields of one name in one selection set have to be the same field
RECURSIVE Names(_, _)
Names(sel, on) == UNION {IF sel[j].k = "f" THEN {<<sel[j].out, sel[j].n, sel[j].args, on>>} ELSE Names(sel[j].sel, IF sel[j].on = "" THEN on ELSE sel[j].on) : j \in DOMAIN sel}
Subs(sel, out) == Flat([j \in DOMAIN sel |-> IF sel[j].k = "f" /\ sel[j].out = out THEN sel[j].sel ELSE IF sel[j].k = "frag" THEN Flat([l \in DOMAIN sel[j].sel |-> IF sel[j].sel[l].k = "f" /\ sel[j].sel[l].out = out THEN sel[j].sel[l].sel ELSE <<>>]) ELSE <<>>])
RECURSIVE Mergeable(_, _)
Mergeable(sel, on) == LET ns == Names(sel, on) IN /\ \A a \in ns, b \in ns : a[1] = b[1] => a[2] = b[2] /\ a[3] = b[3]
                                                /\ \A a \in ns : LET u == Subs(sel, a[1]) IN u = <<>> \/ Mergeable(u, "")
Conds == <<NC, [skip |-> <<LI(TRUE)>>, inc |-> <<>>], [skip |-> <<LI(FALSE)>>, inc |-> <<>>], [skip |-> <<>>, inc |-> <<LI(FALSE)>>], [skip |-> << <<"var", "v">> >>, inc |-> <<>>], [skip |-> <<>>, inc |-> << <<"var", "v">> >>],
          [skip |-> << <<"var", "v">> >>, inc |-> << <<"var", "w">> >>], [skip |-> <<LI(FALSE)>>, inc |-> << <<"var", "w">> >>], [skip |-> << <<"var", "v">> >>, inc |-> <<LI(TRUE)>>]>>
Cond(x, k) == [x EXCEPT !.cond = Conds[k]]
\* wrapping an item: bare, in a fragment with or without type, in two, with the condition on the item or on the fragment
Wraps == 0..5
Dress(w, k, x, type) == CASE w = 0 -> Cond(x, k) [] w = 1 -> Fr("", <<Cond(x, k)>>) [] w = 2 -> Fr(type, <<Cond(x, k)>>) [] w = 3 -> Cond(Fr("", <<x>>), k) [] w = 4 -> Cond(Fr(type, <<x>>), k)
                       [] OTHER -> Fr(type, <<Cond(Fr("", <<Cond(x, k)>>), k)>>)
Req(sel, vars, defs) == [sel |-> sel, vars |-> vars, defs |-> defs]
NoVars == <<>>
VW(v, w) == << <<"v", Bool(v)>>, <<"w", Bool(w)>> >>
Few(p) == IF p = "Query" THEN {4, 5, 6} ELSE IF p \in {"a", "as"} THEN {1, 5, 6, 11} ELSE IF p \in {"u", "us"} THEN {2, 4, 5} ELSE {1, 2}
IX(p) == {j \in DOMAIN ItemsAt(p) : Ok(p, ItemsAt(p)[j])}
Family(f) ==
  CASE f = "pairs" -> \E p \in ToSet(Places) : \E a, b \in IX(p) : \E w, x \in {0, 1, 2} : c = Req(At(p, <<Dress(w, 1, ItemsAt(p)[a], TypeAt(p)), Dress(x, 1, ItemsAt(p)[b], TypeAt(p))>>), NoVars, <<>>)
    [] f = "conds" -> \E p \in ToSet(Places) : \E a \in Few(p) \cap IX(p), b \in Few(p) \cap IX(p) : \E w \in Wraps : \E k, l \in DOMAIN Conds : \E v, u \in BOOLEAN :
                        c = Req(At(p, <<Dress(w, k, ItemsAt(p)[a], TypeAt(p)), Cond(ItemsAt(p)[b], l)>>), VW(v, u), <<>>)
    [] f = "onecond" -> \E p \in ToSet(Places) : \E a \in IX(p) : \E w \in Wraps : \E k \in DOMAIN Conds : \E v, u \in BOOLEAN : \E g \in 0..1 :
                        c = Req(At(p, <<Dress(w, k, ItemsAt(p)[a], TypeAt(p)), As("keep", F("__typename"))>>), IF g = 0 THEN VW(v, u) ELSE SubSeq(VW(v, u), 1, 1), IF g = 0 THEN <<>> ELSE SubSeq(VW(v, u), 2, 2))
    [] f = "triples" -> \E p \in {"as", "us", "b", "Query"} : \E a, b, d \in Few(p) \cap IX(p) : \E w, x, y \in {0, 1, 2, 4} : \E k \in {1, 5, 6} : \E v \in BOOLEAN :
                        c = Req(At(p, <<Dress(w, 1, ItemsAt(p)[a], TypeAt(p)), Dress(x, k, ItemsAt(p)[b], TypeAt(p)), Dress(y, 1, ItemsAt(p)[d], TypeAt(p))>>), VW(v, v), <<>>)
    [] f = "args" -> \E x \in {<<>>, LI(i("5")), LI(Null), <<"var", "x">>}, z \in {<<>>, LI(s("lz")), <<"var", "z">>}, y \in {<<>>, LI(ar(<<s("a"), s("b")>>)), <<"var", "y">>} :
                     \E vx \in {<<>>, <<i("8")>>, <<Null>>}, vz \in {<<>>, <<s("vz")>>}, vy \in {<<>>, <<ar(<<>>)>>, <<ar(<<s("q")>>)>>} : \E dx \in {<<>>, <<i("9")>>}, dz \in {<<>>, <<s("oz")>>} :
                        LET nm(n, v) == IF v = <<>> THEN <<>> ELSE << <<n, v>> >>
                            va(n, v) == IF v = <<>> THEN <<>> ELSE << <<n, v[1]>> >>
                        IN /\ (x = <<"var", "x">> \/ (vx = <<>> /\ dx = <<>>)) /\ (z = <<"var", "z">> \/ (vz = <<>> /\ dz = <<>>)) /\ (y = <<"var", "y">> \/ vy = <<>>)
                           /\ c = Req(<<Arg(F("k"), nm("x", x) \o nm("y", y) \o nm("z", z))>>, va("x", vx) \o va("y", vy) \o va("z", vz), va("x", dx) \o va("z", dz))
    [] f = "moreargs" -> \E n \in {"w", "r", "m", "q"} : \E form \in {"lit", "var", "vardefault", "absent"} : \E k \in 1..3 :
                        LET vals == CASE n = "w" -> <<s("V2"), s("V1"), Null>> [] n = "r" -> <<ob(<< <<"f", i("1")>>, <<"g", ar(<<s("x"), Null>>)>> >>), ob(<< <<"g", Null>> >>), ob(<<>>)>> [] n = "m" -> <<i("4"), i("7"), i("4")>> [] OTHER -> <<i("1"), i("0"), i("-5")>>
                            name == IF n = "m" THEN "n" ELSE IF n = "q" THEN "x" ELSE n
                            item == CASE n = "m" -> W("as", <<W("m", <<F("p")>>)>>) [] n = "q" -> F("q") [] OTHER -> F("k")
                            given == IF form = "absent" THEN <<>> ELSE << <<name, IF form = "lit" THEN LI(vals[k]) ELSE <<"var", "t">>>> >>
                            put == IF n = "m" THEN [item EXCEPT !.sel = <<Arg(item.sel[1], given)>>] ELSE Arg(item, given)
                        IN c = Req(<<put>>, IF form = "var" THEN << <<"t", vals[k]>> >> ELSE <<>>, IF form = "vardefault" THEN << <<"t", vals[k]>> >> ELSE <<>>)
Vs == Effective(c.vars, c.defs)
Init == /\ done = 0 /\ o = <<>>
        /\ \E f \in Fams : Family(f)
        /\ Mergeable(c.sel, "")
Answer == IF ArgsOk(c.sel, "Query", Vs) THEN <<Run(c.sel, "Query", Vs)>> ELSE <<>>
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ LET a == Answer
           IN o' = a /\ PrintT("@" \o ToJson([req |-> c, out |-> a,
                   t |-> IF c = Req(<<W("a", <<F("x")>>), W("a", <<F("x")>>)>>, NoVars, <<>>) THEN <<[types |-> Types, unions |-> Unions, enums |-> Enums, ups |-> [j \in DOMAIN Ups |-> <<Ups[j][1], Ups[j][2], <<Ups[j][3]>>>>]]>> ELSE <<>>]))
Spec == Init /\ [][Next]_<<c, done, o>>

\* ---- laws
Plain == done = 1 /\ o # <<>>
\* the answer's keys are the collected output names, once each, and nothing failed here
Keys(v) == [j \in DOMAIN v[2] |-> v[2][j][1]]
RootShape == Plain => LET fs == Collect(c.sel, "Query", Vs) IN Keys(o[1].v) = [j \in DOMAIN fs |-> fs[j].out] /\ Cardinality(ToSet(Keys(o[1].v))) = Len(fs)
NoFailure == Plain => o[1].errs = <<>>
\* a field does not notice its neighbours: executed alone it has the same value
Alone == Plain => \A j \in DOMAIN c.sel : LET r == Run(<<c.sel[j]>>, "Query", Vs) IN \A l \in DOMAIN r.v[2] : LET w == Get(o[1].v, r.v[2][l][1])[1] IN IsObj(w) \/ IsArr(w) \/ w = r.v[2][l][2]
\* doubling the whole selection changes nothing
Idempotent == Plain => Run(c.sel \o c.sel, "Query", Vs) = o[1]
\* a fragment around everything changes nothing
Transparent == Plain => Run(<<Fr("Query", <<Fr("", c.sel)>>)>>, "Query", Vs) = o[1]
=============================================================================
