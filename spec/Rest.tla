--------------------------------- MODULE Rest ----------------------------------
(* P18: which REST endpoint answers a request, with which variables.
   An endpoint: method, pattern (segments <<"l", text>> or <<"p", variable>>), query bindings
   <<parameter, variable>>, body variable ("" if none). Variables are typed by their name. *)
EXTENDS JsonVal, Json
CONSTANTS Family, Sizes
VARIABLES c, done
L(x) == <<"l", x>>  V(x) == <<"p", x>>
EP(m, p, q, b) == [m |-> m, p |-> p, q |-> q, b |-> b]
Lib == [
  E1 |-> EP("GET", <<L("x"), V("i")>>, <<<<"s", "s">>>>, ""),
  E2 |-> EP("GET", <<L("x"), V("s")>>, <<>>, ""),
  E3 |-> EP("POST", <<L("x"), V("i")>>, <<>>, "body"),
  E4 |-> EP("GET", <<L("x"), V("i"), V("b")>>, <<<<"q", "f">>>>, ""),
  E5 |-> EP("GET", <<L("x")>>, <<<<"s", "i">>, <<"flag", "b">>>>, ""),
  E6 |-> EP("GET", <<V("s")>>, <<>>, ""),
  E7 |-> EP("GET", <<L("x"), L("1"), V("f")>>, <<<<"i", "i">>>>, ""),
  E8 |-> EP("GET", <<>>, <<<<"i", "i">>>>, ""),
  E9 |-> EP("POST", <<V("b"), L("x")>>, <<<<"s", "s">>, <<"i", "i">>>>, "body"),
  E10 |-> EP("PATCH", <<L("x"), V("f")>>, <<<<"q", "s">>>>, "body"),
  E11 |-> EP("DELETE", <<L("x"), V("f")>>, <<>>, ""),
  E12 |-> EP("PUT", <<L("x"), V("s")>>, <<>>, "body"),
  E13 |-> EP("GET", <<L("x"), L("abc")>>, <<<<"ii", "i">>, <<"sx", "s">>, <<"q", "b">>>>, ""),
  E14 |-> EP("HEAD", <<L("x"), V("i")>>, <<>>, ""),
  E15 |-> EP("OPTIONS", <<L("x"), V("s")>>, <<>>, "")]
TypeOf == [i |-> "Int", s |-> "String", f |-> "Float", b |-> "Boolean", body |-> "JSON"]

(* conversion of texts; <<>> when the text does not denote a value of the type *)
Ints == [t \in {"0", "1", "-1", "007", "4294967296", "9223372036854775807"} |-> IF t = "007" THEN "7" ELSE t]
Floats == [t \in {"0", "1", "-1", "007", "1.5", "-0.25", "1e3", ".5", "4294967296", "0.1", "16777217.25", "3.0", "9223372036854775807", "9223372036854775808"} |->
           CASE t = "0" -> "0.0" [] t = "1" -> "1.0" [] t = "-1" -> "-1.0" [] t = "007" -> "7.0" [] t = "1e3" -> "1000.0" [] t = ".5" -> "0.5" [] t \in {"4294967296", "9223372036854775807", "9223372036854775808"} -> t \o ".0" [] OTHER -> t]
Conv(ty, t) == CASE ty = "String" -> <<<<"s", t>>>>
                 [] ty = "Int" -> IF t \in DOMAIN Ints THEN <<<<"i", Ints[t]>>>> ELSE <<>>
                 [] ty = "Float" -> IF t \in DOMAIN Floats THEN <<<<"f", Floats[t]>>>> ELSE <<>>
                 [] OTHER -> IF t \in {"true", "false"} THEN <<<<"b", t>>>> ELSE <<>>

\* a request: method, path segments, query pairs, body (<<>> or a value, or "bad")
Segs == {"x", "1", "abc", "true", "1.5"}
Some == {"x", "1", "007", "-1", "9223372036854775807", "9223372036854775808", "1.5", "1e3", ".5", "0.1", "16777217.25", "3.0", "inf", "NaN", "abc", "true", "false", "True", "TRUE", "4294967296", "api", "0-5", "1_0", "0x1", "--1", "5-"}
Paths == {<<>>} \cup {<<s>> : s \in Some} \cup {<<"x", s>> : s \in Some} \cup {<<s, "x">> : s \in {"true", "abc", "True", "1"}} \cup {<<"abc", "1">>}
         \cup {<<"x", a, b>> : a \in {"1", "abc", "-1"}, b \in {"true", "1", "1.5", "abc", "FALSE"}} \cup {<<"x", "1", "true", "x">>, <<"api", "x", "1">>, <<"x", "api", "1">>, <<"X">>, <<"X", "1">>, <<"x", "x1">>, <<"x1">>, <<"x1", "1">>}
Queries == {<<>>, << <<"s", "1">> >>, << <<"s", "a&b=c">> >>, << <<"s", "">> >>, << <<"flag", "true">> >>, << <<"flag", "yes">>, <<"s", "2">> >>, << <<"q", "1.5">>, <<"other", "1">> >>,
            << <<"q", "x">> >>, << <<"i", "1">>, <<"i", "-1">> >>, << <<"i", "1">>, <<"s", "t">> >>, << <<"f", "x">> >>, << <<"ii", "1">>, <<"i", "-1">> >>, << <<"sx", "y">>, <<"ii", "x">> >>, << <<"q", "true">>, <<"sx", "true">> >>}
J == <<"o", << <<"a", <<"a", << <<"i", "1">>, <<"f", "2.5">>, Null>> >> >> >> >>
Reqs == LET g == {[m |-> "GET", p |-> p, q |-> q, b |-> <<>>] : p \in Paths, q \in Queries}
            o == {[m |-> "POST", p |-> p, q |-> q, b |-> b] : p \in {q \in Paths : Len(q) \in {1, 2}}, q \in {<<>>, << <<"s", "1">> >>}, b \in {<<J>>, << <<"s", "t">> >>, <<>>}}
            x == {[m |-> m, p |-> <<"x", s>>, q |-> q, b |-> b] : m \in {"PUT", "PATCH", "DELETE"}, s \in Some, q \in {<<>>, << <<"q", "x">> >>}, b \in {<<J>>, <<>>}}
            y == {[m |-> m, p |-> <<"x", s>>, q |-> <<>>, b |-> <<>>] : m \in {"HEAD", "OPTIONS", "TRACE", "CONNECT"}, s \in {"1", "abc"}} IN SetToSeq(g \cup o \cup x \cup y)

Present(q, k) == \E j \in 1..Len(q) : q[j][1] = k
LastOf(q, k) == q[CHOOSE j \in 1..Len(q) : q[j][1] = k /\ \A l \in (j + 1)..Len(q) : q[l][1] # k][2]
\* as lists of <<variable, conversion>>
PathVars(e, r) == [j \in 1..Len(e.p) |-> IF e.p[j][1] = "l" THEN <<>> ELSE <<e.p[j][2], Conv(TypeOf[e.p[j][2]], r.p[j])>>]
QueryVars(e, r) == [j \in 1..Len(e.q) |-> IF Present(r.q, e.q[j][1]) THEN <<e.q[j][2], Conv(TypeOf[e.q[j][2]], LastOf(r.q, e.q[j][1]))>> ELSE <<>>]
AllVars(e, r) == SelectSeq(PathVars(e, r) \o QueryVars(e, r), LAMBDA x : x # <<>>)
Matches(e, r) == /\ e.m = r.m /\ Len(e.p) = Len(r.p)
                 /\ \A j \in 1..Len(e.p) : e.p[j][1] = "l" => e.p[j][2] = r.p[j]
                 /\ LET vs == AllVars(e, r) IN \A j \in 1..Len(vs) : vs[j][2] # <<>>
Declared(e) == {e.p[j][2] : j \in {k \in 1..Len(e.p) : e.p[k][1] = "p"}} \cup {e.q[j][2] : j \in 1..Len(e.q)} \cup (IF e.b = "" THEN {} ELSE {e.b})
Value(e, r, v) == IF v = e.b THEN r.b[1]
                  ELSE LET vs == AllVars(e, r) IN IF \E j \in 1..Len(vs) : vs[j][1] = v THEN vs[CHOOSE j \in 1..Len(vs) : vs[j][1] = v][2][1] ELSE Null
Order == <<"i", "s", "f", "b", "body">>
Serve(eps, r) ==
  LET hits == {k \in 1..Len(eps) : Matches(Lib[eps[k]], r)} IN
  IF hits = {} THEN [status |-> 404, tag |-> "", vars |-> <<>>]
  ELSE LET k == CHOOSE k \in hits : \A j \in hits : k <= j
           e == Lib[eps[k]]
       IN IF e.b # "" /\ r.b = <<>> THEN [status |-> 500, tag |-> "", vars |-> <<>>]
          ELSE [status |-> 200, tag |-> eps[k], vars |-> LET vs == SelectSeq(Order, LAMBDA v : v \in Declared(e)) IN [j \in 1..Len(vs) |-> <<vs[j], Value(e, r, vs[j])>>]]
Names == DOMAIN Lib
Sets == UNION {{s \in [1..n -> Names] : \A a, b \in 1..n : a # b => s[a] # s[b]} : n \in Sizes}

\* ---- family "ops": which operations are endpoints at all. The method is a name in either case, the path a text; every variable of the path
\* and of the query is declared, with a scalar type
Written == {"", "GET", "get", "Post", "FETCH", "\"GET\""}
MethodOf == [m \in {"GET", "get", "Post"} |-> IF m = "Post" THEN "POST" ELSE "GET"]
PathForms == [none |-> <<>>, x |-> <<L("x")>>, i |-> <<V("i")>>, xi |-> <<L("x"), V("i")>>, n |-> <<V("n")>>, bare |-> <<V("")>>, rel |-> <<L("x")>>, slashes |-> <<L("x")>>]
Decls == {"", "Int", "Int!", "String", "ID", "[Int]", "Long"}
QueryForms == [none |-> <<>>, i |-> << <<"i", "i">> >>, other |-> << <<"k", "i">> >>, n |-> << <<"s", "n">> >>, const |-> <<>>]
OpVars(o) == {PathForms[o.path][j][2] : j \in {k \in 1..Len(PathForms[o.path]) : PathForms[o.path][k][1] = "p"}} \cup {QueryForms[o.query][j][2] : j \in 1..Len(QueryForms[o.query])}
Ops == {o \in [method : Written, path : DOMAIN PathForms, decl : Decls, query : DOMAIN QueryForms] :
          /\ ("i" \in OpVars(o)) \/ o.decl = ""
          /\ ~(o.decl = "Int!" /\ o.query \in {"i", "other"})       \* left open
          /\ ~(o.path \in {"i", "xi"} /\ o.query \in {"i", "other"})}
IsEndpoint(o) == /\ o.method \in DOMAIN MethodOf /\ o.path # "none"
                 /\ OpVars(o) \subseteq (IF o.decl = "" THEN {} ELSE {"i"})
                 /\ OpVars(o) # {} => o.decl \in {"Int", "Int!", "String"}
Probe == << [m |-> "GET", p |-> <<"x">>, q |-> <<>>, b |-> <<>>], [m |-> "GET", p |-> <<"1">>, q |-> <<>>, b |-> <<>>], [m |-> "GET", p |-> <<"x", "1">>, q |-> <<>>, b |-> <<>>],
            [m |-> "GET", p |-> <<"x">>, q |-> << <<"i", "1">>, <<"k", "-1">> >>, b |-> <<>>], [m |-> "GET", p |-> <<"x">>, q |-> << <<"i", "y">>, <<"k", "z">> >>, b |-> <<>>], [m |-> "POST", p |-> <<"x">>, q |-> <<>>, b |-> <<J>>], [m |-> "POST", p |-> <<"1">>, q |-> <<>>, b |-> <<J>>] >>
ConvOp(o, t) == Conv(IF o.decl = "String" THEN "String" ELSE "Int", t)
OpAnswer(o, r) ==
  LET ps == PathForms[o.path] qs == QueryForms[o.query]
      vals == SelectSeq([j \in 1..Len(ps) |-> IF ps[j][1] = "p" /\ Len(ps) = Len(r.p) THEN <<ConvOp(o, r.p[j])>> ELSE <<>>] \o [j \in 1..Len(qs) |-> IF Present(r.q, qs[j][1]) THEN <<ConvOp(o, LastOf(r.q, qs[j][1]))>> ELSE <<>>], LAMBDA x : x # <<>>)
  IN IF /\ MethodOf[o.method] = r.m /\ Len(ps) = Len(r.p)
        /\ \A j \in 1..Len(ps) : ps[j][1] = "l" => ps[j][2] = r.p[j]
        /\ \A j \in 1..Len(vals) : vals[j][1] # <<>>
     THEN [status |-> 200, v |-> IF vals = <<>> THEN Null ELSE vals[1][1][1]] ELSE [status |-> 404, v |-> Null]
OpOut(o) == IF IsEndpoint(o) THEN [ok |-> TRUE, answers |-> [j \in 1..Len(Probe) |-> OpAnswer(o, Probe[j])]] ELSE [ok |-> FALSE]

Init == done = FALSE /\ c \in IF Family = "ops" THEN Ops ELSE Sets
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF Family = "ops" THEN PrintT("@" \o ToJson([in |-> [op |-> c, reqs |-> Probe], out |-> OpOut(c)])) ELSE PrintT("@" \o ToJson([in |-> [eps |-> c, lib |-> Lib, reqs |-> Reqs], out |-> [j \in 1..Len(Reqs) |-> Serve(c, Reqs[j])]]))
Spec == Init /\ [][Next]_<<c, done>>
(* the answer only ever comes from an endpoint of the same method and length, and adding an endpoint at the end
   never changes what was answered before *)
Sound == Family = "sets" => \A j \in 1..Len(Reqs) : LET a == Serve(c, Reqs[j]) IN a.status = 200 => Lib[a.tag].m = Reqs[j].m /\ Len(Lib[a.tag].p) = Len(Reqs[j].p)
First == Family = "sets" /\ Len(c) > 1 => \A j \in 1..Len(Reqs) : LET a == Serve(SubSeq(c, 1, Len(c) - 1), Reqs[j]) IN a.status # 404 => a = Serve(c, Reqs[j])
=============================================================================
