-------------------------------- MODULE Session --------------------------------
(* P21, P22: what a gateway answers over a session. Its only state that may show is what the configuration declares cacheable; plans, constant
   answers and shared executions must not. The upstream's data has a version that changes; time passes in steps of their own.
   A request: the text, operation name, variables, the value of a header, credentials; `f` its fields in effect, `needs` the providers that guard
   what it selects. Credentials: none, wrong ones, and people accepted by one provider or both. *)
EXTENDS JsonVal, Json
CONSTANTS Family, Depth, Dedupes
VARIABLES st, log, dedupe
s(x) == <<"s", x>>  i(x) == <<"i", ToString(x)>>
R(q, op, vars, hdr, cred, f, needs) == [q |-> q, op |-> op, vars |-> vars, hdr |-> hdr, cred |-> cred, f |-> f, needs |-> needs]
F(out, v) == <<out, v>>
\* ---- values: constants, <<"v">> the upstream's present version, <<"cv", key>> a cached one
C == F("c", <<"const", s("c")>>)
V == F("v", <<"now", "v">>)
K(x) == F("k", <<"const", <<"o", << <<"x", i(x)>> >>>>>>)
Cv(x) == F("cv", <<"kept", "cv?x=" \o x>>)
Hq(h) == F("hq", <<"kept", "hq?h=" \o h>>)
Hdr(h) == F("hdr", <<"const", s(h)>>)
Ok(q, f) == R(q, <<>>, <<>>, "", "none", <<f>>, {})
Named(q, op, f) == R(q, <<op>>, <<>>, "", "none", <<f>>, {})
With(q, vars, f) == R(q, <<>>, vars, "", "none", <<f>>, {})
Hd(q, h, f) == R(q, <<>>, <<>>, h, "none", <<f>>, {})
Bad(q, op) == R(q, op, <<>>, "", "none", <<>>, {})
Two == "query A { c v } query B { k(x: 2) }"  KX == "query($x: Int) { k(x: $x) }"  INC == "query($b: Boolean!) { c k(x: 1) @include(if: $b) }"
SKP == "query($b: Boolean!) { c v @skip(if: $b) }"  CVX == "query($x: Int) { cv(x: $x) }"  KO == "query($o: In) { ko(o: $o) }"
B(x) == << <<"b", <<"b", x>>>> >>  X(x) == << <<"x", i(x)>> >>
Ko(v) == F("ko", <<"const", <<"o", << <<"o", v>> >>>>>>)
Memory == <<Ok("{ c }", <<C>>), Named(Two, "A", <<C, V>>), Named(Two, "B", <<K(2)>>), Bad(Two, <<>>), Bad(Two, <<"Z">>),
  With(KX, X(1), <<K(1)>>), With(KX, X(2), <<K(2)>>), With(KX, <<>>, <<K(7)>>),
  With(INC, B("true"), <<C, K(1)>>), With(INC, B("false"), <<C>>), With(SKP, B("true"), <<C>>), With(SKP, B("false"), <<C, V>>),
  Hd("{ hdr }", "a", <<Hdr("a")>>), Hd("{ hdr }", "b", <<Hdr("b")>>), Hd("{ hq }", "a", <<Hq("a")>>), Hd("{ hq }", "b", <<Hq("b")>>),
  Ok("{ v }", <<V>>), Ok("{ cv(x: 1) }", <<Cv("1")>>), Ok("{ cv(x: 2) }", <<Cv("2")>>), With(CVX, X(1), <<Cv("1")>>), With(CVX, X(2), <<Cv("2")>>), Bad("{ c ", <<>>),
  With(KO, << <<"o", <<"o", << <<"a", i(1)>>, <<"b", s("2")>> >>>>>> >>, <<Ko(<<"o", << <<"a", i(1)>>, <<"b", s("2")>> >>>>)>>),
  With(KO, << <<"o", <<"o", << <<"a", i(1)>>, <<"b", s("1")>> >>>>>> >>, <<Ko(<<"o", << <<"a", i(1)>>, <<"b", s("1")>> >>>>)>>),
  Ok("{ cv(x: 1) c }", <<Cv("1"), C>>)>>
\* ---- fields of the protected world: who guards them
All == {"p1", "p2"}
Docs == <<
  [q |-> "{ c }", op |-> <<>>, vars |-> <<>>, f |-> <<C>>, needs |-> {}],
  [q |-> "{ s }", op |-> <<>>, vars |-> <<>>, f |-> <<F("s", <<"const", s("s")>>)>>, needs |-> All],
  [q |-> "{ v w }", op |-> <<>>, vars |-> <<>>, f |-> <<V, F("w", <<"now", "w">>)>>, needs |-> All],
  [q |-> "{ c x: s }", op |-> <<>>, vars |-> <<>>, f |-> <<C, F("x", <<"const", s("s")>>)>>, needs |-> All],
  [q |-> "{ t }", op |-> <<>>, vars |-> <<>>, f |-> <<F("t", <<"const", s("t")>>)>>, needs |-> {"p1"}],
  [q |-> "{ t y { t2 } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("t", <<"const", s("t")>>), F("y", <<"const", <<"o", << <<"t2", s("t2")>> >>>>>>)>>, needs |-> All],
  [q |-> "{ y { t2 w2 } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("y", <<"in", << <<"t2", <<"const", s("t2")>>>>, <<"w2", <<"now", "w2">>>> >>>>)>>, needs |-> {"p2"}],
  [q |-> "{ u { a } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("u", <<"at", "u", <<"o", << <<"a", s("a")>> >>>>>>)>>, needs |-> {}],
  [q |-> "{ u { a b } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("u", <<"at", "u", <<"o", << <<"a", s("a")>>, <<"b", s("b")>> >>>>>>)>>, needs |-> All],
  [q |-> "{ us { d } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("us", <<"each", "us", "d">>)>>, needs |-> {"p1"}],
  [q |-> "{ u { ...F } } fragment F on U { d }", op |-> <<>>, vars |-> <<>>, f |-> <<F("u", <<"sub", "u", "d">>)>>, needs |-> {"p1"}],
  [q |-> "{ o { a } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("o", <<"at", "o", <<"o", << <<"a", s("a")>> >>>>>>)>>, needs |-> {"p2"}],
  [q |-> "{ ab { n ... on O { a } } }", op |-> <<>>, vars |-> <<>>, f |-> <<F("ab", <<"at", "ab", <<"o", << <<"n", i(5)>>, <<"a", s("a")>> >>>>>>)>>, needs |-> {"p2"}],
  [q |-> "query A { c } query B { s }", op |-> <<"A">>, vars |-> <<>>, f |-> <<C>>, needs |-> {}],
  [q |-> "query A { c } query B { s }", op |-> <<"B">>, vars |-> <<>>, f |-> <<F("s", <<"const", s("s")>>)>>, needs |-> All],
  [q |-> "query($b: Boolean!) { v s @include(if: $b) }", op |-> <<>>, vars |-> B("true"), f |-> <<V, F("s", <<"const", s("s")>>)>>, needs |-> All],
  [q |-> "mutation { m }", op |-> <<>>, vars |-> <<>>, f |-> <<F("m", <<"now", "m">>)>>, needs |-> {"p1"}],
  [q |-> "mutation { n m }", op |-> <<>>, vars |-> <<>>, f |-> <<F("n", <<"now", "n">>), F("m", <<"now", "m">>)>>, needs |-> {"p1"}],
  [q |-> "mutation { n }", op |-> <<>>, vars |-> <<>>, f |-> <<F("n", <<"now", "n">>)>>, needs |-> {}],
  [q |-> "{ kept }", op |-> <<>>, vars |-> <<>>, f |-> <<F("kept", <<"kept", "kept">>)>>, needs |-> {"p1"}]>>
Creds == <<"none", "wrong", "alice", "bob", "carol">>
Accepts(cred) == CASE cred = "alice" -> {"p1"} [] cred = "bob" -> {"p2"} [] cred = "carol" -> All [] OTHER -> {}
Guarded == [n \in 1..(Len(Docs) * Len(Creds)) |-> LET d == Docs[((n - 1) \div Len(Creds)) + 1] IN R(d.q, d.op, d.vars, "", Creds[((n - 1) % Len(Creds)) + 1], <<d.f>>, d.needs)]
Reqs == IF Family = "memory" THEN Memory ELSE Guarded
\* ---- transitions. st: [ver, now, cache: set of <<key, version, expiry>>]
Expiry == 2
Held(x, key) == LET e == {y \in x.cache : y[1] = key /\ x.now < y[3]} IN IF e = {} THEN <<>> ELSE <<(CHOOSE y \in e : TRUE)[2]>>
RECURSIVE Value(_, _)
Value(x, v) == CASE v[1] = "const" -> v[2]
                 [] v[1] = "now" -> i(x.ver)
                 [] v[1] = "kept" -> i(IF Held(x, v[2]) = <<>> THEN x.ver ELSE Held(x, v[2])[1])
                 [] v[1] = "in" -> <<"o", [j \in DOMAIN v[2] |-> <<v[2][j][1], Value(x, v[2][j][2])>>]>>
                 [] v[1] = "at" -> v[3]
                 [] v[1] = "sub" -> <<"o", << <<v[3], i(x.ver)>> >>>>
                 [] OTHER -> <<"a", <<<<"o", << <<v[3], i(x.ver)>> >>>>, <<"o", << <<v[3], i(x.ver)>> >>>>>>>>
Refused(r) == ~(r.needs \subseteq Accepts(r.cred))
Answer(x, r) == IF r.f = <<>> THEN <<"error">> ELSE IF Refused(r) THEN <<"refused">> ELSE <<"data", <<"o", [j \in DOMAIN r.f[1] |-> <<r.f[1][j][1], Value(x, r.f[1][j][2])>>]>>>>
KeptBy(r) == IF r.f = <<>> \/ Refused(r) THEN {} ELSE {r.f[1][j][2][2] : j \in {h \in DOMAIN r.f[1] : r.f[1][h][2][1] = "kept"}}
After(x, rs) == [x EXCEPT !.cache = @ \cup {<<key, x.ver, x.now + Expiry>> : key \in {y \in UNION {KeptBy(rs[j]) : j \in DOMAIN rs} : Held(x, y) = <<>>}}]
Serve(js) == /\ log' = Append(log, [step |-> js, out |-> [n \in DOMAIN js |-> Answer(st, Reqs[js[n]])]])
             /\ st' = After(st, [n \in DOMAIN js |-> Reqs[js[n]]])
Bump == st' = [st EXCEPT !.ver = @ + 1] /\ log' = Append(log, [step |-> <<0>>, out |-> <<>>])
Tick == st' = [st EXCEPT !.now = @ + 1] /\ log' = Append(log, [step |-> <<1000>>, out |-> <<>>])
Alike(a, b) == a # b /\ Reqs[a].q = Reqs[b].q
Init == st = [ver |-> 1, now |-> 0, cache |-> {}] /\ log = <<>> /\ dedupe \in Dedupes
\* requests at the same time come last, after one of the same text; sessions longer than the usual ones keep to requests that share something
Ending == Len(log) = Depth - 1
Shares == IF Family = "memory" THEN {2, 3, 6, 7, 9, 11, 12, 13, 16, 17, 18, 20} ELSE {n \in DOMAIN Reqs : Reqs[n].cred \notin {"wrong", "bob"} /\ Reqs[n].f[1][1][2][1] # "now"}
Usual == IF Family = "memory" THEN 3 ELSE 2
Step == \/ \E n \in IF Depth > Usual THEN Shares ELSE DOMAIN Reqs : Serve(<<n>>)
        \/ Ending /\ log[1].step[1] \in DOMAIN Reqs /\ \E a, b \in DOMAIN Reqs : Alike(a, b) /\ Reqs[log[1].step[1]].q = Reqs[a].q /\ Serve(<<a, b>>)
        \/ Len(log) > 0 /\ log[Len(log)].step # <<0>> /\ (IF Family = "memory" THEN TRUE ELSE Reqs[log[1].step[1]].q = "{ kept }") /\ ~Ending /\ Bump
        \/ Family = "memory" /\ Len(log) > 0 /\ ~Ending /\ Tick
Text == [n \in DOMAIN Reqs |-> [q |-> Reqs[n].q, op |-> Reqs[n].op, vars |-> Reqs[n].vars, hdr |-> Reqs[n].hdr, cred |-> Reqs[n].cred]]
ASSUME PrintT("@" \o ToJson([reqs |-> Text]))
Next == /\ Len(log) < Depth /\ Step /\ UNCHANGED dedupe
        /\ IF Len(log') = Depth THEN PrintT("@" \o ToJson([dedupe |-> dedupe, log |-> log'])) ELSE TRUE
Spec == Init /\ [][Next]_<<st, log, dedupe>>

\* ---- laws
Served(j) == log[j].step \notin {<<0>>, <<1000>>}
Free(v) == v[1] # "kept"
\* without declared caching the answer is a function of the request and the upstream's data
Memoryless == \A j \in DOMAIN log : Served(j) => \A n \in DOMAIN log[j].step : LET r == Reqs[log[j].step[n]] IN
                (r.f # <<>> /\ \A h \in DOMAIN r.f[1] : Free(r.f[1][h][2])) =>
                  log[j].out[n] = Answer([ver |-> 1 + Cardinality({h \in 1..j : log[h].step = <<0>>}), now |-> 0, cache |-> {}], r)
\* cached values are at most as old as their lifetime
Guard == \A j \in DOMAIN log : Served(j) => \A n \in DOMAIN log[j].step : LET r == Reqs[log[j].step[n]] IN log[j].out[n][1] = "data" => r.needs \subseteq Accepts(r.cred)
Fresh == \A e \in st.cache : e[2] <= st.ver
One == \A e, f \in st.cache : e[1] = f[1] /\ st.now < e[3] /\ st.now < f[3] => e = f
=============================================================================
