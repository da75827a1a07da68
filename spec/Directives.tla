------------------------------- MODULE Directives -------------------------------
(* P17, the directives: which texts of a directive are readable and what they mean.
   A directive gives values to some of its arguments; a value equal to the argument's default means the same as none.
   Values are tagged as in JsonVal, "e" for a name without quotes. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Wide      \* how many optional arguments are given together
VARIABLES c, done, o

s(x) == <<"s", x>>  b(x) == <<"b", x>>  i(x) == <<"i", x>>  f(x) == <<"f", x>>  e(x) == <<"e", x>>  l(x) == <<"a", x>>  ob(x) == <<"o", x>>
NUL == <<"n">>
T == b("true")  F == b("false")
kv(k, v) == ob(<< <<"key", s(k)>>, <<"value", s(v)>> >>)
\* an argument: name, required, the values it takes, its default (<<>>: none), values it does not take
R(n, vs, bad) == [n |-> n, req |-> TRUE, vs |-> vs, d |-> <<>>, bad |-> bad]
O(n, vs, d, bad) == [n |-> n, req |-> FALSE, vs |-> vs, d |-> d, bad |-> bad]
Text == <<s("x"), s(""), s("nasty"), s("tpl")>>
NotText == <<i("1"), T, l(<<>>)>>
Anything == <<s("tpl"), s("nasty"), i("3"), f("1.5"), T, l(<<s("a"), NUL, i("2")>>), ob(<< <<"a", NUL>>, <<"b", l(<<ob(<< <<"c", i("-7")>> >>)>>)>> >>), ob(<<>>), i("18446744073709551615")>>
Kvs == <<l(<<kv("a", "x")>>), l(<<kv("a", "tpl"), kv("a", "nasty"), kv("B", "")>>)>>
NotKvs == <<s("x"), l(<<ob(<< <<"key", s("a")>> >>)>>), l(<<s("a")>>), l(<<kv("a", "x"), ob(<< <<"key", s("a")>>, <<"value", i("1")>> >>)>>)>>
Flag(n) == O(n, <<T, F>>, <<>>, <<s("true"), i("1")>>)
FlagOff(n) == O(n, <<T, F>>, <<F>>, <<s("true"), i("1")>>)
Opt(n, vs, bad) == O(n, vs, <<>>, bad)
Lst(n, vs, bad) == O(n, vs \o <<l(<<>>)>>, <<l(<<>>)>>, bad)
Names == <<l(<<s("a")>>), l(<<s("b"), s("a"), s("nasty")>>)>>
NotNames == <<l(<<i("1")>>), l(<<s("a"), NUL>>)>>
Qs == <<l(<<kv("a", "tpl")>>), l(<<ob(<< <<"key", s("a")>>, <<"skipEmpty", T>>, <<"value", s("x")>> >>), kv("b", "")>>)>>
Steps == <<l(<<ob(<< <<"query", s("q")>> >>)>>), l(<<ob(<< <<"args", ob(<< <<"x", s("tpl")>>, <<"y", l(<<i("1")>>)>> >>)>>, <<"mutation", s("m")>> >>), ob(<< <<"query", s("q")>> >>)>>)>>
D(n, at, strict, args) == [n |-> n, at |-> at, strict |-> strict, args |-> args]
FT == {"field", "type"}
Table == <<
  D("http", FT, TRUE, <<R("url", <<s("x"), s("tpl"), s("nasty")>>, NotText), O("method", <<e("POST"), s("PUT"), e("DELETE"), e("GET")>>, <<e("GET")>>, <<e("FOO"), e("get")>>),
     Opt("body", Anything, <<>>), O("encoding", <<e("ApplicationXWwwFormUrlencoded"), e("ApplicationJson")>>, <<e("ApplicationJson")>>, <<e("XML")>>),
     Lst("batchKey", Names, NotNames), Lst("headers", Kvs, NotKvs), Lst("query", Qs, <<l(<<ob(<< <<"value", s("x")>> >>)>>)>>), Opt("onRequest", Text, NotText),
     Flag("dedupe"), Opt("select", Anything, <<>>), Opt("onResponseBody", Text, NotText)>>),
  D("graphQL", FT, TRUE, <<R("url", <<s("x"), s("tpl")>>, NotText), R("name", <<s("n"), s("")>>, NotText), Opt("args", Kvs \o <<l(<<>>)>>, NotKvs), Lst("headers", Kvs, NotKvs),
     FlagOff("batch"), FlagOff("dedupe")>>),
  D("grpc", FT, TRUE, <<R("url", <<s("x"), s("tpl")>>, NotText), R("method", <<s("a.b.C")>>, NotText), Opt("body", Anything, <<>>), Lst("batchKey", Names, NotNames),
     Lst("headers", Kvs, NotKvs), Flag("dedupe"), Opt("select", Anything, <<>>), Opt("onResponseBody", Text, NotText)>>),
  D("expr", FT, TRUE, <<R("body", Anything \o <<NUL>>, <<>>)>>),
  D("call", FT, FALSE, <<R("steps", Steps \o <<l(<<>>)>>, <<s("x"), l(<<s("a")>>), l(<<ob(<< <<"query", i("1")>> >>)>>)>>), Flag("dedupe")>>),
  D("js", FT, FALSE, <<R("name", Text, NotText)>>),
  D("cache", FT, TRUE, <<R("maxAge", <<i("1"), i("18446744073709551615")>>, <<i("0"), i("-1"), s("1"), f("1.5")>>)>>),
  D("protected", FT, FALSE, <<Opt("id", Names \o <<l(<<>>)>>, NotNames)>>),
  D("modify", {"field", "arg", "infield"}, TRUE, <<Opt("name", <<s("x"), s("nasty")>>, NotText), Flag("omit")>>),
  D("omit", {"field"}, TRUE, <<>>),
  D("discriminate", {"field"}, TRUE, <<Opt("field", Text, NotText)>>),
  D("addField", {"type"}, TRUE, <<R("name", <<s("x")>>, NotText), R("path", Names \o <<l(<<>>)>>, NotNames)>>),
  D("key", {"type"}, FALSE, <<Opt("fields", <<s("a"), s("nasty")>>, <<>>), Opt("resolvable", <<T, F>>, <<>>)>>),
  D("link", {"schema"}, TRUE, <<Opt("id", Text, NotText), O("src", Text, <<s("")>>, NotText),
     O("type", <<e("Protobuf"), e("Script"), e("Cert"), e("Key"), e("Operation"), e("Htpasswd"), e("Jwks"), e("Grpc"), e("Config")>>, <<e("Config")>>, <<e("Foo")>>),
     Opt("headers", Kvs \o <<l(<<>>)>>, NotKvs), Opt("meta", Anything, <<>>)>>),
  D("alias", {"value"}, FALSE, <<R("options", <<l(<<s("b"), s("c")>>), l(<<s("nasty")>>), l(<<>>)>>, NotNames)>>) >>

\* a text: argument number -> 0 (not given), k (its value k) or 100 + k (its wrong value k), and whether an unknown argument is given too
Good(a) == 1..Len(a.vs)
Wrong(a) == {100 + k : k \in 1..Len(a.bad)}
Dir(k) == Table[k]
\* every argument with each of its values, up to Wide of the optional ones together
RECURSIVE Some(_, _)
Base(d, req) == [k \in 1..Len(d.args) |-> IF d.args[k].req /\ req THEN 1 ELSE 0]
Some(d, n) == IF n = 0 THEN {Base(d, TRUE)}
              ELSE LET r == Some(d, n - 1) IN r \cup UNION {UNION {{[g EXCEPT ![k] = v] : v \in Good(d.args[k])} : k \in 1..Len(d.args)} : g \in r}
Bad1(d) == UNION {{[Base(d, TRUE) EXCEPT ![k] = v] : v \in Wrong(d.args[k])} : k \in 1..Len(d.args)}
Missing(d) == {[Base(d, TRUE) EXCEPT ![k] = 0] : k \in {k \in 1..Len(d.args) : d.args[k].req}}
Texts == [k \in 1..Len(Table) |-> {<<g, FALSE>> : g \in Some(Table[k], Wide) \cup Bad1(Table[k]) \cup Missing(Table[k])} \cup {<<Base(Table[k], TRUE), TRUE>>}]

Given(d, g) == SelectSeq([k \in 1..Len(d.args) |-> k], LAMBDA k : g[k] # 0)
ValueOf(a, v) == IF v > 100 THEN a.bad[v - 100] ELSE a.vs[v]
Doc(d, g, u) == LET ks == Given(d, g) IN [k \in 1..Len(ks) |-> <<d.args[ks[k]].n, ValueOf(d.args[ks[k]], g[ks[k]])>>] \o (IF u THEN << <<"unknown", i("1")>> >> ELSE <<>>)
\* reading: <<>> when refused, <<meaning>> otherwise
Unquote(v) == IF v[1] = "e" THEN s(v[2]) ELSE v
Read(d, doc) ==
  LET known == {d.args[k].n : k \in 1..Len(d.args)}
      arg(n) == d.args[CHOOSE k \in 1..Len(d.args) : d.args[k].n = n]
      takes(a, v) == v \in ToSet(a.vs) \cup {Unquote(w) : w \in ToSet(a.vs)}
  IN IF d.n = "key" THEN <<doc>>       \* taken as it is
     ELSE IF \/ d.strict /\ \E k \in DOMAIN doc : doc[k][1] \notin known
             \/ \E k \in 1..Len(d.args) : d.args[k].req /\ ~\E j \in DOMAIN doc : doc[j][1] = d.args[k].n
             \/ \E j \in DOMAIN doc : doc[j][1] \in known /\ ~takes(arg(doc[j][1]), doc[j][2])
     THEN <<>>
     ELSE LET kept == SelectSeq(doc, LAMBDA x : x[1] \in known /\ ~\E dv \in ToSet(arg(x[1]).d) : Unquote(dv) = Unquote(x[2]))
          IN <<[k \in 1..Len(kept) |-> <<kept[k][1], Unquote(kept[k][2])>>]>>
\* writing a meaning gives what is not the default
Write(m) == m

Init == done = 0 /\ o = <<>> /\ \E k \in 1..Len(Table) : \E t \in Texts[k] : \E p \in Table[k].at : c = [k |-> k, g |-> t[1], u |-> t[2], p |-> p]
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ LET d == Table[c.k]
               doc == Doc(d, c.g, c.u)
               r == Read(d, doc)
           IN /\ o' = <<doc, r>>
              /\ PrintT("@" \o ToJson([dir |-> d.n, at |-> c.p, text |-> doc, means |-> r]))
Spec == Init /\ [][Next]_<<c, done, o>>

D1 == Table[c.k]
Doc1 == o[1]
Meaning == o[2]
\* what is written out means the same, also when written out again
RoundTrip == (done = 1 /\ Meaning # <<>>) => Read(D1, Write(Meaning[1])) = Meaning
\* nothing given is lost but defaults
Kept == (done = 1 /\ Meaning # <<>>) => \A k \in DOMAIN Doc1 : (\E a \in ToSet(D1.args) : a.n = Doc1[k][1] /\ a.d = <<>>) => \E j \in DOMAIN Meaning[1] : Meaning[1][j] = <<Doc1[k][1], Unquote(Doc1[k][2])>>
\* the order of the arguments has no meaning
Order == (done = 1) => LET r == Read(D1, Reverse(Doc1)) IN (r = <<>>) = (Meaning = <<>>) /\ (Meaning # <<>> => ToSet(r[1]) = ToSet(Meaning[1]))
=============================================================================
