------------------------------- MODULE Mustache -------------------------------
(* P10: templates. Parsing is specified on characters, rendering on the parsed
   segments: <<"lit", text>> and <<"exp", seq of names>>.                           *)
EXTENDS JsonVal, Json
\* "~" and "^" stand for letters outside ASCII (the harness puts them in): TLC cannot take
\* a text of such letters apart
CONSTANTS MaxTokens, MaxPieces
VARIABLES c, done

Tokens == {"{{", "}}", "{", "}", ".", "a", "b1", "_", " ", "\"", "9", "/"}
RECURSIVE Chars(_), Join(_)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Join(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Join(Tail(ss))

Alpha(ch) == ch \in {"a", "b", "c", "d", "e", "f", "g", "h", "i", "l", "m", "n", "o", "r", "s", "t", "u", "v", "x"}
Numeric(ch) == ch \in {"0", "1", "2", "9"}
Spaces == {" ", "\n", "\t"}
At(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i]
RECURSIVE SkipSp(_, _), SkipName(_, _)
SkipSp(cs, i) == IF At(cs, i) \in Spaces THEN SkipSp(cs, i + 1) ELSE i
SkipName(cs, i) == IF Alpha(At(cs, i)) \/ Numeric(At(cs, i)) \/ At(cs, i) = "_" THEN SkipName(cs, i + 1) ELSE i
Text(cs, i, j) == Join(SubSeq(cs, i, j - 1))
\* names separated by dots, then "}}": <<next index, names>> or <<0, _>>
RECURSIVE Names(_, _, _)
Names(cs, i, acc) ==
  LET b == SkipSp(cs, i) IN
  IF ~Alpha(At(cs, b)) THEN <<0, <<>>>>
  ELSE LET e == SkipName(cs, b)  n == SkipSp(cs, e)  acc2 == Append(acc, Text(cs, b, e)) IN
       IF At(cs, n) = "." THEN Names(cs, n + 1, acc2)
       ELSE IF At(cs, n) = "}" /\ At(cs, n + 1) = "}" THEN <<n + 2, acc2>> ELSE <<0, <<>>>>
ExprAt(cs, i) == IF At(cs, i) = "{" /\ At(cs, i + 1) = "{"
                 THEN Names(cs, IF At(cs, i + 2) = "." THEN i + 3 ELSE i + 2, <<>>) ELSE <<0, <<>>>>
RECURSIVE NextOpen(_, _)
NextOpen(cs, i) == IF i >= Len(cs) THEN 0 ELSE IF cs[i] = "{" /\ cs[i + 1] = "{" THEN i ELSE NextOpen(cs, i + 1)
\* segments from position i; "bad" when an opening is not a well formed expression
RECURSIVE Segments(_, _)
Segments(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET e == ExprAt(cs, i) IN
    IF e[1] # 0 THEN <<<<"exp", e[2]>>>> \o Segments(cs, e[1])
    ELSE LET o == NextOpen(cs, i) IN
      IF o = 0 THEN <<<<"lit", <<Text(cs, i, Len(cs) + 1)>>>>>>
      ELSE IF o = i THEN <<<<"bad", <<>>>>>>
      ELSE <<<<"lit", <<Text(cs, i, o)>>>>>> \o Segments(cs, o)
\* a template with a malformed expression is one literal; a lone quotation mark is no literal
Parse(t) == LET cs == Chars(t)  ss == Segments(cs, 1)
                all == IF \E k \in 1..Len(ss) : ss[k][1] = "bad" THEN <<<<"lit", <<t>>>>>> ELSE ss
            IN SelectSeq(all, LAMBDA s : s # <<"lit", <<"">>>> /\ s # <<"lit", <<"\"">>>>)
RECURSIVE Dotted(_)
Dotted(ns) == IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o "." \o Dotted(Tail(ns))
Show(ss) == Join([k \in 1..Len(ss) |-> IF ss[k][1] = "lit" THEN ss[k][2][1] ELSE "{{." \o Dotted(ss[k][2]) \o "}}"])
Const(ss) == \A k \in 1..Len(ss) : ss[k][1] = "lit"

(* rendering *)
RECURSIVE JsonText(_), GqlText(_)
RECURSIVE Sep(_, _)
Sep(ss, by) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o by \o Sep(Tail(ss), by)
Commas(ss) == Sep(ss, ",")
CommaSp(ss) == Sep(ss, ", ")
Quote(s) == "\"" \o Join([i \in 1..Len(s) |-> LET ch == SubSeq(s, i, i) IN IF ch = "\"" THEN "\\\"" ELSE IF ch = "\\" THEN "\\\\" ELSE ch]) \o "\""
JsonText(v) == CASE v[1] = "n" -> "null" [] v[1] = "s" -> Quote(v[2]) [] v[1] \in {"i", "f", "b"} -> v[2]
                 [] v[1] = "a" -> "[" \o Commas([i \in 1..Len(v[2]) |-> JsonText(v[2][i])]) \o "]"
                 [] OTHER -> "{" \o Commas([i \in 1..Len(v[2]) |-> Quote(v[2][i][1]) \o ":" \o JsonText(v[2][i][2])]) \o "}"
GqlText(v) == CASE v[1] = "n" -> "null" [] v[1] = "s" -> Quote(v[2]) [] v[1] \in {"i", "f", "b"} -> v[2]
                 [] v[1] = "a" -> "[" \o CommaSp([i \in 1..Len(v[2]) |-> GqlText(v[2][i])]) \o "]"
                 [] OTHER -> "{" \o CommaSp([i \in 1..Len(v[2]) |-> v[2][i][1] \o ": " \o GqlText(v[2][i][2])]) \o "}"
\* what an expression refers to: <<>> for nothing
Nine == <<"o", << <<"x", <<"i", "9">> >> >> >>
Parent(v) == <<"o", << <<"id", v>>, <<"l", <<"a", <<v, Nine>> >> >> >> >>
Env(e) == [args |-> <<"o", <<<<"id", e.v>>, <<"n", <<"o", <<<<"x", e.v>>>>>>>>>>>>,
           value |-> IF e.parent THEN <<Parent(e.v)>> ELSE <<>>]
Lookup(e, p) ==
  LET h == p[1] IN
  CASE h = "args" -> GetPath(Env(e).args, Tail(p))
    [] h = "value" -> IF Env(e).value = <<>> THEN <<>> ELSE GetPath(Env(e).value[1], Tail(p))
    [] h = "vars" /\ Len(p) = 1 -> <<<<"s", "{\"a\":\"va\"}">>>>
    [] h = "vars" /\ Len(p) > 1 -> IF p[2] = "a" THEN <<<<"s", "va">>>> ELSE <<>>
    [] h = "env" /\ Len(p) > 1 -> IF p[2] = "a" THEN <<<<"s", "e a">>>> ELSE <<>>
    [] h = "headers" /\ Len(p) > 1 -> IF p[2] = "a" THEN <<<<"s", "h/a">>>> ELSE <<>>
    [] OTHER -> <<>>
Plain(v) == CASE v[1] = "n" -> "" [] v[1] \in {"s", "i", "f", "b"} -> v[2] [] OTHER -> JsonText(v)
Render(ss, e) == Join([k \in 1..Len(ss) |-> IF ss[k][1] = "lit" THEN ss[k][2][1]
                    ELSE LET v == Lookup(e, ss[k][2]) IN IF v = <<>> THEN "" ELSE Plain(v[1])])
RenderGql(ss, e) == Join([k \in 1..Len(ss) |-> IF ss[k][1] = "lit" THEN ss[k][2][1]
                    ELSE IF Len(ss[k][2]) < 2 THEN ""
                    ELSE LET v == Lookup(e, ss[k][2]) IN IF v = <<>> THEN "" ELSE GqlText(v[1])])
RenderJson(ss, e) == Join([k \in 1..Len(ss) |-> IF ss[k][1] = "lit" THEN ss[k][2][1]
                    ELSE LET v == Lookup(e, ss[k][2]) IN IF v = <<>> THEN "" ELSE IF v[1] = Null THEN "null" ELSE Plain(v[1])])
\* what is not there stays as it was written
RenderPartial(ss, e) == Join([k \in 1..Len(ss) |-> IF ss[k][1] = "lit" THEN ss[k][2][1]
                    ELSE LET v == Lookup(e, ss[k][2]) IN IF v = <<>> \/ v = <<Null>> THEN Show(<<ss[k]>>) ELSE Plain(v[1])])
Raw(ss, e) == LET x == SelectSeq(ss, LAMBDA g : g[1] = "exp") IN [k \in 1..Len(x) |-> Lookup(e, x[k][2])]
Pieces == {"x/", "\"", "{{.args.id}}", "{{value.id}}", "{{ .value.l }}", "{{.args.n.x}}", "{{.args}}", "{{.vars.a}}", "{{vars}}",
           "{{.env.a}}", "{{.headers.a}}", "{{.headers.b}}", "{{.args.missing}}", "{{.other.id}}", "{{.value}}", "{{.args.n}}", "{{.env.b}}", "{{ args . id }}",
           "{{.args.id.x}}", "{{.vars.b}}", "~"}
Vals == {Null, <<"s", "~^">>, <<"s", "p q&r">>, <<"s", "say \"hi\"">>, <<"s", "">>, <<"i", "12">>, <<"i", "9007199254740993">>, <<"f", "1.5">>, <<"b", "true">>, <<"a", <<<<"i", "1">>, Null, <<"s", "x">>>>>>,
         <<"o", <<<<"k", <<"s", "y">>>>, <<"j", Null>>>>>>}
Templates(n) == UNION {[1..k -> Tokens] : k \in 0..n}
Extra == {<<"{{", "a", ".", "b1", "}}">>, <<"{{", ".", "a", ".", "b1", "}}", "/", "{{", "a", "}}">>, <<"{{", ".", ".", "a", "}}">>,
          <<"{{", " ", "a", " ", ".", " ", "b1", "_", " ", "}}">>, <<"{{", " ", ".", "a", "}}">>, <<"{{", "a", ".", "9", "}}">>,
          <<"/", "{{", "a", "}}", "{{", "9", "}}">>, <<"{{", "a", "}}", "{{", "b1", "}}">>, <<"{{", "a", "}}", "\"", "{{", "b1", "}}">>,
          <<"{", "{{", "a", "}}", "}">>, <<"/", "{", " ", "{{", "a", "}}", "}">>, <<"{{", "a", " ", "b1", "}}">>, <<"{{", "a", ".", "}}">>,
          <<"{{", "a", "_", "9", "_", "}}", "}}">>, <<"{{", "_", "a", "}}">>, <<"\"", "{{", "a", "}}", "\"">>, <<"{{", "a", "}}", "/", "{{">>,
          <<"{{", "\n", "a", "\n", ".", "\t", "b1", "\n", "}}">>, <<"/", "\n", "{{", "a", "}}", "\n">>, <<"~", "{{", "a", "}}", "~">>, <<"{{", "~", "}}">>, <<"{{", "a", "~", "}}">>,
          <<"{{", "a", ".", "b1", ".", "value", "}}">>, <<"{{", "args", ".", "value", "}}", "/">>, <<"/", "{{", "value", "}}">>, <<"value", "{{", "id", "}}">>,
          <<"{{", "-a", "}}">>, <<"{{", "a-", "}}">>, <<"{{", "a", ".", "-", "b1", "}}">>, <<"{{", "a", "-", "b1", "}}", "/">>, <<"{{", "a", ".", "b1", "-", "9", "}}">>, <<"{{", "-", "}}">>, <<"{{", "__", "a", "}}">>}
Inputs == {[k |-> "parse", t |-> Join(t), e |-> [v |-> Null, parent |-> FALSE]] : t \in Templates(MaxTokens) \cup Extra}
     \cup {[k |-> "render", t |-> Join(t), e |-> e] : t \in UNION {[1..n -> Pieces] : n \in 1..MaxPieces}, e \in [v : Vals, parent : BOOLEAN]}
Init == done = FALSE /\ c \in Inputs
Out(x) == LET ss == Parse(x.t) IN
  [segs |-> ss, show |-> Show(ss), const |-> Const(ss), names |-> SetToSeq(UNION {{ss[k][2][i] : i \in 1..Len(ss[k][2])} : k \in {j \in 1..Len(ss) : ss[j][1] = "exp"}}),
   str |-> IF x.k = "parse" THEN "" ELSE Render(ss, x.e), gql |-> IF x.k = "parse" THEN "" ELSE RenderGql(ss, x.e),
   json |-> IF x.k = "parse" THEN "" ELSE RenderJson(ss, x.e), partial |-> IF x.k = "parse" THEN "" ELSE RenderPartial(ss, x.e),
   raw |-> IF x.k = "parse" THEN <<>> ELSE Raw(ss, x.e),
   args |-> Env(x.e).args, value |-> Env(x.e).value]
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out(c)]))
Spec == Init /\ [][Next]_<<c, done>>
RoundTrip == c.k = "parse" => Parse(Show(Parse(c.t))) = Parse(c.t)
ConstRendersItself == c.k = "render" /\ Const(Parse(c.t)) => Render(Parse(c.t), c.e) = Show(Parse(c.t))
=============================================================================
