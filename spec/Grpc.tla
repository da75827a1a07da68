--------------------------------- MODULE Grpc ---------------------------------
(* P36: fields backed by gRPC methods. Messages are converted between JSON and the protobuf wire format, calls are framed, sent to the
   method's URL, failures become errors, and calls of one batch become one call whose answer is distributed by key.
   The wire format is specified here, byte by byte; numbers are decimal texts where TLC's integers end. *)
EXTENDS JsonVal, Json, Integers
CONSTANTS Family, Deep
VARIABLES c, done

S(t) == <<"s", t>>
I(t) == <<"i", t>>
B(t) == <<"b", t>>
A(xs) == <<"a", xs>>
O(fs) == <<"o", fs>>

\* ---- bytes
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch)]
Bytes(t) == [i \in 1..Len(t) |-> Code[SubSeq(t, i, i)]]
RECURSIVE Small(_)
Small(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Small(n \div 128)
Ones(n) == [i \in 1..n |-> 255]
Num == [t \in {"0", "1", "2", "3", "5", "7", "9", "127", "128", "300"} |->
          CASE t = "0" -> 0 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] t = "5" -> 5 [] t = "7" -> 7 [] t = "9" -> 9 [] t = "127" -> 127 [] t = "128" -> 128 [] OTHER -> 300]
\* the varints of texts: two's complement of 64 bits
Varint(t) == CASE t = "-1" -> Ones(9) \o <<1>>
               [] t = "2147483647" -> Ones(4) \o <<7>>
               [] t = "-2147483648" -> <<128, 128, 128, 128, 248>> \o Ones(4) \o <<1>>
               [] t = "4294967295" -> Ones(4) \o <<15>>
               [] t = "9007199254740993" -> <<129, 128, 128, 128, 128, 128, 128, 16>>
               [] t = "9223372036854775807" -> Ones(8) \o <<127>>
               [] t = "-9223372036854775808" -> [i \in 1..9 |-> 128] \o <<1>>
               [] t = "18446744073709551615" -> Ones(9) \o <<1>>
               [] OTHER -> Small(Num[t])
ZigZag(t) == CASE t = "-1" -> <<1>> [] t = "2147483647" -> <<254>> \o Ones(3) \o <<15>> [] t = "-2147483648" -> Ones(4) \o <<15>> [] OTHER -> Small(2 * Num[t])
Fixed32(t) == CASE t = "4294967295" -> Ones(4) [] t = "2147483647" -> Ones(3) \o <<127>> [] OTHER -> LET n == Num[t] IN <<n % 256, n \div 256, 0, 0>>
Double(t) == CASE t = "1.5" -> <<0, 0, 0, 0, 0, 0, 248, 63>> [] t = "-2.0" -> <<0, 0, 0, 0, 0, 0, 0, 192>> [] OTHER -> [i \in 1..8 |-> 0]

\* ---- the message types
F(k, n, kind, label) == [n |-> k, name |-> n, kind |-> kind, label |-> label]
M == << F(1, "i", "int32", "one"), F(2, "s", "string", "one"), F(3, "b", "bool", "one"), F(4, "l", "int64", "one"), F(5, "u", "uint32", "one"), F(6, "c", "enum", "one"),
        F(7, "ri", "int32", "many"), F(8, "rs", "string", "many"), F(9, "sub", "Sub", "one"), F(10, "ms", "Sub", "many"), F(11, "y", "bytes", "one"), F(12, "z", "sint32", "one"),
        F(13, "o", "int32", "opt"), F(16, "someName", "string", "one"), F(17, "ul", "uint64", "one"), F(18, "f", "fixed32", "one"), F(19, "d", "double", "one"),
        F(20, "oa", "string", "opt"), F(21, "ob", "int32", "opt"), F(22, "rl", "int64", "many"), F(23, "mp", "Entry", "map"), F(24, "self", "M", "one") >>
Sub == << F(1, "n", "int32", "one"), F(2, "t", "string", "one") >>
Entry == << F(1, "key", "string", "one"), F(2, "value", "int32", "one") >>
OneOf == {"oa", "ob"}
Msgs == {"Sub", "M", "Entry"}
Type(k) == CASE k = "Sub" -> Sub [] k = "Entry" -> Entry [] OTHER -> M
Names(ty) == {ty[i].name : i \in 1..Len(ty)}
Find(ty, n) == ty[CHOOSE i \in 1..Len(ty) : ty[i].name = n]
Presence(f) == f.label = "opt" \/ (f.kind \in Msgs /\ f.label = "one")

\* ---- the values of a kind: which JSON it is written as, whether it can be read
Ints == [k \in {"int32", "sint32", "uint32", "fixed32", "int64", "uint64"} |->
  {"0", "1", "2", "3", "5", "7", "9", "127", "128", "300"} \cup
  (CASE k \in {"int32", "sint32"} -> {"-1", "2147483647", "-2147483648"}
     [] k \in {"uint32", "fixed32"} -> {"2147483647", "4294967295"}
     [] k = "int64" -> {"-1", "9007199254740993", "9223372036854775807", "-9223372036854775808", "4294967295", "2147483647"}
     [] OTHER -> {"9007199254740993", "18446744073709551615"})]
Enums == [t \in {"RED", "BLUE"} |-> IF t = "RED" THEN "0" ELSE "1"]
Base64 == [t \in {"", "YQ==", "YWI=", "YWJj"} |-> CASE t = "" -> "" [] t = "YQ==" -> "a" [] t = "YWI=" -> "ab" [] OTHER -> "abc"]
RECURSIVE Reads(_, _), ReadsField(_, _)
\* v can be read as one value of the kind
Reads(k, v) ==
  CASE k \in DOMAIN Ints -> v[1] \in {"i", "s"} /\ v[2] \in Ints[k]
    [] k = "string" -> v[1] = "s"
    [] k = "bool" -> v[1] = "b"
    [] k = "bytes" -> v[1] = "s" /\ v[2] \in DOMAIN Base64
    [] k = "enum" -> (v[1] = "s" /\ v[2] \in DOMAIN Enums) \/ (v[1] = "i" /\ v[2] \in {"0", "1", "7"})
    [] k = "double" -> v[1] = "f" \/ (v[1] = "i" /\ v[2] = "0")
    [] OTHER -> v[1] = "o" /\ (\A i \in 1..Len(v[2]) : v[2][i][1] \in Names(Type(k)) /\ ReadsField(Find(Type(k), v[2][i][1]), v[2][i][2]))
                /\ Cardinality({v[2][i][1] : i \in {j \in 1..Len(v[2]) : v[2][j][2] # Null}} \cap OneOf) < 2
ReadsField(f, v) ==
  \/ v = Null
  \/ f.label \in {"one", "opt"} /\ Reads(f.kind, v)
  \/ f.label = "many" /\ v[1] = "a" /\ \A i \in 1..Len(v[2]) : Reads(f.kind, v[2][i])
  \/ f.label = "map" /\ v[1] = "o" /\ \A i \in 1..Len(v[2]) : Reads("int32", v[2][i][2])

Default(k) == CASE k \in DOMAIN Ints -> I("0") [] k \in {"string", "bytes"} -> S("") [] k = "bool" -> B("false") [] k = "enum" -> S("RED") [] k = "double" -> <<"f", "0.0">> [] OTHER -> O(<<>>)
\* one value, as it is given back
RECURSIVE Said(_, _), SaidMsg(_, _), SaidField(_, _)
Said(k, v) ==
  CASE k \in {"int64", "uint64"} -> S(v[2])
    [] k \in DOMAIN Ints -> I(v[2])
    [] k = "enum" -> IF v[1] = "i" THEN (CASE v[2] = "0" -> S("RED") [] v[2] = "1" -> S("BLUE") [] OTHER -> v) ELSE v
    [] k = "double" -> IF v[1] = "i" THEN <<"f", "0.0">> ELSE v
    [] k \in Msgs -> SaidMsg(Type(k), v)
    [] OTHER -> v
\* zero, as a value that says nothing
Zero(k, v) == k \notin Msgs /\ Said(k, v) = Said(k, Default(k))
SaidField(f, g) ==
  LET v == IF g = <<>> THEN Null ELSE g[1] IN
  CASE f.label = "many" -> <<A(IF v = Null THEN <<>> ELSE [i \in 1..Len(v[2]) |-> Said(f.kind, v[2][i])])>>
    [] f.label = "map" -> <<O(IF v = Null THEN <<>> ELSE [i \in 1..Len(v[2]) |-> <<v[2][i][1], Said("int32", v[2][i][2])>>])>>
    [] v = Null -> IF Presence(f) THEN <<>> ELSE <<Said(f.kind, Default(f.kind))>>
    [] OTHER -> <<Said(f.kind, v)>>
SaidMsg(ty, v) == O(FlattenSeq([i \in 1..Len(ty) |-> LET s == SaidField(ty[i], Get(v, ty[i].name)) IN IF s = <<>> THEN <<>> ELSE <<<<ty[i].name, s[1]>>>>]))

\* ---- the wire
WireType(k) == CASE k \in {"string", "bytes"} \cup Msgs -> 2 [] k = "fixed32" -> 5 [] k = "double" -> 1 [] OTHER -> 0
Tag(n, w) == Small(8 * n + w)
Sized(bs) == Small(Len(bs)) \o bs
Packable(k) == WireType(k) # 2
RECURSIVE Wire(_, _), WireMsg(_, _), WireField(_, _)
Wire(k, v) ==
  CASE k = "string" -> Sized(Bytes(v[2])) [] k = "bytes" -> Sized(Bytes(Base64[v[2]]))
    [] k = "bool" -> IF v[2] = "true" THEN <<1>> ELSE <<0>>
    [] k = "enum" -> Varint(IF v[1] = "i" THEN v[2] ELSE Enums[v[2]])
    [] k = "sint32" -> ZigZag(v[2]) [] k = "fixed32" -> Fixed32(v[2]) [] k = "double" -> Double(v[2])
    [] k \in Msgs -> Sized(WireMsg(Type(k), v))
    [] OTHER -> Varint(v[2])
Entries(v) == [i \in 1..Len(v[2]) |-> O(<< <<"key", S(v[2][i][1])>>, <<"value", v[2][i][2]>> >>)]
WireField(f, g) ==
  LET v == IF g = <<>> THEN Null ELSE g[1] IN
  CASE v = Null -> <<>>
    [] f.label \in {"many", "map"} ->
         LET xs == IF f.label = "map" THEN Entries(v) ELSE v[2] IN
         IF xs = <<>> THEN <<>>
         ELSE IF Packable(f.kind) THEN Tag(f.n, 2) \o Sized(FlattenSeq([i \in 1..Len(xs) |-> Wire(f.kind, xs[i])]))
         ELSE FlattenSeq([i \in 1..Len(xs) |-> Tag(f.n, 2) \o Wire(f.kind, xs[i])])
    [] Zero(f.kind, v) /\ ~Presence(f) -> <<>>
    [] OTHER -> Tag(f.n, WireType(f.kind)) \o Wire(f.kind, v)
WireMsg(ty, v) == FlattenSeq([i \in 1..Len(ty) |-> WireField(ty[i], Get(v, ty[i].name))])
Frame(bs) == <<0, 0, 0, Len(bs) \div 256, Len(bs) % 256>> \o bs
\* entries may or may not write their zero values
Written(v) == Frame(WireMsg(M, v))

\* ---- family "say": what is sent, as JSON; family "hear": what is answered, in one of the forms a peer may write it
Lights == << <<"i", I("5")>>, <<"s", S("a\"b")>>, <<"b", B("true")>>, <<"l", S("9007199254740993")>>, <<"c", S("BLUE")>>, <<"ri", A(<<I("1"), I("300")>>)>>, <<"rs", A(<<S("x"), S("")>>)>>,
             <<"sub", O(<<<<"t", S("y")>>>>)>>, <<"ms", A(<<O(<<<<"n", I("1")>>>>), O(<<>>)>>)>>, <<"o", I("0")>>, <<"oa", S("")>>, <<"ob", I("7")>>, <<"mp", O(<<<<"k", I("3")>>>>)>>, <<"someName", S("n")>>, <<"s", Null>>,
             <<"self", O(<<<<"self", O(<<<<"i", I("1")>>>>)>>>>)>> >>
Of(k) == CASE k \in DOMAIN Ints -> {I(t) : t \in Ints[k]} \cup {S(t) : t \in {"1", "300"}}
           [] k = "string" -> {S(t) : t \in {"", "x", "{\"i\": 1}", "a\\b", "{{.args.x}}"}} [] k = "bool" -> {B("true"), B("false")} [] k = "bytes" -> {S(t) : t \in DOMAIN Base64}
           [] k = "enum" -> {S("RED"), S("BLUE"), I("1"), I("7")} [] k = "double" -> {<<"f", "1.5">>, <<"f", "-2.0">>, I("0")}
           [] k = "Sub" -> {O(<<>>), O(<<<<"n", I("300")>>, <<"t", S("x")>>>>), O(<<<<"t", S("x")>>, <<"n", I("0")>>>>)}
           [] OTHER -> {O(<<>>), O(<<<<"i", I("1")>>, <<"rs", A(<<S("x")>>)>>>>), O(<<<<"self", O(<<>>)>>>>)}
\* null for a field with presence: the library writes the default value, left open
FieldVals(f) == (IF f.label = "opt" THEN {} ELSE {Null}) \cup (CASE f.label = "many" -> {A(<<>>)} \cup {A(<<x>>) : x \in Of(f.kind)} \cup {A(<<x, y, x>>) : x, y \in Of(f.kind)}
                               [] f.label = "map" -> {O(<<>>), O(<<<<"k", I("1")>>>>), O(<<<<"", I("5")>>>>)}
                               [] OTHER -> Of(f.kind))
Singles == UNION {{O(<<<<M[i].name, v>>>>) : v \in FieldVals(M[i])} : i \in 1..Len(M)} \cup {O(<<>>)}
Pairs == {O(<<Lights[i], Lights[j]>>) : i, j \in 1..Len(Lights)}
Distinct(v) == \A i, j \in 1..Len(v[2]) : i # j => v[2][i][1] # v[2][j][1]
Wrongs == {O(<<<<"i", x>>>>) : x \in {S("x"), B("true"), <<"f", "1.5">>, I("2147483648"), A(<<I("1")>>), O(<<>>)}}
          \cup {O(<<<<n, I("1")>>>>) : n \in {"none", "s", "b", "rs", "sub", "mp"}}
          \cup {O(<<<<"ri", A(<<I("1"), S("x")>>)>>>>), O(<<<<"c", S("GREEN")>>>>), O(<<<<"u", I("-1")>>>>), O(<<<<"sub", O(<<<<"none", I("1")>>>>)>>>>), O(<<<<"i", I("1")>>, <<"none", I("1")>>>>)}
Said3 == {v \in Singles \cup Pairs : Distinct(v)}
Ok(v) == Reads("M", v)
Forms == {"plain", "reversed", "unknown", "twice", "unpacked", "split"}
ReverseFields(v) == LET r == Reverse([i \in 1..Len(M) |-> WireField(M[i], Get(v, M[i].name))]) IN FlattenSeq(r)
Unpacked(f, g) == IF g # <<>> /\ g[1] # Null /\ f.label = "many" /\ Packable(f.kind) THEN FlattenSeq([i \in 1..Len(g[1][2]) |-> Tag(f.n, WireType(f.kind)) \o Wire(f.kind, g[1][2][i])]) ELSE WireField(f, g)
\* a packed list in two pieces
Split(f, g) == IF g # <<>> /\ g[1] # Null /\ f.label = "many" /\ Packable(f.kind) /\ Len(g[1][2]) > 1 THEN WireField(f, <<A(<<g[1][2][1]>>)>>) \o WireField(f, <<A(Tail(g[1][2]))>>) ELSE WireField(f, g)
\* fields that are not declared: 30 as number, 31 as text, 32 and 33 as fixed
Foreign == Tag(30, 0) \o <<5>> \o Tag(31, 2) \o Sized(Bytes("zz")) \o Tag(32, 5) \o <<1, 2, 3, 4>> \o Tag(33, 1) \o [i \in 1..8 |-> 9]
Form(m, v) ==
  CASE m = "plain" -> WireMsg(M, v) [] m = "reversed" -> ReverseFields(v) [] m = "unknown" -> Foreign \o WireMsg(M, v) \o Foreign
    [] m = "twice" -> (Tag(1, 0) \o <<9>>) \o (Tag(2, 2) \o Sized(Bytes("old"))) \o (Tag(9, 2) \o Sized(Tag(1, 0) \o <<9>>)) \o WireMsg(M, v)
    [] m = "unpacked" -> FlattenSeq([i \in 1..Len(M) |-> Unpacked(M[i], Get(v, M[i].name))])
    [] OTHER -> FlattenSeq([i \in 1..Len(M) |-> Split(M[i], Get(v, M[i].name))])
\* what the second form of "twice" means: the last of single fields counts, messages are merged
Given(v, n) == Get(v, n) # <<>> /\ Get(v, n)[1] # Null /\ ~Zero(Find(M, n).kind, Get(v, n)[1])
Merged(v) ==
  LET rest == SelectSeq(v[2], LAMBDA e : e[1] \notin {"i", "s", "sub"}) IN
  O(rest \o << <<"i", IF Given(v, "i") THEN Get(v, "i")[1] ELSE I("9")>>, <<"s", IF Given(v, "s") THEN Get(v, "s")[1] ELSE S("old")>>,
     <<"sub", IF Get(v, "sub") # <<>> /\ Get(v, "sub")[1] # Null THEN LET s == Get(v, "sub")[1] IN IF Get(s, "n") # <<>> /\ Get(s, "n")[1] # I("0") THEN s ELSE O(SelectSeq(s[2], LAMBDA e : e[1] # "n") \o <<<<"n", I("9")>>>>) ELSE O(<<<<"n", I("9")>>>>)>> >>)
Means(m, v) == SaidMsg(M, IF m = "twice" THEN Merged(v) ELSE v)

\* ---- family "status": answers of an upstream
Https == {200, 204, 404, 500}
Statuses == {"none", "0", "5", "16", "99", "x"}
Notes == {"none", "plain", "enc"}
NoteText(n) == CASE n = "none" -> "" [] n = "plain" -> "why" [] OTHER -> "a b%"
CodeOf(s) == CASE s = "5" -> 5 [] s = "16" -> 16 [] OTHER -> 2
Describe(s) == CASE s = "5" -> "Some requested entity was not found" [] s = "16" -> "The request does not have valid authentication credentials" [] OTHER -> "Unknown error"
Payloads == {"none", "short", "empty", "valid", "cut", "kind"}
Payload(p) == CASE p = "none" -> <<>> [] p = "short" -> <<0, 0, 0, 0>> [] p = "empty" -> Frame(<<>>) [] p = "valid" -> Frame(Tag(1, 0) \o <<5>>) [] p = "cut" -> Frame(Tag(2, 2) \o <<9, 97>>) [] OTHER -> Frame(Tag(1, 2) \o <<1, 97>>)
\* details of a failure: a google.rpc.Status with messages of known or unknown type; nothing is said about what cannot be read
Details == {"none", "known", "several", "unknown", "junk"}
AnyOf(ty, bs) == Tag(3, 2) \o Sized(Tag(1, 2) \o Sized(Bytes("type.googleapis.com/" \o ty)) \o Tag(2, 2) \o Sized(bs))
SubWire(n) == WireMsg(Sub, O(<<<<"n", I(n)>>, <<"t", S("x")>>>>))
Preamble == Tag(1, 0) \o <<5>> \o Tag(2, 2) \o Sized(Bytes("deep"))
DetailBytes(d) == CASE d = "known" -> Preamble \o AnyOf("pkg.Sub", SubWire("300")) [] d = "several" -> Preamble \o AnyOf("pkg.Sub", SubWire("1")) \o AnyOf("pkg.None", <<8, 1>>) \o AnyOf("pkg.Sub", SubWire("2"))
                   [] d = "unknown" -> Preamble \o AnyOf("pkg.None", <<8, 1>>) [] d = "junk" -> <<10, 9, 1>> [] OTHER -> <<>>
SubJson(n) == O(<<<<"n", I(n)>>, <<"t", S("x")>>>>)
DetailJson(d) == LET l == <<"details", A(CASE d = "known" -> <<SubJson("300")>> [] d = "several" -> <<SubJson("1"), SubJson("2")>> [] OTHER -> <<>>)>> IN
                 O(IF d \in {"none", "junk"} THEN <<l>> ELSE <<<<"code", I("5")>>, <<"message", S("deep")>>, l>>)
StatusOut(x) ==
  IF x.http >= 300 THEN [k |-> "error"]
  ELSE IF x.status \notin {"none", "0"} THEN [k |-> "status", code |-> CodeOf(x.status), text |-> Describe(x.status), note |-> IF x.status \in {"x"} THEN "?" ELSE NoteText(x.note), details |-> DetailJson(x.details)]
  ELSE IF x.body \in {"empty", "valid"} THEN [k |-> "data", v |-> SaidMsg(M, IF x.body = "empty" THEN O(<<>>) ELSE O(<<<<"i", I("5")>>>>))]
  ELSE [k |-> "error"]

\* ---- family "calls": where and with which headers a call goes; methods that do not exist are refused
Urls == {"http://up", "http://up/", "http://up//", "http://up:81/p", "http://up/p/q/"}
UrlOf == [u \in Urls |-> CASE u \in {"http://up", "http://up/", "http://up//"} -> "http://up/" [] u = "http://up:81/p" -> "http://up:81/p/" [] OTHER -> "http://up/p/q/"]
Methods == {<<"pkg", "Svc", "Call">>, <<"deep.er", "Svc", "Call">>, <<"deep.er", "Svc", "Other">>, <<"pkg", "Svc", "None">>, <<"pkg", "None", "Call">>, <<"none", "Svc", "Call">>, <<"", "Svc", "Call">>, <<"pkg", "Svc", "call">>}
Exists == {<<"pkg", "Svc", "Call">>, <<"deep.er", "Svc", "Call">>, <<"deep.er", "Svc", "Other">>}
HeaderSets == {<<>>, <<<<"x-a", "1">>>>, <<<<"x-a", "1">>, <<"x-b", "2">>>>}
ClientSets == {<<>>, <<<<"x-c", "3">>>>, <<<<"x-c", "3">>, <<"x-d", "4">>>>}      \* only x-c may pass
Bodies == {"none", "fixed", "parts", "quoted"}
BodyJson(b) == CASE b = "none" -> O(<<>>) [] b = "fixed" -> O(<<<<"i", I("3")>>, <<"sub", O(<<<<"t", S("y")>>>>)>>>>)
                 [] b = "parts" -> O(<<<<"i", I("7")>>, <<"s", S("s-v")>>, <<"ri", A(<<I("7"), I("1")>>)>>, <<"sub", O(<<<<"t", S("v")>>>>)>>>>)
                 [] OTHER -> O(<<<<"s", S("q\"\\")>>, <<"sub", O(<<<<"t", S("a q\"\\ b")>>>>)>>>>)
CallOut(x) == IF x.method \notin Exists THEN [k |-> "refused"]
              ELSE [k |-> "call", url |-> UrlOf[x.url] \o x.method[1] \o "." \o x.method[2] \o "/" \o x.method[3],
                    h |-> {<<"content-type", "application/grpc">>} \cup {x.h[i] : i \in 1..Len(x.h)} \cup {x.client[i] : i \in {j \in 1..Len(x.client) : x.client[j][1] = "x-c"}},
                    body |-> Written(BodyJson(x.body))]

\* ---- family "batch": parents with ids, one call for all of them whose list is distributed by id
\* list of messages: Batch { repeated Item items = 2; string tag = 1 }, Item { int32 id = 1; string v = 2; string sid = 3; int64 lid = 4 }
Keys == {"id", "sid", "lid"}
KeyKind(k) == CASE k = "id" -> "int32" [] k = "sid" -> "string" [] OTHER -> "int64"
Item == << F(1, "id", "int32", "one"), F(2, "v", "string", "one"), F(3, "sid", "string", "one"), F(4, "lid", "int64", "one") >>
Ids == {"1", "2", "300"}
Want(k, id) == IF KeyKind(k) = "string" THEN S(id) ELSE I(id)
WireItem(k, id, v) == Tag(2, 2) \o Sized(WireMsg(Item, O(<<<<k, Want(k, id)>>, <<"v", S(v)>>>>)))
RECURSIVE Firsts(_, _)
\* distinct ids, in order
Firsts(s, seen) == IF s = <<>> THEN <<>> ELSE IF s[1] \in seen THEN Firsts(Tail(s), seen) ELSE <<s[1]>> \o Firsts(Tail(s), seen \cup {s[1]})
Answers == {"all", "reversed", "missing", "twice", "extra", "none", "fails"}
\* items of the answer: ids with their values
Reply(a, ids) ==
  LET one(id) == <<id, "v" \o id>> all == [i \in 1..Len(ids) |-> one(ids[i])] IN
  CASE a = "all" -> all [] a = "reversed" -> Reverse(all) [] a = "missing" -> Tail(all) [] a = "twice" -> all \o [i \in 1..Len(ids) |-> <<ids[i], "w">>]
    [] a = "extra" -> <<<<"9", "v9">>>> \o all [] OTHER -> <<>>
Hit(r, id) == SelectSeq(r, LAMBDA e : e[1] = id)
BatchOut(x) ==
  LET ids == Firsts(x.ids, {}) r == Reply(x.answer, ids) IN
  [ calls |-> {Frame(FlattenSeq([i \in 1..Len(ids) |-> WireItem(x.key, ids[p[i]], "")])) : p \in {q \in [1..Len(ids) -> 1..Len(ids)] : \A i, j \in 1..Len(ids) : i # j => q[i] # q[j]}},
    answer |-> Frame(FlattenSeq([i \in 1..Len(r) |-> WireItem(x.key, r[i][1], r[i][2])])),
    vals |-> [i \in 1..Len(x.ids) |-> IF Hit(r, x.ids[i]) = <<>> THEN Null ELSE S(Hit(r, x.ids[i])[1][2])],
    failed |-> x.answer = "fails" ]
IdLists == {s \in UNION {[1..n -> Ids] : n \in 1..(IF Deep THEN 4 ELSE 3)} : TRUE}

Init == /\ done = FALSE
        /\ \/ Family = "say" /\ c \in {[v |-> v] : v \in Said3 \cup Wrongs}
           \/ Family = "hear" /\ c \in {[form |-> m, v |-> v] : m \in Forms, v \in {w \in Said3 : Ok(w)}}
           \/ Family = "status" /\ c \in {x \in [http : Https, status : Statuses, note : Notes, details : Details, body : Payloads, batch : BOOLEAN] : Deep \/ x.details = "none" \/ (x.status \in {"0", "5"} /\ x.body \in {"none", "valid"})}
           \/ Family = "calls" /\ c \in {x \in [url : Urls, method : Methods, h : HeaderSets, client : ClientSets, body : Bodies, batch : BOOLEAN] : Deep \/ x.h = <<>> \/ x.client = <<>> \/ x.url = "http://up"}
           \/ Family = "batch" /\ c \in [ids : IdLists, key : Keys, answer : Answers]
Out == CASE Family = "say" -> IF Ok(c.v) THEN [k |-> "call", body |-> Written(c.v)] ELSE [k |-> "refused"]
         [] Family = "hear" -> [bytes |-> Frame(Form(c.form, c.v)), v |-> Means(c.form, c.v)]
         [] Family = "status" -> [bytes |-> Payload(c.body), details |-> DetailBytes(c.details), want |-> StatusOut(c)]
         [] Family = "calls" -> CallOut(c)
         [] OTHER -> BatchOut(c)
Next == ~done /\ done' = TRUE /\ c' = c /\ PrintT("@" \o ToJson([fam |-> Family, in |-> c, out |-> Out]))
Spec == Init /\ [][Next]_<<c, done>>

\* ---- laws of the specification
\* every value written can be read again as what it says: here by the size of the frame and the fields it says
FrameSize == done /\ Family = "hear" => LET b == Frame(Form(c.form, c.v)) IN b[4] * 256 + b[5] = Len(b) - 5
\* order, packing and unknown fields do not matter
Robust == done /\ Family = "hear" /\ c.form # "twice" => Means(c.form, c.v) = Means("plain", c.v)
\* nothing is given to a parent but an item with its own id
OwnItem == done /\ Family = "batch" => \A i \in 1..Len(c.ids) : BatchOut(c).vals[i] \in {Null, S("v" \o c.ids[i])}
BytesOnly == done /\ Family = "say" /\ Ok(c.v) => \A i \in 1..Len(Written(c.v)) : Written(c.v)[i] \in 0..255
===============================================================================
