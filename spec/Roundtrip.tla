-------------------------------- MODULE Roundtrip --------------------------------
(* P17, the definitions: writing a configuration as a document and reading it back.
   A configuration knows nothing of the kind of its types; the document has to name one for each type,
   and a kind can carry some things only: a scalar no fields, an input type no arguments and no interfaces,
   the other kinds no default values of fields.
   Settings, directives and types are written one after the other, so what is checked is that each combination of two
   (three) features of a type, field, argument, enumeration or union survives. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Wide
VARIABLES c, done, o
Nm(x, q) == <<"n", x, q>>  Ls(t, q) == <<"l", t, q>>
ST == Nm("String", FALSE)
A(n, t) == [n |-> n, t |-> t, doc |-> <<>>, d |-> <<>>, dirs |-> <<>>]
F(n, t) == [n |-> n, t |-> t, doc |-> <<>>, d |-> <<>>, dirs |-> <<>>, args |-> <<>>]
Ty(n, fs) == [n |-> n, doc |-> <<>>, impl |-> <<>>, dirs |-> <<>>, fs |-> fs]

\* the tested type X is an output type, an interface, an argument's type, an argument's type's field's type, or used by nobody
Roles == {"out", "iface", "in", "deepin", "lone"}
s(x) == <<"s", x>>
Values == <<<<"i", "1">>, <<"i", "-9223372036854775808">>, <<"f", "1.5">>, <<"f", "1e30">>, s("nasty"), s(""), <<"b", "false">>, <<"n">>, <<"a", <<>>>>,
            <<"a", <<s("a"), <<"n">>, <<"a", <<<<"i", "2">>>>>>>>>>, <<"o", << <<"k", <<"o", << <<"l", s("tpl")>> >>>>>> >>>>, <<"e", "A">>, <<"i", "18446744073709551615">>, <<"o", <<>>>>>>
Refs == <<Nm("String", TRUE), Ls(ST, FALSE), Ls(Nm("String", TRUE), FALSE), Ls(ST, TRUE), Ls(Ls(Nm("E", TRUE), FALSE), TRUE), Ls(Ls(Ls(Nm("X", FALSE), TRUE), FALSE), FALSE)>>
Docs == <<"d", "two words", "quo\"te", "lines", "long", "", "indent", "hash">>
\* directives by their text
FieldDirs == <<<<"@cache(maxAge: 5)">>, <<"@expr(body: 1)", "@expr(body: 2)">>, <<"@http(url: \"http://a\")", "@js(name: \"f\")">>, <<"@omit">>, <<"@modify(name: \"y\", omit: true)">>, <<"@protected">>,
               <<"@protected(id: [\"a\"])">>, <<"@js(name: \"f\")", "@grpc(url: \"u\", method: \"a.b\")", "@call(steps: [{query: \"q\"}])">>>>
TypeDirs == <<<<"@cache(maxAge: 5)">>, <<"@protected(id: [\"b\", \"a\"])">>, <<"@addField(name: \"p\", path: [\"a\"])", "@addField(name: \"o\", path: [])">>, <<"@key(fields: \"f\")", "@key(fields: \"g\")">>,
              <<"@expr(body: {f: \"x\"})">>>>
Modifies == <<<<"@modify(name: \"y\")">>, <<"@modify(omit: false)">>>>
\* the features: a name and how many values it has
Slots == <<<<"ref", Len(Refs)>>, <<"doc", Len(Docs)>>, <<"dirs", Len(FieldDirs)>>, <<"d", Len(Values)>>, <<"indirs", Len(Modifies)>>, <<"args", 2>>, <<"argref", Len(Refs)>>, <<"argdoc", Len(Docs)>>, <<"argd", Len(Values)>>,
           <<"argmod", Len(Modifies)>>, <<"tdoc", Len(Docs)>>, <<"tdirs", Len(TypeDirs)>>, <<"impl", 2>>, <<"edoc", Len(Docs)>>, <<"vars", 2>>, <<"udoc", Len(Docs)>>, <<"members", 2>>,
           <<"roots", 4>>, <<"scalar", 1>>, <<"many", 2>>, <<"prot", 2>>>>
NS == Len(Slots)
SlotNo(n) == CHOOSE k \in 1..NS : Slots[k][1] = n
\* what a kind of use admits
InRoles == {"in", "deepin", "lone"}
Fits(r, n) == CASE n \in {"d", "indirs", "prot"} -> r \in {"in", "deepin"} \/ (r = "lone" /\ n = "d")
                [] n \in {"dirs", "args", "argref", "argdoc", "argd", "argmod", "tdirs", "impl"} -> r \in {"out", "iface"}
                [] OTHER -> TRUE
V(n) == LET k == SlotNo(n) IN IF k \in DOMAIN c.v THEN c.v[k] ELSE 0
Has(n) == V(n) # 0
Opt(n, vals) == IF Has(n) THEN <<vals[V(n)]>> ELSE <<>>

TheArg == [A("x", IF Has("argref") THEN Refs[V("argref")] ELSE ST) EXCEPT !.doc = Opt("argdoc", Docs), !.d = Opt("argd", Values), !.dirs = IF Has("argmod") THEN Modifies[V("argmod")] ELSE <<>>]
Args == IF Has("args") THEN (IF V("args") = 1 THEN <<TheArg>> ELSE <<A("z", Nm("ID", TRUE)), TheArg, A("a", ST)>>)
        ELSE IF Has("argref") \/ Has("argdoc") \/ Has("argd") \/ Has("argmod") THEN <<TheArg>> ELSE <<>>
TheField == [F("f", IF Has("ref") THEN Refs[V("ref")] ELSE ST) EXCEPT !.doc = Opt("doc", Docs), !.d = Opt("d", Values), !.args = Args,
             !.dirs = (IF Has("dirs") THEN FieldDirs[V("dirs")] ELSE <<>>) \o (IF Has("indirs") THEN Modifies[V("indirs")] ELSE <<>>)]
X == [Ty("X", <<TheField>> \o (IF Has("many") THEN (IF V("many") = 1 THEN <<F("g", Nm("Int", TRUE))>> ELSE <<F("a", ST), F("__b", Ls(ST, FALSE))>>) ELSE <<>>))
      EXCEPT !.doc = Opt("tdoc", Docs), !.impl = IF Has("impl") THEN (IF V("impl") = 1 THEN <<"I1">> ELSE <<"I1", "I2">>) ELSE <<>>,
             !.dirs = (IF Has("tdirs") THEN TypeDirs[V("tdirs")] ELSE <<>>) \o (IF Has("prot") THEN <<IF V("prot") = 1 THEN "@protected" ELSE "@protected(id: [\"c\"])">> ELSE <<>>)]
Arg1(t) == <<A("i", t)>>
Query == Ty("Query", <<F("q", ST)>> \o CASE c.r = "out" -> <<F("o", Nm("X", FALSE))>> [] c.r = "iface" -> <<F("o", Nm("Im", FALSE))>>
                        [] c.r = "in" -> <<[F("o", ST) EXCEPT !.args = Arg1(Ls(Nm("X", TRUE), FALSE))]>> [] c.r = "deepin" -> <<[F("o", ST) EXCEPT !.args = Arg1(Nm("Mid", FALSE))]>> [] OTHER -> <<>>)
Types == <<Query, X>> \o (CASE c.r = "deepin" -> <<Ty("Mid", <<F("m", Ls(Nm("X", FALSE), FALSE))>>)>> [] c.r = "iface" -> <<[Ty("Im", <<TheField>>) EXCEPT !.impl = <<"X">>]>> [] OTHER -> <<>>)
         \o (IF Has("impl") THEN <<Ty("I1", <<F("f", ST)>>), Ty("I2", <<F("f", ST)>>), [Ty("Im2", <<F("f", ST)>>) EXCEPT !.impl = <<"I2">>]>> ELSE <<>>)
         \o (IF Has("roots") THEN (CASE V("roots") = 1 -> <<Ty("Mut", <<F("m", ST)>>)>> [] V("roots") = 2 -> <<Ty("Sub", <<F("m", ST)>>)>> [] V("roots") = 3 -> <<Ty("Mut", <<F("m", ST)>>), Ty("Sub", <<F("m", ST)>>)>> [] OTHER -> <<>>) ELSE <<>>)
         \o (IF Has("scalar") THEN <<Ty("Sc", <<>>)>> ELSE <<>>)
Config == [roots |-> IF ~Has("roots") THEN <<"Query", "", "">> ELSE CASE V("roots") = 1 -> <<"Query", "Mut", "">> [] V("roots") = 2 -> <<"Query", "", "Sub">> [] V("roots") = 3 -> <<"Query", "Mut", "Sub">> [] OTHER -> <<"", "", "">>,
           ts |-> Types,
           es |-> <<[n |-> "E", doc |-> Opt("edoc", Docs), vs |-> IF ~Has("vars") THEN << <<"A", <<>>>> >> ELSE IF V("vars") = 1 THEN << <<"A", <<>>>>, <<"B", <<"b", "nasty">>>> >> ELSE << <<"A", <<"x">>>>, <<"a", <<"tpl">>>>, <<"_", <<>>>> >>]>>,
           us |-> IF Has("udoc") \/ Has("members") THEN <<[n |-> "U", doc |-> Opt("udoc", Docs), m |-> IF V("members") = 2 THEN <<"Query", "X">> ELSE <<"X">>]>> ELSE <<>>]

\* ---- writing: the kind of each type
Base(t) == LET RECURSIVE B(_)
               B(x) == IF x[1] = "n" THEN x[2] ELSE B(x[2])
           IN B(t)
TypeOf(cfg, n) == LET k == {k \in DOMAIN cfg.ts : cfg.ts[k].n = n} IN IF k = {} THEN <<>> ELSE <<cfg.ts[CHOOSE x \in k : TRUE]>>
RECURSIVE Close(_, _)
Close(cfg, ns) == LET more == ns \cup UNION {{Base(t.fs[k].t) : k \in DOMAIN t.fs} : t \in {t \in ToSet(cfg.ts) : t.n \in ns}} IN IF more = ns THEN ns ELSE Close(cfg, more)
ArgTypes(cfg) == UNION {UNION {{Base(t.fs[k].args[j].t) : j \in DOMAIN t.fs[k].args} : k \in DOMAIN t.fs} : t \in ToSet(cfg.ts)}
Kind(cfg, t, ins) == IF t.fs = <<>> THEN "scalar"
                     ELSE IF \E u \in ToSet(cfg.ts) : t.n \in ToSet(u.impl) THEN "interface"
                     ELSE IF t.n \in ins \/ \E k \in DOMAIN t.fs : t.fs[k].d # <<>> THEN "input"
                     ELSE "type"
Write(cfg) == LET ins == Close(cfg, ArgTypes(cfg)) IN [cfg EXCEPT !.ts = [k \in DOMAIN cfg.ts |-> [kind |-> Kind(cfg, cfg.ts[k], ins), t |-> cfg.ts[k]]]]
\* ---- reading: what a kind does not carry is not there
Carry(kind, t) == CASE kind = "scalar" -> [t EXCEPT !.fs = <<>>]
                    [] kind = "input" -> [t EXCEPT !.impl = <<>>, !.fs = [k \in DOMAIN t.fs |-> [t.fs[k] EXCEPT !.args = <<>>]]]
                    [] OTHER -> [t EXCEPT !.fs = [k \in DOMAIN t.fs |-> [t.fs[k] EXCEPT !.d = <<>>]]]
Read(doc) == [doc EXCEPT !.ts = [k \in DOMAIN doc.ts |-> Carry(doc.ts[k].kind, doc.ts[k].t)]]

\* a type of the configuration that is an argument's type and holds what only output types hold cannot be written: not among the inputs
Sane == ~(c.r = "out" /\ V("argref") = Len(Refs)) /\ ~(c.r = "iface" /\ V("argref") = Len(Refs))
Init == done = 0 /\ o = <<>>
        /\ \E r \in Roles : \E S \in UNION {kSubset(n, {k \in 1..NS : Fits(r, Slots[k][1])}) : n \in 0..Wide} :
             \E v \in [S -> 1..14] : (\A k \in S : v[k] <= Slots[k][2]) /\ c = [r |-> r, v |-> v] /\ Sane
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ LET w == Write(Config)
           IN /\ o' = <<Config, w>>
              /\ PrintT("@" \o ToJson([cfg |-> Config, kinds |-> [k \in DOMAIN w.ts |-> <<w.ts[k].t.n, w.ts[k].kind>>]]))
Spec == Init /\ [][Next]_<<c, done, o>>
RoundTrip == done = 1 => Read(o[2]) = o[1]
Stable == done = 1 => Write(Read(o[2])) = o[2]
=============================================================================
