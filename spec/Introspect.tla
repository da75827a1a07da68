------------------------------ MODULE Introspect -------------------------------
(* P37: introspection describes exactly the contract that is served. TyA configuration is a sequence of types; Describe gives what a client is told about
   each type that can be reached, under the names it is served with. Asked: ways of asking, alone or together with data. *)
EXTENDS JsonVal, Json, TLC
CONSTANTS Family, Deep
VARIABLES c, done

Nm(x, q) == <<"n", x, q>>  Ls(t, q) == <<"l", t, q>>
RECURSIVE Base(_)
Base(t) == IF t[1] = "l" THEN Base(t[2]) ELSE t[2]
Opt(x) == Nm(x, FALSE)
\* an argument or input field; def: <<>> or << value >>
Arg(n, t) == [n |-> n, t |-> t, d |-> "", def |-> <<>>]
Dflt(n, t, v) == [Arg(n, t) EXCEPT !.def = <<v>>]
\* a field; as: the name it is served with, omit: not served
Fd(n, t) == [n |-> n, t |-> t, d |-> "", args |-> <<>>, as |-> n, omit |-> FALSE]
With(n, t, args) == [Fd(n, t) EXCEPT !.args = args]
Ty(n, kind) == [n |-> n, kind |-> kind, d |-> "", fs |-> <<>>, ins |-> <<>>, impl |-> {}, of |-> {}, vals |-> <<>>, add |-> <<>>]
Obj(n, fs) == [Ty(n, "OBJECT") EXCEPT !.fs = fs]
Inp(n, ins) == [Ty(n, "INPUT_OBJECT") EXCEPT !.ins = ins]
Iface(n, fs) == [Ty(n, "INTERFACE") EXCEPT !.fs = fs]
Uni(n, of) == [Ty(n, "UNION") EXCEPT !.of = of]
Enm(n, vals) == [Ty(n, "ENUM") EXCEPT !.vals = vals]
Scal(n) == Ty(n, "SCALAR")
Builtin == {"Int", "String", "Boolean", "Float", "ID"}
Given == {"Email", "Int8", "JSON", "Date"}

\* ---- what is described
T(x, n) == x[CHOOSE k \in DOMAIN x : x[k].n = n]
Names(x) == {x[k].n : k \in DOMAIN x}
Kind(x, n) == IF n \in Names(x) THEN T(x, n).kind ELSE "SCALAR"
RECURSIVE Chain(_, _)
Chain(x, t) == LET inner == IF t[1] = "l" THEN <<"LIST", Chain(x, t[2])>> ELSE <<Kind(x, t[2]), t[2]>> IN IF t[3] THEN <<"NON_NULL", inner>> ELSE inner
RECURSIVE EscIn(_)
EscIn(u) == IF u = "" THEN "" ELSE (IF SubSeq(u, 1, 1) \in {"\"", "\\"} THEN "\\" ELSE "") \o SubSeq(u, 1, 1) \o EscIn(SubSeq(u, 2, Len(u)))
Esc(u) == "\"" \o EscIn(u) \o "\""
RECURSIVE Sep(_)
Sep(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Sep(Tail(ss))
\* a literal of a type: values of enumerations stand without quotes
RECURSIVE Lit(_, _, _)
Lit(x, t, v) ==
  CASE v = Null -> "null"
    [] t[1] = "l" -> IF v[1] = "a" THEN "[" \o Sep([k \in DOMAIN v[2] |-> Lit(x, t[2], v[2][k])]) \o "]" ELSE Lit(x, t[2], v)
    [] v[1] = "s" -> IF Kind(x, t[2]) = "ENUM" THEN v[2] ELSE Esc(v[2])
    [] v[1] = "o" -> LET ft(n) == IF Kind(x, t[2]) = "INPUT_OBJECT" /\ \E k \in DOMAIN T(x, t[2]).ins : T(x, t[2]).ins[k].n = n
                                  THEN (T(x, t[2]).ins[CHOOSE k \in DOMAIN T(x, t[2]).ins : T(x, t[2]).ins[k].n = n]).t ELSE Opt("JSON")
                     IN "{" \o Sep([k \in DOMAIN v[2] |-> v[2][k][1] \o ": " \o Lit(x, ft(v[2][k][1]), v[2][k][2])]) \o "}"
    [] v[1] = "a" -> "[" \o Sep([k \in DOMAIN v[2] |-> Lit(x, t, v[2][k])]) \o "]"
    [] OTHER -> v[2]
Input(x, a) == [n |-> a.n, t |-> Chain(x, a.t), d |-> a.d, def |-> IF a.def = <<>> THEN <<>> ELSE <<Lit(x, a.t, a.def[1])>>]
\* what is found along a path may be missing at every step; lists that are not indexed are kept around
Bare(t) == [t EXCEPT ![3] = FALSE]
RECURSIVE Around(_, _)
Around(t, k) == IF k = 0 THEN t ELSE Around(Ls(t, FALSE), k - 1)
RECURSIVE Along(_, _, _, _)
Along(x, t, path, k) == IF path = <<>> THEN Around(Bare(t), k)
                        ELSE IF t[1] = "l" THEN (IF path[1] = "0" THEN Along(x, t[2], Tail(path), k) ELSE Along(x, t[2], path, k + 1))
                        ELSE Along(x, (T(x, t[2]).fs[CHOOSE j \in DOMAIN T(x, t[2]).fs : T(x, t[2]).fs[j].n = path[1]]).t, Tail(path), k)
FieldOf(x, f) == [n |-> f.as, t |-> Chain(x, f.t), d |-> f.d, args |-> {Input(x, f.args[k]) : k \in DOMAIN f.args}]
Served(t) == {t.fs[k] : k \in {j \in DOMAIN t.fs : ~t.fs[j].omit}}
\* members of unions, of unions within them
RECURSIVE Members(_, _, _)
Members(x, n, seen) == IF Kind(x, n) # "UNION" THEN {n} ELSE UNION {Members(x, m, seen \cup {n}) : m \in T(x, n).of \ (seen \cup {n})}
Implementors(x, n) == {x[k].n : k \in {j \in DOMAIN x : n \in x[j].impl /\ x[j].kind = "OBJECT"}}
One(x, t) == [n |-> t.n, kind |-> t.kind, d |-> t.d, fields |-> {FieldOf(x, f) : f \in Served(t)} \cup {[n |-> a[1], t |-> Chain(x, Along(x, Opt(t.n), a[2], 0)), d |-> "", args |-> {}] : a \in Range(t.add)},
              ins |-> {Input(x, t.ins[k]) : k \in DOMAIN t.ins}, impl |-> IF t.kind = "OBJECT" THEN t.impl ELSE {},
              of |-> IF t.kind = "UNION" THEN Members(x, t.n, {}) ELSE IF t.kind = "INTERFACE" THEN Implementors(x, t.n) ELSE {}, vals |-> Range(t.vals)]
\* what can be reached from the roots
Step(x, n) == IF n \notin Names(x) THEN {} ELSE LET t == T(x, n) IN
              {Base(f.t) : f \in Served(t)} \cup UNION {{Base(f.args[k].t) : k \in DOMAIN f.args} : f \in Served(t)} \cup {Base(t.ins[k].t) : k \in DOMAIN t.ins}
              \cup t.impl \cup (IF t.kind = "UNION" THEN Members(x, n, {}) ELSE {}) \cup Implementors(x, n)
RECURSIVE Reach(_, _)
Reach(x, s) == LET m == s \cup UNION {Step(x, n) : n \in s} IN IF m = s THEN s ELSE Reach(x, m)
Roots(x) == {"Query"} \cup ({"M"} \cap Names(x))
Describe(x) == {One(x, T(x, n)) : n \in Reach(x, Roots(x)) \cap Names(x)}
              \cup {[One(x, Scal(n)) EXCEPT !.d = ""] : n \in Reach(x, Roots(x)) \cap Given}

\* ---- configurations
TyA == [Obj("A", <<With("a", Opt("Int"), <<Arg("x", Opt("Int"))>>), Fd("n", Opt("A"))>>) EXCEPT !.impl = {"I"}]
TyB == Obj("B", <<Fd("b", Nm("Int", TRUE))>>)
TyI == Iface("I", <<With("a", Opt("Int"), <<Arg("x", Opt("Int"))>>)>>)
TyU == Uni("U", {"A", "B"})
TyE == Enm("E", <<"K", "L">>)
TyIn == Inp("In", <<Arg("a", Opt("Int")), Arg("e", Opt("E")), Arg("l", Ls(Opt("E"), FALSE))>>)
FdC == Fd("c", Opt("String"))
Tsc == [Scal("Sc") EXCEPT !.d = "own"]
Rest == <<TyB, TyU, TyE, TyIn, Tsc>>
Std == <<TyA, TyB, TyI, TyU, TyE, TyIn, Tsc>>
Q(fs) == Obj("Query", <<FdC>> \o fs)
RefsOf(b) == LET n == {Nm(b, q) : q \in BOOLEAN}
                 l == {Ls(t, q) : t \in n, q \in BOOLEAN}
                 m == {Ls(t, q) : t \in l, q \in BOOLEAN}
             IN n \cup l \cup IF Deep THEN m ELSE {t \in m : t[3] = t[2][2][3]}
Outs == {"Sc", "Int", "ID", "A", "I", "U", "E", "Email", "JSON"}
Ins == {"Sc", "Int", "String", "In", "E", "Int8", "Date", "Boolean"}
RefCfgs == UNION {{<<Q(<<Fd("f", t)>>)>> \o Std} \cup {<<Q(<<Fd("f", Opt("I"))>>), I2, [TyA EXCEPT !.fs = @ \o <<Fd("k", t)>>]>> \o Rest : I2 \in {[TyI EXCEPT !.fs = @ \o <<Fd("k", t)>>]}} : t \in UNION {RefsOf(b) : b \in Outs}}
           \cup UNION {{<<Q(<<With("f", Opt("Int"), <<Arg("x", t), Arg("y", Opt("Int"))>>)>>)>> \o Std, <<Q(<<With("f", Opt("Int"), <<Arg("x", Opt("In2"))>>)>>), Inp("In2", <<Arg("z", t)>>)>> \o Std,
                        <<Q(<<Fd("f", Opt("I"))>>), [TyI EXCEPT !.fs = @ \o <<With("k", Opt("Int"), <<Arg("x", t)>>)>>], [TyA EXCEPT !.fs = @ \o <<With("k", Opt("Int"), <<Arg("x", t)>>)>>], TyB, TyU, TyE, TyIn, Tsc>>,
                        <<Q(<<Fd("f", Opt("A"))>>), Obj("M", <<With("go", Opt("Int"), <<Arg("x", t)>>)>>)>> \o Std} : t \in UNION {RefsOf(b) : b \in Ins}}
\* default values
VS(x) == <<"s", x>>  VI(x) == <<"i", x>>  VA(xs) == <<"a", xs>>  VO(x) == <<"o", x>>
ValuesOf(b) == CASE b = "Int" -> {VI("0"), VI("-7")} [] b = "String" -> {VS(""), VS("K"), VS("a\"b\\c"), VS("null")} [] b = "E" -> {VS("K"), VS("L")} [] b = "Boolean" -> {<<"b", "false">>} [] b = "Email" -> {VS("a@b.co")}
                 [] OTHER -> {VO(<< <<"a", VI("1")>> >>), VO(<< <<"e", VS("L")>> >>), VO(<< <<"a", VI("2")>>, <<"e", VS("K")>>, <<"l", VA(<<VS("K"), VS("L")>>)>> >>)}
RECURSIVE Dfl(_)
Dfl(t) == IF t[1] = "l" THEN LET v == Dfl(t[2]) IN {VA(<<>>)} \cup {VA(<<x>>) : x \in v} \cup (IF t[2][1] = "n" THEN {VA(<<x, y>>) : x \in v, y \in v} ELSE {}) ELSE ValuesOf(t[2])
DefBases == {"Int", "String", "E", "Boolean", "Email", "In"}
Place(t, v) == {<<Q(<<With("f", Opt("JSON"), <<Dflt("x", t, v)>>)>>)>> \o Std, <<Q(<<With("f", Opt("JSON"), <<Arg("x", Opt("In2"))>>)>>), Inp("In2", <<Dflt("z", t, v)>>)>> \o Std}
                \cup (IF t[1] = "n" THEN {<<Q(<<With("f", Opt("JSON"), <<Arg("w", Opt("Int")), Dflt("x", t, v)>>), Fd("g", Opt("I"))>>), [TyI EXCEPT !.fs = <<With("a", Opt("Int"), <<Dflt("x", t, v)>>)>>], [TyA EXCEPT !.fs = <<With("a", Opt("Int"), <<Dflt("x", t, v)>>)>>], TyB, TyU, TyE, TyIn, Tsc>>} ELSE {})
DefCfgs == UNION {UNION {Place(t, v) : v \in Dfl(t)} : t \in UNION {{r \in RefsOf(b) : Deep \/ r[1] = "n" \/ r[2][1] = "n" \/ (r[3] /\ r[2][3])} : b \in DefBases}}
\* descriptions, names, what is left out, what is added, who implements what
Doc(x) == [x EXCEPT !.d = "says \"" \o x.n \o "\""]
Docs == {<<>>} \cup {<<k>> : k \in {"A", "I", "U", "E", "In", "Query", "field", "arg", "input", "ifield", "iarg"}}
Said(k, x) == IF k \in Range(c.docs) THEN Doc(x) ELSE x
PartCfg == LET f == With("f", Opt("I"), <<Said("arg", Arg("x", Opt("In")))>>)
               g == [Fd("g", Opt("U")) EXCEPT !.as = c.as, !.omit = c.omit]
           IN <<Said("Query", Obj("Query", <<FdC, Said("field", f), g>> \o IF c.more # <<>> THEN <<Fd("p", Opt("P"))>> ELSE <<>>)),
                Said("A", [TyA EXCEPT !.impl = c.impl]), [TyB EXCEPT !.impl = IF c.both THEN {"J"} ELSE {}, !.fs = IF c.both THEN @ \o <<Fd("j", Opt("Int"))>> ELSE @],
                Said("I", [TyI EXCEPT !.fs = <<Said("ifield", With("a", Opt("Int"), <<Said("iarg", Arg("x", Opt("Int")))>>))>>]), Iface("J", <<Fd("j", Opt("Int"))>>),
                Said("U", [TyU EXCEPT !.of = c.of]), Uni("V", {"B"}), Said("E", TyE), Said("In", [TyIn EXCEPT !.ins = <<Said("input", Arg("a", Opt("Int"))), Arg("e", Opt("E"))>>]),
                Obj("W", <<Fd("b", Nm("Int", TRUE)), Fd("l", Ls(Nm("Int", TRUE), TRUE))>>),
                IF c.more = <<>> THEN Obj("P", <<FdC>>) ELSE [Obj("P", <<Fd("o", c.more[1])>>) EXCEPT !.add = << <<"deep", c.more[2]>> >>]>>
              \o IF c.mut THEN <<Obj("M", <<With("go", Opt("E"), <<Arg("x", Opt("In"))>>)>>)>> ELSE <<>>
Mores == {<<>>} \cup {<<t, <<"o">> \o p>> : t \in {Opt("W"), Nm("W", TRUE)}, p \in {<<"b">>, <<"l">>, <<"l", "0">>}}
         \cup {<<t, <<"o">> \o p>> : t \in {Ls(Opt("W"), FALSE), Ls(Nm("W", TRUE), TRUE)}, p \in {<<"b">>, <<"l">>, <<"0">>, <<"0", "b">>, <<"0", "l">>, <<"l", "0">>}}
         \cup {<<Ls(Ls(Nm("W", TRUE), TRUE), TRUE), <<"o">> \o p>> : p \in {<<"b">>, <<"0">>, <<"0", "l">>, <<"0", "0", "b">>, <<"0", "l", "0">>}}
PartAll == [docs : Docs, as : {"g", "renamed"}, omit : BOOLEAN, more : Mores, impl : {{"I"}}, both : BOOLEAN, of : {{"A"}, {"A", "B"}, {"A", "V"}}, mut : BOOLEAN]
PartIns == {x \in PartAll : Deep \/ x.more = <<>> \/ (x.docs = <<>> /\ ~x.omit /\ x.as = "g")}
\* ---- ways of asking: one or two fields, each held by the operation itself or by a fragment, under a directive of its own or of the fragment, under its name or an alias
Whats == {"c", "f", "schema", "type", "nope", "var", "typename"}
Told == {"schema", "type", "nope", "var"}
Holds == {"plain", "inline", "bare", "spread", "nested"}
Dirs == {"", "skip", "include", "skip if", "skip unless"}
Item == [what : Whats, hold : Holds, dir : Dirs, outer : BOOLEAN, alias : BOOLEAN]
Odd(x) == (IF x.hold = "plain" THEN 0 ELSE 1) + (IF x.dir = "" THEN 0 ELSE 1) + (IF x.outer THEN 1 ELSE 0) + (IF x.alias THEN 1 ELSE 0)
Items == {x \in Item : x.outer => x.hold # "plain" /\ x.dir # ""}
Oddity == IF Deep THEN 2 ELSE 1
Name(w) == CASE w \in {"c", "f"} -> w [] w = "schema" -> "__schema" [] w = "typename" -> "__typename" [] OTHER -> "__type"
Key(xs, k) == IF xs[k].alias THEN "k" \o ToString(k) ELSE Name(xs[k].what)
AskIns == {[xs |-> xs, on |-> on] : on \in BOOLEAN,
             xs \in {<<x>> : x \in {y \in Items : Odd(y) <= Oddity + 1}} \cup {p \in {y \in Items : Odd(y) <= Oddity} \X {y \in Items : Odd(y) <= Oddity} :
                       /\ Odd(p[1]) + Odd(p[2]) <= Oddity /\ (Key(p, 1) = Key(p, 2) => p[1].what = p[2].what)}}
AskCfg == <<Q(<<Fd("f", Opt("A"))>>)>> \o Std
AnswerOf(w) == CASE w = "c" -> <<"s", "x">> [] w = "f" -> <<"o", << <<"a", <<"i", "1">> >> >> >> [] w = "schema" -> <<"o", << <<"queryType", <<"o", << <<"name", <<"s", "Query">> >> >> >> >> >> >>
                 [] w \in {"type", "var"} -> <<"o", << <<"kind", <<"s", "OBJECT">> >>, <<"name", <<"s", "A">> >> >> >> [] w = "nope" -> Null [] OTHER -> <<"s", "Query">>
Asked(xs) == {k \in DOMAIN xs : xs[k].dir \notin {"skip", "skip if"}}
Answered == {<<Key(c.xs, k), AnswerOf(c.xs[k].what)>> : k \in {j \in Asked(c.xs) : c.on \/ c.xs[j].what \notin Told}}
Inputs == CASE Family = "refs" -> [x : RefCfgs] [] Family = "defaults" -> [x : DefCfgs] [] Family = "parts" -> PartIns [] OTHER -> AskIns
Cfg == CASE Family \in {"refs", "defaults"} -> c.x [] Family = "parts" -> PartCfg [] OTHER -> AskCfg
\* asking a field that repeats its arguments without any and with its described default gives the same
Echo == IF Family # "defaults" THEN <<>>
        ELSE LET f == T(Cfg, "Query").fs[2]  a == f.args[Len(f.args)] IN
             IF a.def = <<>> THEN <<>> ELSE <<[n |-> a.n, lit |-> Lit(Cfg, a.t, a.def[1]), v |-> a.def[1]]>>
Init == c \in Inputs /\ done = FALSE
Seqs(x) == SetToSeq(x)
OutF(f) == [f EXCEPT !.args = Seqs(@)]
OutT(t) == [t EXCEPT !.fields = Seqs({OutF(f) : f \in @}), !.ins = Seqs(@), !.impl = Seqs(@), !.of = Seqs(@), !.vals = Seqs(@)]
Show(t) == [t EXCEPT !.impl = Seqs(@), !.of = Seqs(@)]
Next == ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([cfg |-> [k \in DOMAIN Cfg |-> Show(Cfg[k])], ask |-> IF Family = "asked" THEN <<[xs |-> [k \in DOMAIN c.xs |-> [what |-> c.xs[k].what, hold |-> c.xs[k].hold, dir |-> c.xs[k].dir, outer |-> c.xs[k].outer, as |-> Key(c.xs, k)]], on |-> c.on, answer |-> SetToSeq(Answered)]>> ELSE <<>>, out |-> Seqs({OutT(t) : t \in Describe(Cfg)}), echo |-> Echo,
                                 roots |-> Seqs(Roots(Cfg))]))
Spec == Init /\ [][Next]_<<c, done>>
\* ---- laws: the description is closed, members and implementors agree, nothing that is left out is told
Desc == Describe(Cfg)
RECURSIVE Innermost(_)
Innermost(t) == IF t[1] \in {"LIST", "NON_NULL"} THEN Innermost(t[2]) ELSE t[2]
Closed == done => \A t \in Desc : \A f \in t.fields \cup t.ins : Innermost(f.t) \in {u.n : u \in Desc} \cup Builtin
Agree == done => \A t \in Desc : (\A u \in t.impl : \E v \in Desc : v.n = u /\ v.kind = "INTERFACE" /\ t.n \in v.of) /\ (t.kind \in {"INTERFACE", "UNION"} => \A u \in t.of : \E v \in Desc : v.n = u /\ v.kind = "OBJECT")
Unsaid == done => \A t \in Desc : \A f \in t.fields : Family = "parts" => (f.n = "g" => c.as = "g" /\ ~c.omit)
\* without introspection, data is answered as with it and nothing of the contract is told
Hidden == done /\ Family = "asked" => ((c.on \/ \A a \in Answered : a[1] \notin {"__schema", "__type"}) /\ \A k \in Asked(c.xs) : c.xs[k].what \notin Told => \E a \in Answered : a[1] = Key(c.xs, k))
================================================================================
