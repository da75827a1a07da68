-------------------------------- MODULE Subgraph --------------------------------
(* P16: combining subgraphs. A subgraph: how it uses type T and enum E, and their definitions.
   A type reference: <<"n", name, nonnull>> or <<"l", reference, nonnull>>; fields and arguments as
   sequences of [n, t, d, a]: name, type, default (<<>> or <<text>>) and arguments. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Family
VARIABLES c, done, o    \* o: what the subgraphs combine to
Nm(x, b) == <<"n", x, b>>  Ls(t, b) == <<"l", t, b>>
INT == Nm("Int", FALSE)  INTR == Nm("Int", TRUE)
F(n, t, d, a) == [n |-> n, t |-> t, d |-> d, a |-> a]

\* ---- merging: a result is [ok, v, e]: value if ok, errors as trails
Ok(v) == [ok |-> TRUE, v |-> v, e |-> <<>>]
Bad(e) == [ok |-> FALSE, v |-> <<>>, e |-> e]
Trace(n, r) == [r EXCEPT !.e = [i \in 1..Len(r.e) |-> <<n>> \o r.e[i]]]
Both(a, b, v) == IF a.ok /\ b.ok THEN Ok(v) ELSE Bad(a.e \o b.e)
MergeNull(pos, a, b) == IF pos = "in" THEN a \/ b ELSE a /\ b
RECURSIVE MergeRef(_, _, _)
MergeRef(pos, s, t) == IF s[1] # t[1] THEN Bad(<< <<>> >>)
                       ELSE IF s[1] = "n" THEN (IF s[2] # t[2] THEN Bad(<< <<>> >>) ELSE Ok(Nm(s[2], MergeNull(pos, s[3], t[3]))))
                       ELSE LET r == MergeRef(pos, s[2], t[2]) IN IF r.ok THEN Ok(Ls(r.v, MergeNull(pos, s[3], t[3]))) ELSE r
Has(fs, n) == \E i \in DOMAIN fs : fs[i].n = n
Get(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].n = n]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Collect(rs0) == LET rs == TLCEval(rs0) IN IF \A i \in DOMAIN rs : rs[i].ok THEN Ok(Concat([i \in DOMAIN rs |-> rs[i].v])) ELSE Bad(Concat([i \in DOMAIN rs |-> rs[i].e]))
RECURSIVE Shrink(_, _), MergeField(_, _, _)
\* input members: what both know; one that is required on one side must be known to the other
Shrink(l, r) == LET rs == [i \in DOMAIN r |-> Trace(r[i].n, IF Has(l, r[i].n) THEN MergeField("in", Get(l, r[i].n), r[i])
                                                            ELSE IF r[i].t[3] THEN Bad(<< <<>> >>) ELSE Ok(<<>>))]
                    ls == [i \in DOMAIN l |-> IF Has(r, l[i].n) \/ ~l[i].t[3] THEN Ok(<<>>) ELSE Bad(<< <<l[i].n>> >>)]
                IN Collect(rs \o ls)
MergeField(pos, l, r) == LET t == MergeRef(pos, l.t, r.t)
                             a == Shrink(l.a, r.a)
                         IN Both(t, a, <<F(l.n, t.v, IF l.d # <<>> THEN l.d ELSE r.d, a.v)>>)
Expand(l, r) == Collect([i \in DOMAIN r |-> IF Has(l, r[i].n) THEN Trace(r[i].n, MergeField("out", Get(l, r[i].n), r[i])) ELSE Ok(<<r[i]>>)]
                        \o [i \in DOMAIN l |-> IF Has(r, l[i].n) THEN Ok(<<>>) ELSE Ok(<<l[i]>>)])

\* ---- usage
Uses(u) == CASE u = "none" -> {} [] u = "in" -> {"in"} [] u \in {"out", "iface", "member"} -> {"out"} [] u = "impl" -> {"out"} [] OTHER -> {"in", "out"}
(* what positions a type is merged in, given how both sides use it: a position, "bad", or "unknown" *)
Position(a, b) == IF Cardinality(a) = 2 \/ Cardinality(b) = 2 THEN "both"
                  ELSE IF a = {} /\ b = {} THEN "unknown"
                  ELSE IF Cardinality(a \cup b) = 2 THEN "mixed" ELSE CHOOSE x \in a \cup b : TRUE
Wrap(r) == IF r.ok THEN Ok(<<r.v>>) ELSE r
MergeType(ua, l, ub, r) == LET p == Position(ua, ub) IN
                           CASE p = "in" -> Trace("T", Shrink(l, r)) [] p = "out" -> Trace("T", Expand(l, r)) [] OTHER -> Bad(<< <<"T">> >>)
MergeEnum(ua, l, ub, r) == LET p == Position(ua, ub) IN
                           CASE p = "in" -> Ok(SelectSeq(l, LAMBDA x : x \in ToSet(r)))
                             [] p = "out" -> Ok(l \o SelectSeq(r, LAMBDA x : x \notin ToSet(l)))
                             [] p = "both" -> IF ToSet(l) = ToSet(r) THEN Ok(l) ELSE Bad(<< <<"E">> >>)
                             [] OTHER -> Bad(<< <<"E">> >>)

\* ---- a subgraph: [u, fs, eu, vs]; fs (vs) empty: it does not define T (E)
RECURSIVE Refs(_)
Refs(k) == IF k = 0 THEN {Nm(x, b) : x \in {"Int", "String"}, b \in BOOLEAN} ELSE Refs(k - 1) \cup {Ls(t, b) : t \in Refs(k - 1), b \in BOOLEAN}
Id == F("id", Nm("ID", FALSE), <<>>, <<>>)
Opt(n, ts) == {<<>>} \cup {<<F(n, t, <<>>, <<>>)>> : t \in ts}
Def(n, ts, ds) == Opt(n, ts) \cup {<<F(n, INT, <<d>>, <<>>)>> : d \in ds}
G(u, fs, eu, vs) == [u |-> u, fs |-> fs, eu |-> eu, vs |-> vs]
NoE(u, fs) == G(u, fs, "none", <<>>)
Usages == {"none", "in", "out", "iface", "impl", "member", "both"}
\* usage against presence and nullability; a subgraph may also not define T
UseSet == {NoE("none", <<>>)} \cup {NoE(u, << <<Id>> \o f \o g>>) : u \in Usages, f \in Opt("f", {INT, INTR}), g \in Opt("g", {INTR})}
\* nesting against arguments, in output and input position
OutSet(k) == {NoE("out", << <<F("f", t, <<>>, a)>> >>) : t \in Refs(k), a \in Def("a", {INT, INTR, Ls(INTR, FALSE)}, {})}
ArgSet == {NoE("out", << <<F("f", INT, <<>>, a \o b)>> >>) : a \in Def("a", {INT, INTR}, {"1", "2"}), b \in Def("b", {INT, INTR}, {"3"})}
InSet(k) == {NoE("in", << <<F("f", t, <<>>, <<>>)>> >>) : t \in Refs(k)} \cup {NoE("in", << <<Id>> \o f \o g>>) : f \in Def("f", {INT, INTR}, {"1", "2"}), g \in Def("g", {INT, INTR}, {"3"})}
EnumSet == {G("none", <<>>, "none", <<>>)} \cup {G("none", <<>>, u, v) : u \in {"none", "in", "out", "both"}, v \in {<< <<"A">> >>, << <<"B">> >>, << <<"A", "B">> >>, << <<"B", "C">> >>}}
Pairs(s) == {<<a, b>> : a, b \in s}
Small == {NoE("none", <<>>)} \cup {NoE(u, << <<Id>> \o f>>) : u \in {"none", "in", "out", "both"}, f \in Opt("f", {INT, INTR})}
Triples(s) == {<<a, b, d>> : a, b, d \in s}
ESmall == {G("none", <<>>, u, v) : u \in {"none", "in", "out", "both"}, v \in {<< <<"A">> >>, << <<"A", "B">> >>}}
Quick == \/ c \in Pairs(UseSet) \/ c \in Pairs(OutSet(1)) \/ c \in Pairs(InSet(1)) \/ c \in Pairs(ArgSet) \/ c \in Pairs(EnumSet)
         \/ c \in Triples(Small) \/ c \in Triples(ESmall)
Thorough == \/ Quick \/ c \in Pairs(OutSet(2)) \/ c \in Pairs(InSet(2)) \/ c \in Triples(ArgSet) \/ c \in Triples(EnumSet)
            \/ c \in Triples({x \in UseSet : x.fs = <<>> \/ Len(x.fs[1]) < 3})

\* ---- folding: [u (set of uses), def, ...] accumulated
MergeG(l, r) ==
  LET t == IF r.fs = <<>> THEN Ok(l.fs) ELSE IF l.fs = <<>> THEN Ok(r.fs) ELSE Wrap(MergeType(l.u, l.fs[1], r.u, r.fs[1]))
      e == IF r.vs = <<>> THEN Ok(l.vs) ELSE IF l.vs = <<>> THEN Ok(r.vs) ELSE Wrap(MergeEnum(l.eu, l.vs[1], r.eu, r.vs[1]))
  IN Both(t, e, [u |-> l.u \cup r.u, fs |-> t.v, eu |-> l.eu \cup r.eu, vs |-> e.v])
Start(g) == [u |-> Uses(g.u), fs |-> g.fs, eu |-> Uses(g.eu), vs |-> g.vs]
RECURSIVE FoldG(_, _)
FoldG(acc, rest) == IF rest = <<>> \/ ~acc.ok THEN acc ELSE FoldG(MergeG(acc.v, Start(Head(rest))), Tail(rest))
Merged == FoldG(Ok(Start(c[1])), Tail(c))
Out == o

Init == done = FALSE /\ o = <<>> /\ IF Family = "quick" THEN Quick ELSE Thorough
Next == LET m == TLCEval(Merged) IN ~done /\ done' = TRUE /\ UNCHANGED c /\ o' = m /\ PrintT("@" \o ToJson([in |-> c, out |-> m]))
Spec == Init /\ [][Next]_<<c, done, o>>

---------------------------------------------------------------------------
(* The contract: what one side produces satisfies an output type, what satisfies an input type is accepted by both. *)
RECURSIVE Fits(_, _)      \* every value of s is a value of t
Fits(s, t) == s[1] = t[1] /\ (t[3] => s[3]) /\ (IF s[1] = "n" THEN s[2] = t[2] ELSE Fits(s[2], t[2]))
Accepts(side, res) == /\ \A i \in DOMAIN res : Has(side, res[i].n) /\ Fits(res[i].t, Get(side, res[i].n).t)
                      /\ \A i \in DOMAIN side : side[i].t[3] => Has(res, side[i].n)
Produces(side, res) == \A i \in DOMAIN side : /\ Has(res, side[i].n) /\ Fits(side[i].t, Get(res, side[i].n).t)
                                                /\ Accepts(side[i].a, Get(res, side[i].n).a)
Honoured == (done /\ Out.ok) => \A i \in DOMAIN c :
              /\ c[i].fs # <<>> => /\ Out.v.fs # <<>>
                                   /\ (Out.v.u = {"in"} => Accepts(c[i].fs[1], Out.v.fs[1]))
                                   /\ (Out.v.u = {"out"} => Produces(c[i].fs[1], Out.v.fs[1]))
              /\ c[i].vs # <<>> => /\ Out.v.vs # <<>>
                                   /\ (c[i].eu \in {"in", "both"} => ToSet(Out.v.vs[1]) \subseteq ToSet(c[i].vs[1]))
                                   /\ (c[i].eu \in {"out", "both"} => ToSet(c[i].vs[1]) \subseteq ToSet(Out.v.vs[1]))
RECURSIVE Set(_)
Set(fs) == {<<fs[i].n, fs[i].t, Set(fs[i].a)>> : i \in DOMAIN fs}
Commutes == (done /\ Len(c) = 2) => LET Flip == TLCEval(FoldG(Ok(Start(c[2])), <<c[1]>>)) IN /\ Out.ok = Flip.ok
                                    /\ Out.ok => /\ Out.v.u = Flip.v.u /\ (Out.v.fs # <<>> => Set(Out.v.fs[1]) = Set(Flip.v.fs[1]))
                                                 /\ (Out.v.vs # <<>> => ToSet(Out.v.vs[1]) = ToSet(Flip.v.vs[1]))
=============================================================================
