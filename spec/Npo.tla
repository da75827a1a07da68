--------------------------------- MODULE Npo ---------------------------------
(* P32: the query paths on which an unbatched resolver is called once per element.

   A schema is a set of types with fields; a field leads to a scalar or to a type, may be
   a list, and may have resolvers, batched or not. A place is (type, inside a list?).
   Going along a field inside a list that has an unbatched resolver ends the path: that
   field is called per element (a hazard). Types may have resolvers of their own, used for
   entity lookups, which come as lists.                                                  *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Family, Deep
VARIABLES c, done
None == "-"
Kinds == {"none", "each", "batch"}
F(t, l, k) == [to |-> t, list |-> l, kind |-> k]
\* nothing, a scalar, or one of the types ts
Opts(ts) == {F(None, FALSE, "none"), F("S", FALSE, "each"), F("S", FALSE, "batch")} \cup [to : ts, list : BOOLEAN, kind : Kinds]
Links(ts) == [to : ts, list : BOOLEAN, kind : {"none", "each"}]
\* the resolvers of one field in a list, by what they are made of
Made == {<<"http">>, <<"httpkey">>, <<"httpget">>, <<"gql">>, <<"gqlbatch">>, <<"grpc">>, <<"grpckey">>, <<"expr">>, <<"js">>, <<"call">>, <<"calllist">>,
         <<"httpkey", "gqlbatch">>, <<"http", "gqlbatch">>, <<"httpkey", "gql">>, <<"gqlbatch", "expr">>, <<"grpckey", "httpkey">>, <<"grpckey", "js">>}
Batched(m) == \A i \in 1..Len(m) : m[i] \in {"httpkey", "gqlbatch", "grpckey"}
Plain == F(None, FALSE, "none")
\* fields are examined in the order of their names: b comes before c and n, so that both orders of a cycle are met
Schema(q1, q2, a1, a2, b1, b2) == [Query |-> [a |-> q1, b |-> q2], A |-> [b |-> a1, c |-> a2], B |-> [a |-> b1, z |-> b2]]
Ent(a, b) == [Query |-> "none", A |-> a, B |-> b]
Cases ==
  CASE Family = "graph" ->
         {[schema |-> Schema(q1, q2, a1, a2, b1, b2), ent |-> Ent("none", "none"), made |-> << >>] :
           q1 \in Links({"A", "B"}), q2 \in IF Deep THEN {Plain} \cup Links({"A", "B"}) ELSE {Plain, F("B", FALSE, "none"), F("B", TRUE, "none")},
           a1 \in Opts({"A", "B"}), a2 \in IF Deep THEN Opts({"A", "B"}) ELSE {Plain, F("S", FALSE, "each"), F("S", FALSE, "batch"), F("A", TRUE, "none"), F("B", FALSE, "batch")},
           b1 \in Opts({"A", "B"}), b2 \in {Plain, F("S", FALSE, "each")} \cup IF Deep THEN {F("S", FALSE, "batch")} ELSE {}}
    [] Family = "entity" ->
         {[schema |-> Schema(q1, Plain, a1, a2, b1, b2), ent |-> Ent(ea, eb), made |-> << >>] :
           q1 \in {Plain, F("A", FALSE, "none"), F("A", TRUE, "none"), F("B", TRUE, "each"), F("B", TRUE, "batch")}, a1 \in Opts({"A", "B"}),
           a2 \in {Plain, F("S", FALSE, "each")} \cup IF Deep THEN Opts({"B"}) ELSE {},
           b1 \in Opts(IF Deep THEN {"A", "B"} ELSE {"A"}), b2 \in {Plain, F("S", FALSE, "each")}, ea \in Kinds, eb \in Kinds}
    [] Family = "made" ->
         {[schema |-> Schema(F("A", l, "none"), Plain, F("S", FALSE, IF Batched(m) THEN "batch" ELSE "each"), Plain, Plain, Plain), ent |-> Ent("none", "none"), made |-> m] :
           m \in Made, l \in BOOLEAN}
         \cup {[schema |-> Schema(F("A", TRUE, "none"), Plain, F("B", FALSE, IF Batched(m) THEN "batch" ELSE "each"), Plain, F("S", FALSE, "each"), Plain), ent |-> Ent("none", "none"), made |-> m] :
           m \in Made}
Init == c \in Cases /\ done = FALSE
\* one step along a field: <<field, place after it, ends here?>>
Steps(sc, t, in) == {<<f, sc[t][f].to, in \/ sc[t][f].list, in /\ sc[t][f].kind = "each", t>> :
                      f \in {g \in DOMAIN sc[t] : sc[t][g].to # None}}
\* paths of at most n fields that start inside t
RECURSIVE Walks(_, _, _, _)
Walks(sc, t, in, n) == IF n = 0 \/ t \notin DOMAIN sc THEN {} ELSE
  UNION {IF s[4] THEN {[p |-> <<s[1]>>, at |-> <<s[5], s[1]>>]}
         ELSE {[p |-> <<s[1]>> \o w.p, at |-> w.at] : w \in Walks(sc, s[2], s[3], n - 1)} : s \in Steps(sc, t, in)}
Bound == 2 * 3 + 1
Starts(x) == {<<"Query", FALSE, << >>>>} \cup {<<t, TRUE, <<"#" \o t>>>> : t \in {u \in {"A", "B"} : x.ent[u] = "batch"}}
All(x) == UNION {{[p |-> s[3] \o w.p, at |-> w.at] : w \in Walks(x.schema, s[1], s[2], Bound)} : s \in Starts(x)}
          \cup {[p |-> <<"#" \o t>>, at |-> <<"#", t>>] : t \in {u \in {"A", "B"} : x.ent[u] = "each"}}
\* the places that can be reached, and whether some place can be reached from itself
Moves(sc, pl) == {<<s[2], s[3]>> : s \in {z \in Steps(sc, pl[1], pl[2]) : ~z[4] /\ z[2] \in DOMAIN sc}}
RECURSIVE Reach(_, _)
Reach(sc, ps) == LET more == ps \cup UNION {Moves(sc, p) : p \in ps} IN IF more = ps THEN ps ELSE Reach(sc, more)
Places(x) == Reach(x.schema, {<<s[1], s[2]>> : s \in Starts(x)})
Recursive(x) == \E p \in Places(x) : p \in Reach(x.schema, Moves(x.schema, p))
Hazards(x) == UNION {{<<s[5], s[1]>> : s \in {z \in Steps(x.schema, p[1], p[2]) : z[4]}} : p \in Places(x)}
              \cup {<<"#", t>> : t \in {u \in {"A", "B"} : x.ent[u] = "each"}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET all == TLCEval(All(c)) IN
           PrintT("@" \o ToJson([in |-> c, out |-> [all |-> SetToSeq(all), rec |-> Recursive(c), hazards |-> SetToSeq(Hazards(c))]]))
Spec == Init /\ [][Next]_<<c, done>>
\* the two readings of the property agree: a hazard is what some path ends in (paths as long as the number of places suffice)
Agree == done => {w.at : w \in All(c)} = Hazards(c)
\* paths of a schema without recursion do not get longer than its places
Finite == (done /\ ~Recursive(c)) => \A w \in All(c) : Len(w.p) <= Bound - 1
\* nothing is a hazard when no resolver is unbatched or nothing is a list
Quiet == done => LET fs == {f \in UNION {{c.schema[t][g] : g \in DOMAIN c.schema[t]} : t \in DOMAIN c.schema} : f.to # None} IN
   ((\A f \in fs : f.kind # "each") \/ (\A f \in fs : ~f.list)) /\ (\A t \in {"A", "B"} : c.ent[t] = "none") => All(c) = {}
=============================================================================
