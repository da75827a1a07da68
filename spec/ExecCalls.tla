------------------------------- MODULE ExecCalls -------------------------------
(* P25: which upstream calls a history of requests makes. The gateway offers
     all: [U]  one(k): U  U.p: P (by U.k)  U.again: U (by U.k, the same call as one)  c (constant)  set(k): U (a mutation)
   its resolvers deduplicated or not, cached for Age or not, and U.p batched or not. Time passes only in steps of their own; the calls of a wave
   (resolvers whose parents became available together) are in flight at the same time. *)
EXTENDS Json, Sequences, Naturals, FiniteSets, TLC, SequencesExt
CONSTANTS Len1,     \* length of histories over all steps
          Len2      \* and over those with a cache in play
VARIABLES c, done, out
Age == 1000  Ticks == 600
Range0(q) == {q[j] : j \in DOMAIN q}
\* what a resolver needs: <<field, upstream, key>>; a field's calls are collected by a loader of its own when batching is on
All == <<"all", "all", 0>>  One(k) == <<"one", "one", k>>  Again(k) == <<"again", "one", k>>  P(k) == <<"p", "p", k>>
Ps == [j \in DOMAIN c.ks |-> P(c.ks[j])]
\* the waves of an operation
Waves(op) == CASE op = "A" -> <<<<All>>, Ps>>
               [] op = "B" -> <<<<All>>, Ps \o Ps>>
               [] op = "C" -> <<<<One(1), One(1), One(2)>>, <<P(1), P(1), P(2)>>>>
               [] op = "D" -> <<<<One(1)>>, <<Again(1)>>, <<P(1)>>>>
               [] op = "S" -> <<<<All>>>>
               [] OTHER -> <<>>
Mutations == {"M"}
\* operations executed once for all identical requests in flight: their root fields are deduplicated or cached
Shared(op) == op \notin Mutations /\ (c.dedupe \/ c.age)
Fails(n) == n[2] = "p" /\ n[3] = 9
Call(n) == IF n[2] = "p" /\ c.batch THEN <<"p", {n[3]}>> ELSE <<n[2], {n[3]}>>
\* ---- one wave: needs of several requests, each <<request, need>>, against the state
\* cache: set of <<upstream, key, expiry>>; seen: set of <<request, upstream, key>> a request has called already
Live(st, n) == \E x \in st.cache : x[1] = n[2] /\ x[2] = n[3] /\ st.now < x[3]
RECURSIVE Distinct(_, _)
Distinct(s, seen) == IF s = <<>> THEN <<>> ELSE IF s[1] \in seen THEN Distinct(Tail(s), seen) ELSE <<s[1]>> \o Distinct(Tail(s), seen \cup {s[1]})
Wave(st, needs) ==
  LET missed == SelectSeq(needs, LAMBDA x : ~(c.age /\ Live(st, x[2])))
      fresh == IF c.dedupe THEN SelectSeq(missed, LAMBDA x : <<x[1], x[2][2], x[2][3]>> \notin st.seen) ELSE missed
      ns == [j \in DOMAIN fresh |-> fresh[j][2]]
      unloaded == IF c.dedupe THEN LET ids == Distinct([j \in DOMAIN ns |-> <<ns[j][2], ns[j][3]>>], {})
                                   IN [j \in DOMAIN ids |-> ns[CHOOSE i \in DOMAIN ns : <<ns[i][2], ns[i][3]>> = ids[j] /\ \A h \in 1..(i - 1) : <<ns[h][2], ns[h][3]>> # ids[j]]]
                  ELSE ns
      loaded == IF c.batch THEN Distinct(unloaded, {}) ELSE unloaded
      grouped == IF c.batch THEN {n[3] : n \in {x \in Range0(loaded) : x[2] = "p"}} ELSE {}
      single == SelectSeq(loaded, LAMBDA n : ~(c.batch /\ n[2] = "p"))
      calls == [j \in DOMAIN single |-> Call(single[j])] \o (IF grouped = {} THEN <<>> ELSE << <<"p", grouped>> >>)
  IN [calls |-> calls,
      st |-> [st EXCEPT !.cache = @ \cup (IF c.age THEN {<<x[2][2], x[2][3], st.now + Age>> : x \in {y \in Range0(missed) : ~Fails(y[2])}} ELSE {}),
                        !.seen = @ \cup {<<x[1], x[2][2], x[2][3]>> : x \in Range0(missed)}]]
RECURSIVE Lockstep(_, _, _, _), Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
\* ws: the waves of every request
Lockstep(st, ws, j, calls) ==
  IF \A r \in DOMAIN ws : Len(ws[r]) < j THEN [calls |-> calls, st |-> st]
  ELSE LET w == Wave(st, Flat([r \in DOMAIN ws |-> IF Len(ws[r]) < j THEN <<>> ELSE [i \in DOMAIN ws[r][j] |-> <<r, ws[r][j][i]>>]]))
       IN Lockstep(w.st, ws, j + 1, calls \o w.calls)
\* a mutation calls for its root fields in document order, and below each of them before the next
MutationCalls == LET P1(k) == IF c.age THEN <<>> ELSE << <<"p", {k}>> >>
                 IN << <<"set", {1}>> >> \o P1(1) \o << <<"set", {2}>> >> \o P1(2) \o << <<"set", {1}>> >> \o P1(1)
Do(st, ops) ==
  LET ms == SelectSeq(ops, LAMBDA o : o \in Mutations)
      qs == SelectSeq(ops, LAMBDA o : o \notin Mutations)
      once == IF Len(qs) = 2 /\ qs[1] = qs[2] /\ Shared(qs[1]) THEN <<qs[1]>> ELSE qs
      r == Lockstep([st EXCEPT !.seen = {}], [j \in DOMAIN once |-> Waves(once[j])], 1, <<>>)
      \* concurrent mutations only share a batch with each other
      m == IF Len(ms) = 2 THEN << <<"set", {1}>>, <<"set", {1}>> >> \o (IF c.age THEN <<>> ELSE IF c.batch THEN << <<"p", {1}>> >> ELSE << <<"p", {1}>>, <<"p", {1}>> >>)
                                \o << <<"set", {2}>>, <<"set", {2}>> >> \o (IF c.age THEN <<>> ELSE IF c.batch THEN << <<"p", {2}>> >> ELSE << <<"p", {2}>>, <<"p", {2}>> >>)
                                \o << <<"set", {1}>>, <<"set", {1}>> >> \o (IF c.age THEN <<>> ELSE IF c.batch THEN << <<"p", {1}>> >> ELSE << <<"p", {1}>>, <<"p", {1}>> >>)
           ELSE IF ms # <<>> THEN MutationCalls ELSE <<>>
  IN [calls |-> r.calls \o m, st |-> r.st]
Do0(st, x) == IF x = <<"tick">> THEN [calls |-> <<>>, st |-> [st EXCEPT !.now = @ + Ticks]] ELSE Do(st, x)
RECURSIVE Run(_, _)
Run(st, h) == IF h = <<>> THEN <<>> ELSE LET r == Do0(st, h[1]) IN <<[calls |-> r.calls]>> \o Run(r.st, Tail(h))
Steps == {<<x>> : x \in {"A", "B", "C", "D", "S", "K", "M"}} \cup {<<"A", "A">>, <<"A", "B">>, <<"C", "C">>, <<"M", "M">>, <<"D", "D">>, <<"S", "A">>, <<"tick">>}
Caching == {<<"A">>, <<"B">>, <<"C">>, <<"D">>, <<"A", "A">>, <<"A", "B">>, <<"tick">>}
Histories == {h \in BoundedSeq(Steps, Len1) : h # <<>>}
Longer == {h \in BoundedSeq(Caching, Len2) : Len(h) > Len1}
Parents == {<<1, 2>>, <<1, 1>>, <<2>>, <<1, 2, 1>>, <<>>}
Init == /\ done = 0 /\ out = <<>>
        /\ \E b \in BOOLEAN, d \in BOOLEAN, a \in BOOLEAN : \E h \in Histories \cup (IF a THEN Longer ELSE {}) :
           \E ks \in Parents \cup (IF b THEN {} ELSE {<<9, 1>>}) : c = [batch |-> b, dedupe |-> d, age |-> a, h |-> h, ks |-> ks]
Zero == [cache |-> {}, now |-> 0, seen |-> {}]
Next == done = 0 /\ done' = 1 /\ UNCHANGED c /\ out' = Run(Zero, c.h) /\ PrintT("@" \o ToJson([in |-> c, out |-> out']))
Spec == Init /\ [][Next]_<<c, done, out>>

\* ---- laws
On == done = 1
CallsOf(j) == out[j].calls
Times(cs, x) == Cardinality({i \in DOMAIN cs : cs[i] = x})
\* deduplicated calls are made once per wave; an operation asks for anything at most once
Deduplicated == On /\ c.dedupe => \A j \in DOMAIN out : c.h[j][1] \notin Mutations /\ (Len(c.h[j]) = 1 \/ (Shared(c.h[j][1]) /\ c.h[j][1] = c.h[j][2])) => \A i, k \in DOMAIN CallsOf(j) : i # k => CallsOf(j)[i] # CallsOf(j)[k]
\* a call repeats a successful one within its lifetime only when nothing is cached
Kept == On /\ c.age /\ c.h = <<<<"A">>, <<"A">>>> => \A n \in Range0(CallsOf(2)) : n = <<"p", {9}>>
Expired == On /\ c.age /\ c.h = <<<<"A">>, <<"tick">>, <<"tick">>, <<"A">>>> => CallsOf(4) = CallsOf(1)
\* mutations do not depend on what happened before
Effects == On => \A i, j \in DOMAIN out : c.h[i] = <<"M">> /\ c.h[j] = <<"M">> => CallsOf(i) = CallsOf(j)
Never == On => \A j \in DOMAIN out : c.h[j] \in {<<"K">>, <<"tick">>} => CallsOf(j) = <<>>
\* at most one batched call in a wave
OneBatch == On /\ c.batch => \A j \in DOMAIN out : c.h[j] = <<"B">> => Cardinality({i \in DOMAIN CallsOf(j) : CallsOf(j)[i][1] = "p"}) <= 1
=============================================================================
