-------------------------------- MODULE TryFold -------------------------------
(* P13: composed configuration steps. A step takes a state (here: a log of what was
   applied to it) to <<"ok", state>> or <<"err", errors>>; an error is <<text, trail>>. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Deep
VARIABLES c, done
OK(s) == <<"ok", s>>
Err(e) == <<"err", e>>
E1(t) == << <<t, <<>>>> >>
RECURSIVE Run(_, _), RunAll(_, _)
\* one after the other; a failing one leaves the state as it was and the rest still report
Then(r, s0, q) == LET s == IF r[1] = "ok" THEN r[2] ELSE s0
                      r2 == Run(q, s)
                  IN IF r[1] = "ok" THEN r2 ELSE IF r2[1] = "ok" THEN r ELSE Err(r[2] \o r2[2])
RunAll(ps, s) == IF ps = <<>> THEN OK(s)
                 ELSE IF Len(ps) = 1 THEN Run(ps[1], s)
                 ELSE LET r == Run(ps[1], s)
                          s1 == IF r[1] = "ok" THEN r[2] ELSE s
                          r2 == RunAll(Tail(ps), s1)
                      IN IF r[1] = "ok" THEN r2 ELSE IF r2[1] = "ok" THEN r ELSE Err(r[2] \o r2[2])
Run(p, s) ==
  CASE p[1] = "ok" -> OK(Append(s, p[2]))
    [] p[1] = "fail" -> Err(E1(p[2]))
    [] p[1] = "fail2" -> Err(E1(p[2]) \o E1(p[2] \o "'"))
    \* fails when the state it is given is not empty
    [] p[1] = "dep" -> IF s = <<>> THEN OK(<<p[2]>>) ELSE Err(E1(p[2] \o ToString(Len(s))))
    [] p[1] = "empty" -> OK(s)
    [] p[1] = "and" -> Then(Run(p[2], s), s, p[3])
    [] p[1] = "list" -> RunAll(p[2], s)
    [] p[1] = "trace" -> LET r == Run(p[2], s) IN
         IF r[1] = "ok" THEN r ELSE Err([i \in 1..Len(r[2]) |-> <<r[2][i][1], <<p[3]>> \o r[2][i][2]>>])
    [] p[1] = "update" -> LET r == Run(p[2], s) IN IF r[1] = "ok" THEN OK(Append(r[2], "u")) ELSE r
    \* run on another view of the state: down appends d, up keeps both
    [] p[1] = "transform" -> LET r == Run(p[2], Append(s, "d")) IN IF r[1] = "ok" THEN OK(s \o <<"(">> \o r[2] \o <<")">>) ELSE r
    [] p[1] = "down" -> Err(E1("down"))
    [] OTHER -> LET r == Run(p[2], s) IN IF r[1] = "ok" THEN Err(E1("up")) ELSE r
Base(x) == {<<"ok", x>>, <<"fail", x>>, <<"fail2", x>>, <<"dep", x>>}
Un(S) == {<<"trace", p, "t">> : p \in S} \cup {<<"update", p>> : p \in S} \cup {<<"transform", p>> : p \in S}
         \cup {<<"down", p>> : p \in S} \cup {<<"up", p>> : p \in S}
Emp == {<<"empty">>}
And(S, T) == {<<"and", p, q>> : p \in S, q \in T}
A == Base("a") \cup Emp \cup Un(Base("a"))
B == Base("b") \cup Emp
BU == B \cup Un(Base("b"))
C3 == {<<"ok", "c">>, <<"fail", "c">>, <<"dep", "c">>}
D4 == {<<"ok", "d">>, <<"fail", "d">>}
P2 == And(A, BU)
\* trees of leaves a, b, c (, d) in every grouping, and as lists
Trees == P2 \cup Un(P2) \cup And(P2, C3) \cup And(A, And(B, C3)) \cup {<<"list", <<p, q, r>>>> : p \in A, q \in B, r \in C3}
         \cup {<<"list", <<p>>>> : p \in A} \cup {<<"list", <<>>>>} \cup Un(And(Base("a"), And(B, C3)))
         \cup And(And(Base("a"), B), And(C3, D4)) \cup And(Base("a"), And(B, And(C3, D4))) \cup And(And(And(Base("a"), B), C3), D4)
         \cup And({<<"trace", p, "t">> : p \in And(Base("a"), B)}, {<<"trace", p, "w">> : p \in And(C3, D4)})
More == Un(Un(P2)) \cup And(Un(And(Base("a"), B)), Un(And(C3, D4))) \cup And(A, Un(And(B, C3)))
Inputs == {[p |-> p, s |-> s] : p \in Trees \cup IF Deep THEN More ELSE {}, s \in {<<>>, <<"0">>}}
Init == done = FALSE /\ c \in Inputs
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> Run(c.p, c.s)]))
Spec == Init /\ [][Next]_<<c, done>>
(* laws *)
\* grouping never changes whether, or with what, a composition succeeds; nor the errors of steps that do not read the state
Assoc == c.p = <<"list", <<>>>> => \A p \in Base("a") \cup Emp, q \in B, r \in C3 :
           LET x == Run(<<"and", p, <<"and", q, r>>>>, c.s)  y == Run(<<"and", <<"and", p, q>>, r>>, c.s) IN
           (x[1] = "ok" \/ y[1] = "ok" \/ r[1] # "dep") => x = y
EmptyUnit == Run(<<"and", <<"empty">>, c.p>>, c.s) = Run(c.p, c.s) /\ Run(<<"and", c.p, <<"empty">>>>, c.s) = Run(c.p, c.s)
=============================================================================
