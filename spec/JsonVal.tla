--------------------------------- MODULE JsonVal ------------------------------
(* JSON values as tagged tuples and the operations the gateway performs on them:
   path lookup, collecting matches, grouping, mapping over nested lists.
   Values: <<"n">>, <<"b", "true">>, <<"i", "12">>, <<"s", "x">>, <<"a", seq>>,
   <<"o", seq of <<key, value>>>>; numbers are their literal text, so their size is not
   limited by TLC's integers.                                                       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Null == <<"n">>
IsArr(v) == v[1] = "a"
IsObj(v) == v[1] = "o"
RECURSIVE Field(_, _)
Field(fs, k) == IF fs = <<>> THEN <<>>
                ELSE IF fs[1][1] = k THEN <<fs[1][2]>> ELSE Field(Tail(fs), k)
Get(v, k) == IF IsObj(v) THEN Field(v[2], k) ELSE <<>>

Digit == [d \in {"0", "1", "2", "3"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] OTHER -> 3]
\* path lookup: <<>> when a step does not exist, <<value>> otherwise
RECURSIVE GetPath(_, _)
GetPath(v, p) ==
  IF p = <<>> THEN <<v>>
  ELSE LET nx == IF IsObj(v) THEN Field(v[2], p[1])
                 ELSE IF IsArr(v) /\ p[1] \in DOMAIN Digit /\ Digit[p[1]] < Len(v[2])
                      THEN <<v[2][Digit[p[1]] + 1]>> ELSE <<>>
       IN IF nx = <<>> THEN <<>> ELSE GetPath(nx[1], Tail(p))

\* all matches of an object path, through every list on the way
RECURSIVE Gather(_, _), GatherAll(_, _)
GatherAll(vs, p) == IF vs = <<>> THEN <<>> ELSE Gather(vs[1], p) \o GatherAll(Tail(vs), p)
Gather(v, p) ==
  IF IsArr(v) THEN GatherAll(v[2], p)
  ELSE IF p = <<>> THEN <<>>
  ELSE LET nx == Get(v, p[1]) IN
       IF nx = <<>> THEN <<>>
       ELSE IF Len(p) = 1 THEN <<<<nx[1], v>>>>
       ELSE Gather(nx[1], Tail(p))

\* the text by which a key is compared; <<>> for what cannot be a key
KeyText(v) == IF v[1] \in {"i", "f", "s"} THEN <<v[2]>> ELSE <<>>
RECURSIVE InsertGroup(_, _, _), GroupAll(_, _)
InsertGroup(gs, k, r) == IF gs = <<>> THEN <<<<k, <<r>>>>>>
                         ELSE IF gs[1][1] = k THEN <<<<k, Append(gs[1][2], r)>>>> \o Tail(gs)
                         ELSE <<gs[1]>> \o InsertGroup(Tail(gs), k, r)
GroupAll(ms, gs) == IF ms = <<>> THEN gs
                    ELSE LET t == KeyText(ms[1][1]) IN
                         GroupAll(Tail(ms), IF t = <<>> THEN gs ELSE InsertGroup(gs, t[1], ms[1][2]))
GroupBy(v, p) == GroupAll(Gather(v, p), <<>>)

RECURSIVE Leaves(_), LeavesAll(_)
LeavesAll(vs) == IF vs = <<>> THEN <<>> ELSE Leaves(vs[1]) \o LeavesAll(Tail(vs))
Leaves(v) == IF IsArr(v) THEN LeavesAll(v[2]) ELSE <<v>>

\* mapping wraps each leaf into {"w": leaf}
RECURSIVE Wrap(_)
Wrap(v) == IF IsArr(v) THEN <<"a", [i \in 1..Len(v[2]) |-> Wrap(v[2][i])]>> ELSE <<"o", <<<<"w", v>>>>>>
=============================================================================
