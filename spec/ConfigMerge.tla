------------------------------ MODULE ConfigMerge ------------------------------
(* P12: what a sequence of configuration sources sets, setting by setting.
   A source gives values to some of the settings. How the values of one setting combine depends on its kind:
     last    the later value stands
     append  lists, earlier before later
     set     sets of names, their union
     kv      lists of <<key, value>>, one entry for each key, the later value stands
   A setting with a default d in a group counts as set to d by every source that sets something else of the group. *)
EXTENDS Settings, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Backs     \* how the other settings are given: functions from source to 0 (not at all), 1 or 2
VARIABLES c, done, m    \* m: the sources as given, as counted with the defaults, and what they combine to
ToSet2(s) == {s[i] : i \in DOMAIN s}
KvMerge(a, b) == SelectSeq(a, LAMBDA e : ~\E i \in DOMAIN b : b[i][1] = e[1]) \o b
Join(k, a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE << CASE k = "last" -> b[1] [] k = "append" -> a[1] \o b[1]
                           [] k = "set" -> a[1] \o SelectSeq(b[1], LAMBDA x : x \notin ToSet2(a[1]))
                           [] OTHER -> KvMerge(a[1], b[1]) >>
Merge(a, b) == [i \in 1..N |-> Join(Table[i].k, a[i], b[i])]
\* a key given twice has its last value
LastOnes(l) == LET keep(i) == \A j \in (i + 1)..Len(l) : l[j][1] # l[i][1]
                   RECURSIVE from(_)
                   from(i) == IF i > Len(l) THEN <<>> ELSE (IF keep(i) THEN <<l[i]>> ELSE <<>>) \o from(i + 1)
               IN from(1)
Once(src) == [i \in 1..N |-> IF Table[i].k = "kv" /\ src[i] # <<>> THEN <<LastOnes(src[i][1])>> ELSE src[i]]
None == [i \in 1..N |-> <<>>]

Source(s, x, bg) == [i \in 1..N |-> IF i = s THEN (IF x = 0 THEN <<>> ELSE <<Val(Table[i].k, x)>>)
                                    ELSE IF bg = 0 THEN <<>> ELSE <<Val(Table[i].k, bg)>>]
Raw == [i \in 1..3 |-> Source(c.s, c.x[i], c.bg[i])]
\* sources in the schema language always name their query root
Sdl(raw) == [i \in 1..3 |-> (c.s + c.x[1] + i) % 2 = 0 \/ \E j \in 1..N : raw[i][j] # <<>> /\ Table[j].g = "sdl"]
WithRoot(raw, sd) == [i \in 1..3 |-> [j \in 1..N |-> IF sd[i] /\ Table[j].n = "schema.query" /\ raw[i][j] = <<>> THEN <<"2">> ELSE raw[i][j]]]
A == m[2][1]  B == m[2][2]  C == m[2][3]
Out == m[3]
Quick == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>>, <<1, 2, 1>>}
Thorough == (0..2) \X (0..2) \X (0..2)
TheBacks == IF Backs = "quick" THEN Quick ELSE Thorough
Init == done = 0 /\ m = <<>> /\ c \in [s : 1..N, x : (0..3) \X (0..3) \X (0..3), bg : TheBacks] /\ \A i \in 1..3 : c.x[i] \in ValueNos(Table[c.s].k)
Next == /\ done < 4 /\ done' = done + 1 /\ UNCHANGED c
        /\ CASE done = 0 -> m' = <<Raw>>
             [] done = 1 -> m' = <<WithRoot(m[1], Sdl(m[1])), Sdl(m[1])>>
             [] done = 2 -> m' = <<m[1], [i \in 1..3 |-> Once(Complete(m[1][i]))], m[2]>>
             [] done = 3 -> /\ m' = <<m[1], m[2], Merge(Merge(m[2][1], m[2][2]), m[2][3])>>
                            /\ PrintT("@" \o ToJson([in |-> m[1], sdl |-> m[3], out |-> Merge(Merge(m[2][1], m[2][2]), m[2][3]),
                                                     t |-> IF c.s = 1 /\ c.x = <<0, 0, 0>> THEN Table ELSE <<>>]))
Spec == Init /\ [][Next]_<<c, done, m>>

Assoc == done = 4 => \A i \in 1..N : IF Table[i].k \in {"set", "kv"}
                         THEN LET l == Merge(Merge(A, B), C)[i]
                                  r == Merge(A, Merge(B, C))[i]
                              IN (l = <<>>) = (r = <<>>) /\ (l # <<>> => ToSet2(l[1]) = ToSet2(r[1]))
                         ELSE Merge(Merge(A, B), C)[i] = Merge(A, Merge(B, C))[i]
Identity == done = 4 => (Merge(A, None) = A /\ Merge(None, A) = A)
\* what nobody sets is not set, what the last source sets to a single value stands
LaterWins == done = 4 => \A i \in 1..N : /\ (A[i] = <<>> /\ B[i] = <<>> /\ C[i] = <<>>) => Out[i] = <<>>
                        /\ (Table[i].k = "last" /\ C[i] # <<>>) => Out[i] = C[i]
\* nothing of a list or set is lost
Keeps == done = 4 => \A i \in 1..N, x \in 1..3 : LET y == <<A, B, C>>[x][i] IN
           (y # <<>> /\ Table[i].k \in {"append", "set"}) => ToSet2(y[1]) \subseteq ToSet2(Out[i][1])
=============================================================================
