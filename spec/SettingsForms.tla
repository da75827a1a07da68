----------------------------- MODULE SettingsForms -----------------------------
(* P17, the settings: a configuration with two (three) settings, written out and read back, as SDL and, what concerns the running
   of the gateway, as JSON and YAML. Writing gives what is set, reading completes a group that is given with its defaults. *)
EXTENDS Settings, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Third     \* the settings given as a third
VARIABLES c, done, o
Runtime(k) == Table[k].g # "sdl"
Val2(k, x) == Val(Table[k].k, x)
Source == [k \in 1..N |-> IF \E j \in 1..Len(c) : c[j][1] = k THEN <<Val2(k, (CHOOSE p \in ToSet(c) : p[1] = k)[2])>> ELSE <<>>]
Write(cfg) == cfg
Read(doc) == Complete(doc)
Pairs == {<<k, x>> \in (1..N) \X (1..3) : x \in ValueNos(Table[k].k)}
\* roots are given with a query root among them
Rooted == (\E p \in ToSet(c) : Table[p[1]].n = "schema.mutation") => \E p \in ToSet(c) : Table[p[1]].n = "schema.query"
Init == done = 0 /\ o = <<>>
        /\ \/ c = <<>>
           \/ \E p \in Pairs : c = <<p>>
           \/ \E p \in Pairs, q \in Pairs : p[1] < q[1] /\ c = <<p, q>>
           \/ Third # {} /\ \E p \in Pairs, q \in Pairs, r \in Pairs : p[1] < q[1] /\ q[1] < r[1] /\ p[1] \in Third /\ q[2] = 1 /\ r[2] # 2 /\ c = <<p, q, r>>
        /\ Rooted
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED c
        /\ LET m == Read(Source)
           IN o' = m /\ PrintT("@" \o ToJson([src |-> Source, cfg |-> m, t |-> IF c = <<>> THEN Table ELSE <<>>]))
Spec == Init /\ [][Next]_<<c, done, o>>
RoundTrip == done = 1 => Read(Write(o)) = o
Runtimes == done = 1 => LET r == [k \in 1..N |-> IF Runtime(k) THEN o[k] ELSE <<>>] IN Read(Write(r)) = r
=============================================================================
