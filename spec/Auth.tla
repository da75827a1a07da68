--------------------------------- MODULE Auth ----------------------------------
(* P20: what a combination of authentication providers decides about a request.
   Providers: basic (users with their password) or token (keys by id, required issuer, audiences).
   Verdicts, from least to most specific refusal: "missing" < "parse" < "invalid"; and "ok".        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Leaves
VARIABLES c, done
Basic == [b1 |-> {<<"alice", "pw">>}, b2 |-> {<<"alice", "pw2">>, <<"bob", "pw">>}]
\* keys: <<id, secret, has an algorithm>>
Token == [t1 |-> [keys |-> <<<<"k1", "s1", TRUE>>, <<"k2", "s2", TRUE>>>>, iss |-> <<>>, aud |-> {}, optKid |-> FALSE],
          t2 |-> [keys |-> <<<<"k1", "s1", TRUE>>>>, iss |-> <<"me">>, aud |-> {}, optKid |-> FALSE],
          t3 |-> [keys |-> <<<<"k1", "s1", TRUE>>, <<"k2", "s2", TRUE>>>>, iss |-> <<>>, aud |-> {"x", "y"}, optKid |-> TRUE],
          t4 |-> [keys |-> <<<<"k1", "s1", FALSE>>>>, iss |-> <<>>, aud |-> {}, optKid |-> FALSE]]
Names == {"b1", "b2", "t1", "t2", "t3", "t4"}
(* credentials: <<"none">> | <<"basic", user, password>> | <<"token", record>> | <<"raw", header text>> *)
T(sec, kid, iss, aud, exp) == <<"token", [sec |-> sec, kid |-> kid, iss |-> iss, aud |-> aud, exp |-> exp]>>
Creds == {<<"none">>, <<"basic", "alice", "pw">>, <<"basic", "alice", "pw2">>, <<"basic", "bob", "pw">>, <<"basic", "alice", "no">>, <<"basic", "eve", "pw">>, <<"basic", "alice", "">>,
          <<"raw", "Basic !!">>, <<"raw", "Bearer">>, <<"raw", "Bearer abc">>, <<"raw", "Digest x">>, <<"raw", "">>}
   \cup {T(s, k, <<>>, <<>>, "future") : s \in {"s1", "s2", "s3"}, k \in {<<>>, <<"k1">>, <<"k2">>, <<"k3">>}}
   \cup {T("s1", k, i, a, "future") : k \in {<<>>, <<"k1">>}, i \in {<<>>, <<"me">>, <<"you">>}, a \in {<<>>, <<"one", "x">>, <<"one", "z">>, <<"many", "z", "y">>, <<"many", "z">>, <<"many">>}}
   \cup {T("s1", <<"k1">>, <<"me">>, <<"one", "x">>, e) : e \in {"past", "none"}}
\* a token is genuine for a provider if it verifies with the key its id names, or, where ids are optional, with any key
Genuine(p, t) == /\ t.exp = "future"
                 /\ IF t.kid # <<>> THEN \E i \in 1..Len(p.keys) : p.keys[i][1] = t.kid[1] /\ p.keys[i][2] = t.sec /\ p.keys[i][3]
                    ELSE p.optKid /\ \E i \in 1..Len(p.keys) : p.keys[i][2] = t.sec /\ p.keys[i][3]
Claims(p, t) == /\ p.iss = <<>> \/ p.iss = t.iss
                /\ p.aud = {} \/ \E i \in 2..Len(t.aud) : t.aud[i] \in p.aud
Single(n, cr) ==
  IF cr[1] = "none" THEN "missing"
  ELSE IF n \in DOMAIN Basic
  THEN IF cr[1] = "basic" /\ <<cr[2], cr[3]>> \in Basic[n] THEN "ok" ELSE "invalid"
  ELSE CASE cr[1] = "token" -> IF ~Genuine(Token[n], cr[2]) THEN "parse" ELSE IF Claims(Token[n], cr[2]) THEN "ok" ELSE "invalid"
         [] cr = <<"raw", "Bearer abc">> -> "parse"
         [] OTHER -> "invalid"
Rank == [missing |-> 0, parse |-> 1, invalid |-> 2]
RECURSIVE Decide(_, _)
Decide(t, cr) == IF t[1] = "p" THEN Single(t[2], cr)
                 ELSE LET a == Decide(t[2], cr)  b == Decide(t[3], cr) IN
                      IF t[1] = "and" THEN IF a # "ok" THEN a ELSE b
                      ELSE IF "ok" \in {a, b} THEN "ok" ELSE IF Rank[a] >= Rank[b] THEN a ELSE b
P == {<<"p", n>> : n \in Names}
Two == {<<o, a, b>> : o \in {"and", "or"}, a \in P, b \in P}
Three == {<<o, a, b>> : o \in {"and", "or"}, a \in P, b \in Two} \cup {<<o, a, b>> : o \in {"and", "or"}, a \in Two, b \in P}
Trees == P \cup Two \cup (IF Leaves > 2 THEN Three ELSE {}) \cup (IF Leaves > 3 THEN {<<o, a, b>> : o \in {"and", "or"}, a \in Two, b \in Two} ELSE {})
CredSeq == SetToSeq(Creds)
Init == done = FALSE /\ c \in Trees
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> [tree |-> c, creds |-> CredSeq], out |-> [i \in 1..Len(CredSeq) |-> Decide(c, CredSeq[i])]]))
Spec == Init /\ [][Next]_<<c, done>>
\* the verdict is the boolean combination of what the single providers say
RECURSIVE Bool(_, _)
Bool(t, cr) == IF t[1] = "p" THEN Single(t[2], cr) = "ok" ELSE IF t[1] = "and" THEN Bool(t[2], cr) /\ Bool(t[3], cr) ELSE Bool(t[2], cr) \/ Bool(t[3], cr)
IsBoolean == \A cr \in Creds : (Decide(c, cr) = "ok") <=> Bool(c, cr)
NeverWithout == Decide(c, <<"none">>) = "missing"
=============================================================================
