-------------------------------- MODULE Links --------------------------------
(* P31: what a configuration links to is loaded completely, in order, and once.

   A root configuration has a list of links; each has a resource and perhaps an id. Links
   are taken relative to the file that holds them. A linked configuration contributes its
   schema; its settings (links among them) are not used, those come from the root alone.   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Family, Most
VARIABLES c, done
\* kind of each resource; "" is no source
Kind == [C1 |-> "Config", C2 |-> "Config", CR |-> "Config", CE |-> "Config", CS |-> "Config", CX |-> "Config", CT |-> "Config", CM |-> "Config",
         P1 |-> "Protobuf", P2 |-> "Protobuf", PC |-> "Protobuf", PN |-> "Protobuf", PI |-> "Protobuf", PX |-> "Protobuf",
         O1 |-> "Operation", O2 |-> "Operation", OX |-> "Operation", S1 |-> "Script", S2 |-> "Script", SM |-> "Script",
         K1 |-> "Key", K2 |-> "Key", E1 |-> "Cert", E2 |-> "Cert", H1 |-> "Htpasswd", H2 |-> "Htpasswd", HM |-> "Htpasswd",
         W1 |-> "Jwks", W2 |-> "Jwks", WX |-> "Jwks", none |-> "Config", nokey |-> "Key"]
Resources == DOMAIN Kind
\* missing, or not what they should be: CX and OX, WX, PX do not parse, CT has no known extension, PN has no package, PI imports what is missing
Broken == {"CX", "CT", "CM", "PN", "PI", "PX", "OX", "SM", "HM", "WX"}
Empty == {"none", "nokey"}
\* the fields of Query in each configuration: CE has its one rendered from the environment, CS links back to the root and itself
Fields == [C1 |-> {"c1"}, C2 |-> {"c2"}, CR |-> {"cr"}, CE |-> {"ce"}, CS |-> {"cs"}]
\* files of each protobuf link: P1 imports P2, PC imports itself by way of PD
Protos == [P1 |-> {"P1", "P2"}, P2 |-> {"P2"}, PC |-> {"PC", "PD"}]
\* one file may be linked by several
Files == [r \in Resources |-> IF r \in DOMAIN Protos THEN Protos[r] ELSE {r}]
L(r, i) == [r |-> r, id |-> i]
Pool == {L(r, "") : r \in Resources} \cup {L(r, "x") : r \in {"C1", "H1", "W1", "S1", "none", "HM"}} \cup {L(r, "y") : r \in {"H1", "H2"}}
Good == {L(r, "") : r \in {"C1", "C2", "P1", "P2", "O1", "O2", "S1", "K1", "E1", "H1", "W1"}} \cup {L("H2", "x")}
Lists(s, n) == UNION {[1..k -> s] : k \in 0..n}
Three == {l \in [1..3 -> {x \in Pool : x.id = ""}] : \A i, j \in 1..3 : i < j => Kind[l[i].r] = Kind[l[j].r] \/ l[i].r \in {"C1", "O1", "H1"}}
Cases == CASE Family = "one" -> {[roots |-> <<l>>, dir |-> d, dir2 |-> d] : l \in Lists(Pool, 2), d \in {"", "a/b/"}} \cup (IF Most > 2 THEN {[roots |-> <<l>>, dir |-> "a/b/", dir2 |-> "a/b/"] : l \in Three} ELSE {})
           [] OTHER -> {[roots |-> <<l, m>>, dir |-> "a/", dir2 |-> d] : l, m \in Lists(Good, IF Most > 2 THEN 2 ELSE 1), d \in {"a/", "b/c/"}}
Init == /\ c \in Cases /\ done = FALSE
        /\ Len(c.roots) = 2 => ~\E i \in DOMAIN c.roots[1], j \in DOMAIN c.roots[2] : \/ (c.roots[1][i].r = "S1" /\ c.roots[2][j].r = "S1")
                                                                                       \/ (c.dir # c.dir2 /\ Kind[c.roots[1][i].r] = "Protobuf" /\ Kind[c.roots[2][j].r] = "Protobuf")
All(x) == FlattenSeq(x.roots)
Loads(x) == \A i \in DOMAIN All(x) : All(x)[i].r \notin Broken
\* what is wrong with a list of links as such
Faulty(l) == \/ \E i \in DOMAIN l : l[i].r \in Empty
             \/ \E i, j \in DOMAIN l : i # j /\ l[i].id # "" /\ l[i].id = l[j].id
             \/ \E i, j \in DOMAIN l : i # j /\ Kind[l[i].r] = "Script" /\ Kind[l[j].r] = "Script"
             \/ \E i, j \in DOMAIN l : i # j /\ Kind[l[i].r] = "Key" /\ Kind[l[j].r] = "Key"
Of(x, k) == SelectSeq(All(x), LAMBDA l : Kind[l.r] = k /\ l.r \notin Empty)
Names(s) == [i \in DOMAIN s |-> s[i].r]
Ranges(f, s) == UNION {f[s[i].r] : i \in DOMAIN s}
Module(x) == [fields |-> SetToSeq({"root1"} \cup (IF Len(x.roots) = 2 THEN {"root2"} ELSE {}) \cup Ranges(Fields, Of(x, "Config"))),
              protos |-> SetToSeq(Ranges(Protos, Of(x, "Protobuf"))), operations |-> Names(Of(x, "Operation")), script |-> Names(Of(x, "Script")),
              keys |-> Names(Of(x, "Key")), certs |-> Names(Of(x, "Cert")), htpasswd |-> Of(x, "Htpasswd"), jwks |-> Of(x, "Jwks"),
              \* what is linked to is found from where the configuration is that links to it
              reads |-> SetToSeq(UNION {{<<IF k = 1 THEN x.dir ELSE x.dir2, f>> : f \in UNION {Files[x.roots[k][i].r] : i \in {j \in DOMAIN x.roots[k] : x.roots[k][j].r \notin Empty}}} : k \in DOMAIN x.roots})]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("@" \o ToJson([in |-> c, out |-> IF Loads(c) THEN [ok |-> TRUE, valid |-> ~Faulty(c.roots[1]), module |-> Module(c)]
                                                   ELSE [ok |-> FALSE, missing |-> Names(SelectSeq(All(c), LAMBDA l : l.r \in Broken))]]))
Spec == Init /\ [][Next]_<<c, done>>
\* the order of links of different kinds does not matter, and a link twice adds no schema
SameSchema == (done /\ Len(c.roots) = 1 /\ Loads(c)) =>
   LET l == c.roots[1] IN Module([c EXCEPT !.roots = <<l \o l>>]).fields = Module(c).fields /\ Module([c EXCEPT !.roots = <<Reverse(l)>>]).fields = Module(c).fields
=============================================================================
