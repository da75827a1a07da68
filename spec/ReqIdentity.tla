----------------------------- MODULE ReqIdentity ------------------------------
(* Identity of upstream requests inside one batching loader: two requests are the same
   exactly when URL, body and every designated header agree. One record per designated
   set lists all requests of the domain with their identity; the implementation must
   induce the same partition.                                                       *)
EXTENDS Naturals, FiniteSets, Sequences, SequencesExt, TLC, Json
CONSTANTS Urls, FewUrls, Bodies, FewBodies, H1, FewH1, H2, H3
VARIABLES sig, out, done
Requests == [url : Urls, body : FewBodies, x1 : FewH1, x2 : H2, x3 : {"-"}]
       \cup [url : FewUrls, body : Bodies, x1 : FewH1, x2 : H2, x3 : {"-"}]
       \cup [url : FewUrls, body : FewBodies, x1 : H1, x2 : H2, x3 : H3]
\* what identity may depend on
Id(r, S) == [url |-> r.url, body |-> r.body,
             x1 |-> IF "x1" \in S THEN r.x1 ELSE "*",
             x2 |-> IF "x2" \in S THEN r.x2 ELSE "*",
             x3 |-> IF "x3" \in S THEN r.x3 ELSE "*"]
Init == sig \in SUBSET {"x1", "x2", "x3"} /\ out = {} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED sig
        /\ out' = {[r |-> r, id |-> Id(r, sig)] : r \in Requests}
        /\ PrintT("@" \o ToJson([in |-> [sig |-> SetToSeq(sig)], out |-> SetToSeq(out')]))
Spec == Init /\ [][Next]_<<sig, out, done>>
\* the identity is an equivalence by construction; it never ignores a designated part
Faithful == done => \A a, b \in out : a.id = b.id =>
               /\ a.r.url = b.r.url /\ a.r.body = b.r.body
               /\ ("x1" \in sig => a.r.x1 = b.r.x1)
=============================================================================
