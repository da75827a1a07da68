------------------------------- MODULE Routing ---------------------------------
(* P27: which answer a request gets: by its method and path (family "path"), by its body (family "body"),
   by the operations of a batch (family "batch"), by the text of an application/graphql body (family "text");
   n fragments of which each spreads the next one are answered whatever n is (family "chain"). *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Family, MaxBatch, MaxText, Few
VARIABLES c, done

\* ---- paths
Paths == {"/graphql", "/gql", "/api/graphql", "/status", "/health", "/api/status", "/metrics", "/api/metrics", "/showcase/graphql",
          "/api/x", "/api/y", "/api", "/apix", "/", "/graphql/", "/graphqlx", "/GraphQL", "//graphql", "/nope"}
Methods == {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}
Tails == {"", "?a=1"}
PathReqs == SetToSeq([m : Methods, p : Paths, t : Tails])
Cfgs == [gql : {"/graphql", "/gql", "/api/graphql"}, status : {"/status", "/health", "/api/status"}, metrics : IF Few THEN {"", "/api/metrics"} ELSE {"", "/metrics", "/api/metrics", "/graphql"},
         rest : BOOLEAN, showcase : BOOLEAN, batch : IF Few THEN {TRUE} ELSE BOOLEAN]
Route(k, r) == CASE r.m = "POST" /\ r.p = k.gql -> "query"
                 [] r.m = "GET" /\ r.p = k.status -> "status"
                 [] r.m = "GET" /\ k.metrics # "" /\ r.p = k.metrics -> "metrics"
                 [] r.m = "GET" /\ r.p = "/api/x" /\ k.rest -> "rest"
                 [] r.m = "POST" /\ r.p = "/showcase/graphql" /\ k.showcase -> "showcase"
                 [] OTHER -> "none"

\* ---- bodies: an element is one request object; what it answers when alone, and the upstream calls it makes
Answer == [a |-> <<"data", "a">>, alias |-> <<"data", "alias">>, mut |-> <<"data", "m">>, var |-> <<"data", "echo">>, op |-> <<"data", "alias">>, frag |-> <<"data", "a">>,
           extra |-> <<"data", "a">>, varsnull |-> <<"data", "a">>, opnull |-> <<"data", "a">>, intro |-> <<"data", "intro">>, name |-> <<"data", "name">>, fail |-> <<"partial", "f">>, unused |-> <<"data", "a">>,
           novar |-> <<"error", "">>, bad |-> <<"error", "">>, noop |-> <<"error", "">>, unkop |-> <<"error", "">>, cycle |-> <<"error", "">>, cycle2 |-> <<"error", "">>, cycle3 |-> <<"error", "">>,
           cycle4 |-> <<"error", "">>, deep |-> <<"error", "">>, dup |-> <<"error", "">>, noexec |-> <<"error", "">>, sub |-> <<"error", "">>, emptyobj |-> <<"error", "">>]
Elements == DOMAIN Answer
Malformed == {"nullq", "numq", "varslist", "varsnum", "num", "str", "null", "true", "opnum"}
Calls == [a |-> "a", alias |-> "a", mut |-> "m", op |-> "a", frag |-> "a", extra |-> "a", varsnull |-> "a", opnull |-> "a", fail |-> "f", unused |-> "a"]
CallsOf(e) == IF e \in DOMAIN Calls THEN <<Calls[e]>> ELSE <<>>
Error == [kind |-> "error", answers |-> <<>>, calls |-> <<>>]
Single(e) == IF e \in Malformed THEN Error ELSE [kind |-> "single", answers |-> <<Answer[e]>>, calls |-> CallsOf(e)]
Batch(es, on) == IF ~on \/ es = <<>> \/ (\E j \in 1..Len(es) : es[j] \in Malformed) THEN Error
                 ELSE [kind |-> "batch", answers |-> [j \in 1..Len(es) |-> Answer[es[j]]], calls |-> FlattenSeq([j \in 1..Len(es) |-> CallsOf(es[j])])]
Broken == {"", "open", "trail", "twice", "text", "utf8", "nul", "long", "nested", "nested2", "comma"}      \* bodies that are no request whatever is switched on
Types == {"", "application/json", "application/json; charset=utf-8", "text/plain"}
Bodies == {<<"one", <<e>>>> : e \in Elements \cup Malformed} \cup {<<"broken", <<b>>>> : b \in Broken} \cup {<<"list", <<e>>>> : e \in (Elements \cup Malformed) \ {"str"}} \cup {<<"list", <<>>>>}  \* a list of one text is left open
OfBody(b, on) == CASE b[1] = "one" -> Single(b[2][1]) [] b[1] = "broken" -> Error [] OTHER -> Batch(b[2], on)

\* ---- batches
Pool == {"a", "mut", "var", "fail", "bad", "intro", "cycle", "novar", "alias", "null", "op"}
Lists == UNION {[1..n -> Pool] : n \in 1..MaxBatch}

\* ---- texts: the pieces of a string literal and what they denote (<<>>: not allowed there)
Den == [q |-> <<"q">>, esc |-> <<"nl">>, quote |-> <<"quo">>, slash |-> <<"bs">>, uni |-> <<"uml">>, wide |-> <<"zws">>, astral |-> <<"smile">>, hex |-> <<"A">>, brace |-> <<"brace">>, hash |-> <<"#">>, del |-> <<"del">>,
        newline |-> <<>>, close |-> <<>>, badesc |-> <<>>]
Texts == UNION {[1..n -> DOMAIN Den] : n \in 0..MaxText}
TextOut(t) == IF \E j \in 1..Len(t) : Den[t[j]] = <<>> THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> FlattenSeq([j \in 1..Len(t) |-> Den[t[j]]])]

Inputs == CASE Family = "path" -> [kind : {"path"}, cfg : Cfgs]
            [] Family = "body" -> [kind : {"body"}, on : BOOLEAN, ct : Types]
            [] Family = "batch" -> [kind : {"batch"}, es : Lists]
            [] Family = "chain" -> [kind : {"chain"}, n : {1, 50, 500, 20000}, via : {"spread", "field"}]
            [] OTHER -> [kind : {"text"}, t : Texts, on : BOOLEAN]
AllBodies == SetToSeq(Bodies)
Out == CASE c.kind = "path" -> [reqs |-> PathReqs, out |-> [j \in 1..Len(PathReqs) |-> Route(c.cfg, PathReqs[j])]]
         [] c.kind = "body" -> [reqs |-> AllBodies, out |-> [j \in 1..Len(AllBodies) |-> OfBody(AllBodies[j], c.on)]]
         [] c.kind = "batch" -> [reqs |-> <<>>, out |-> <<Batch(c.es, TRUE)>>]
         [] c.kind = "chain" -> [reqs |-> <<>>, out |-> <<IF c.via = "spread" THEN <<"data", "a">> ELSE <<"data", "u">>>>]
         [] OTHER -> [reqs |-> <<>>, out |-> <<TextOut(c.t)>>]
Init == done = FALSE /\ c \in Inputs
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> Out]))
Spec == Init /\ [][Next]_<<c, done>>
(* laws: every request gets exactly one answer; another route, metrics or REST switched on never takes a query away;
   an answered batch is as long as the request, and an answer does not depend on the other elements *)
OneAnswer == done /\ c.kind = "path" => \A j \in 1..Len(PathReqs) : Route(c.cfg, PathReqs[j]) \in {"query", "status", "metrics", "rest", "showcase", "none"}
QueryStays == done /\ c.kind = "path" => \A j \in 1..Len(PathReqs) : Route(c.cfg, PathReqs[j]) = "query" => Route([c.cfg EXCEPT !.metrics = "", !.rest = FALSE, !.showcase = FALSE], PathReqs[j]) = "query"
Positions == done /\ c.kind = "batch" => LET o == Batch(c.es, TRUE) IN o.kind = "batch" => Len(o.answers) = Len(c.es) /\ \A j \in 1..Len(c.es) : <<o.answers[j]>> = Single(c.es[j]).answers
=============================================================================
