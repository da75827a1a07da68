-------------------------------- MODULE Hooks --------------------------------
(* P33: scripts see requests as they are, and what they return is what happens.

   A request is about to go out. The function of its onRequest hook sees it and returns a
   request (which is sent instead), a response (which is used instead of the upstream's), or
   something that is neither. The function of the onResponseBody hook sees the body of the
   answer and returns the one to use. A response of the script that says "moved" makes
   the request, with its path replaced, start over.                                       *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Family, Values, Paths
VARIABLES c, done
\* what is in a request: query and headers are sequences of pairs, "" is no body, no header, the port of the scheme
Req(m, s, p, path, q, h, b) == [m |-> m, scheme |-> s, host |-> "up", port |-> p, path |-> path, query |-> q, h |-> h, body |-> b]
Query(v) == {<< >>} \cup {<< <<"q", x>> >> : x \in v} \cup {<< <<"q", x>>, <<"r", y>> >> : x, y \in v}
Twice == {<< <<"q", "1">>, <<"q", "2">> >>, << <<"q", "1">>, <<"q", "1">> >>}
Headers == {<< >>, << <<"x-a", "1">> >>, << <<"x-a", "1, 2">>, <<"x-b", "b">> >>}
Plain == Req("GET", "http", "", "/p", << >>, << >>, "")
Requests ==
   {Req(m, s, p, "/p", << <<"q", "1">> >>, h, b) : m \in {"GET", "POST", "DELETE"}, s \in {"http", "https"}, p \in {"", "81"}, h \in Headers, b \in {"", "text"}}
   \cup {Req("GET", "http", p, path, q, << >>, "") : p \in {"", "81"}, path \in Paths, q \in Query(Values)}
   \cup {Req("GET", "http", "", "/p", q, << >>, "") : q \in Twice}
Sane(r) == r.m = "GET" => r.body = ""
Few == {Plain, Req("POST", "https", "81", "/p/q", << <<"q", "1">>, <<"r", "2">> >>, << <<"x-a", "1">> >>, "text")}
\* functions of scripts
Edits == {"path", "addquery", "dropquery", "setquery", "host", "port", "noport", "scheme", "method", "addheader", "setheader", "dropheaders", "body", "nobody", "fresh"}
Answers == {"answer", "answertext", "answernothing"}
Nothing == {"throw", "undefined", "null"}
Wrong == {"number", "text", "empty", "array", "nourl", "badstatus", "badmethod", "badheader", "badport", "badscheme", "badqueryvalue", "missing", "badanswer"}
OnRequest == {"none", "same", "seen", "moved", "movedodd", "movedtwice", "both"} \cup Edits \cup Answers \cup Nothing \cup Wrong
OnResponse == {"none", "wrap", "id", "null", "throwing", "nothing", "nojson", "absent"}
\* a resolver in a script gets the value of its parent as text and returns text
Texts == {"1", "-0.5", "1e300", "9007199254740993", "18446744073709551615", "true", "null", "\"\"", "\"a\\\"b\"", "\"\\u0000\\n\"", "\"\\ud83d\\ude80\"", "[]", "{}",
          "[1, null, \"x\"]", "{\"a\": {\"b\": [1, {\"c\": null}]}, \"\": 2}"}
Resolvers == {"id", "wrap", "null", "throwing", "nothing", "nojson", "number", "absent"}
Big == {"9007199254740993", "18446744073709551615"}
Resolved(x) == CASE x.f = "id" -> "same" [] x.f = "wrap" -> IF x.text \in Big THEN "open" ELSE "wrapped" [] x.f = "null" -> "null" [] OTHER -> "error"
Cases == CASE Family = "values" -> {[text |-> t, f |-> f] : t \in Texts, f \in Resolvers}
           [] Family = "requests" -> {[req |-> r, f |-> f, g |-> "none", batch |-> FALSE] : r \in {x \in Requests : Sane(x)}, f \in {"none", "same", "seen", "addheader"}}
           [] OTHER -> {[req |-> r, f |-> f, g |-> g, batch |-> b] : r \in Few, f \in OnRequest, g \in OnResponse, b \in BOOLEAN}
Init == c \in Cases /\ done = FALSE
Set(s, k, v) == SelectSeq(s, LAMBDA p : p[1] # k) \o << <<k, v>> >>
Edit(r, f) ==
   CASE f = "path" -> [r EXCEPT !.path = "/new/x"]
     [] f = "addquery" -> [r EXCEPT !.query = Set(@, "n", "a&b=c d%")]
     [] f = "setquery" -> [r EXCEPT !.query = Set(@, "q", "changed")]
     [] f = "dropquery" -> [r EXCEPT !.query = << >>]
     [] f = "host" -> [r EXCEPT !.host = "other"]
     [] f = "port" -> [r EXCEPT !.port = "99"]
     [] f = "noport" -> [r EXCEPT !.port = ""]
     [] f = "scheme" -> [r EXCEPT !.scheme = IF @ = "http" THEN "https" ELSE "http"]
     [] f = "method" -> [r EXCEPT !.m = "PUT"]
     [] f = "addheader" -> [r EXCEPT !.h = Set(@, "x-n", "new")]
     [] f = "setheader" -> [r EXCEPT !.h = Set(@, "x-a", "changed")]
     [] f = "dropheaders" -> [r EXCEPT !.h = << >>]
     [] f = "body" -> [r EXCEPT !.body = "changed"]
     [] f = "nobody" -> [r EXCEPT !.body = ""]
     [] f = "fresh" -> Req("PUT", "https", "44", "/fresh", << <<"z", "1">> >>, << <<"x-z", "z">> >>, "fresh")
     [] OTHER -> r
\* [calls: what is sent, answer: where the body comes from]
Run(r, f) ==
   CASE f \in {"none", "same", "both"} \cup Edits -> [calls |-> <<Edit(r, f)>>, answer |-> "upstream", saw |-> r]
     [] f = "seen" -> [calls |-> << >>, answer |-> "seen", saw |-> r]
     [] f \in {"moved", "movedodd"} -> [calls |-> <<[r EXCEPT !.path = "/moved"]>>, answer |-> "upstream", saw |-> r]
     [] f = "movedtwice" -> [calls |-> <<[r EXCEPT !.path = "/moved/again"]>>, answer |-> "upstream", saw |-> r]
     [] f \in {"answer", "answernothing"} -> [calls |-> << >>, answer |-> IF f = "answer" THEN "script" ELSE "error", saw |-> r]
     [] f = "answertext" -> [calls |-> << >>, answer |-> "error", saw |-> r]
     [] f \in Nothing -> [calls |-> <<r>>, answer |-> "either", saw |-> r]
     [] OTHER -> [calls |-> << >>, answer |-> "error", saw |-> r]
Finish(a, g) ==
   IF a = "error" \/ g \in {"throwing", "nothing", "nojson", "absent"} THEN [from |-> IF a = "either" THEN "error" ELSE "error", wrapped |-> FALSE]
   ELSE [from |-> IF g = "null" THEN "null" ELSE a, wrapped |-> g = "wrap"]
Out(x) == LET o == Run(x.req, x.f) IN [calls |-> o.calls, maybe |-> x.f \in Nothing, saw |-> o.saw, answer |-> Finish(o.answer, x.g)]
Next == done' = TRUE /\ ~done /\ UNCHANGED c /\ PrintT("@" \o ToJson([in |-> c, out |-> IF Family = "values" THEN Resolved(c) ELSE Out(c)]))
Spec == Init /\ [][Next]_<<c, done>>
\* a hook that returns what it got might as well not be there; at most one call goes out
Transparent == (done /\ Family # "values") => Out([c EXCEPT !.f = "same"]) = Out([c EXCEPT !.f = "none"])
Once == (done /\ Family # "values") => Len(Out(c).calls) <= 1
Unchanged == (done /\ Family # "values" /\ c.g = "id") => Out(c).answer = Out([c EXCEPT !.g = "none"]).answer
=============================================================================
