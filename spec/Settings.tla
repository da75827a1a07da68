-------------------------------- MODULE Settings --------------------------------
(* The settings of a configuration: [n, k, g, d] with path, kind, group and default (<<>> or <<value>>).
   A source gives values to some of them: one entry for each setting, <<>> or <<value>>. *)
EXTENDS Naturals, Sequences
S(n, k, g) == [n |-> n, k |-> k, g |-> g, d |-> <<>>]
D(n, k, g, d) == [n |-> n, k |-> k, g |-> g, d |-> <<d>>]
Many(p, k, g, names) == [i \in 1..Len(names) |-> S(p \o names[i], k, g)]
Table ==
  Many("server.", "last", "", <<"apolloTracing", "batchRequests", "globalResponseTimeout", "hostname", "introspection", "enableFederation", "pipelineFlush",
       "port", "queryValidation", "responseValidation", "script.timeout", "showcase", "version", "workers", "headers.cacheControl", "headers.setCookies">>)
  \o <<S("server.vars", "kv", ""), S("server.headers.custom", "append", ""), S("server.headers.experimental", "set", ""),
       D("server.routes.status", "last", "routes", "d"), D("server.routes.graphQL", "last", "routes", "d")>>
  \o Many("server.headers.cors.", "last", "cors", <<"allowCredentials", "allowPrivateNetwork", "maxAge">>)
  \o Many("server.headers.cors.", "append", "cors", <<"allowHeaders", "allowMethods", "allowOrigins", "exposeHeaders">>)
  \o <<D("server.headers.cors.vary", "append", "cors", <<"d">>)>>
  \o Many("upstream.", "last", "upstream", <<"onRequest", "connectTimeout", "httpCache", "http2Only", "keepAliveInterval", "keepAliveTimeout", "keepAliveWhileIdle",
       "poolMaxIdlePerHost", "poolIdleTimeout", "proxy.url", "tcpKeepAlive", "timeout", "userAgent">>)
  \o <<S("upstream.allowedHeaders", "set", "upstream"), S("upstream.batch.maxSize", "last", "upstream batch"), S("upstream.batch.headers", "set", "upstream batch"),
       D("upstream.batch.delay", "last", "upstream batch", "d"), D("upstream.verifySSL", "last", "upstream", "d")>>
  \o <<S("telemetry.export", "last", ""), S("telemetry.requestHeaders", "append", ""), S("links", "append", "")>>
  \o Many("schema.", "last", "sdl", <<"query", "mutation">>)
  \o Many("T.", "last", "sdl", <<"f", "g", "doc", "cache">>)
  \o <<S("T.protected", "append", "sdl"), S("T.implements", "set", "sdl"), S("T.added", "append", "sdl"), S("E.variants", "set", "sdl"), S("E.doc", "last", "sdl"), S("U.types", "set", "sdl"), S("U.doc", "last", "sdl"),
       S("I.f", "last", "sdl")>>
N == Len(Table)
\* the values a source can give: 1, 2 (and 3: an empty list or set)
Val(k, x) == CASE k = "last" -> (IF x = 1 THEN "1" ELSE "2")
               [] k = "kv" -> (CASE x = 1 -> << <<"b", "1">>, <<"a", "1">> >> [] x = 2 -> << <<"b", "9">>, <<"c", "2">>, <<"b", "">> >> [] OTHER -> <<>>)
               [] OTHER -> (CASE x = 1 -> <<"2", "1">> [] x = 2 -> <<"1", "3">> [] OTHER -> <<>>)
ValueNos(k) == IF k = "last" THEN 0..2 ELSE 0..3

Groups(g) == CASE g = "" -> {} [] g = "upstream batch" -> {"upstream", "batch"} [] OTHER -> {g}
SameGroup(a, b) == CASE a.n = "upstream.verifySSL" -> "upstream" \in Groups(b.g)
                     [] a.n = "upstream.batch.delay" -> "batch" \in Groups(b.g)
                     [] OTHER -> a.g = b.g
Complete(src) == [i \in 1..N |->  IF src[i] = <<>> /\ Table[i].d # <<>> /\ \E j \in 1..N : src[j] # <<>> /\ SameGroup(Table[i], Table[j]) THEN Table[i].d ELSE src[i]]
=============================================================================
