# Source of properties.jsonl: run tools/gen_meta.py after editing.
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=files.split(),
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=hook))

PROPS = [
P("P01", "Concurrent identical requests share one execution",
  "While an execution for a key is in flight, every other request for that key waits for it and receives exactly its result (success or failure) and starts no execution of its own; different keys never wait for or see each other. If the executing request is abandoned before it finishes, exactly one of the waiting requests takes over, so no waiter is lost, hung or answered without a completed execution. After completion a non-remembering coalescer executes afresh for the next request, while a remembering one keeps answering with the first completed result without executing again.",
  "schedules fault_sequences", "every interleaving of arrivals, completions (ok or error) and abandonments of requests, over several keys and both retention modes",
  "the tests run a handful of fixed schedules (one drop, equal delays); the guarantee is over every interleaving of arrival, completion and cancellation",
  "src/core/data_loader/dedupe.rs src/core/ir/eval_io.rs",
  [("one broadcast sender per in-flight key, weakly referenced", "src/core/data_loader/dedupe.rs"), ("retry loop on closed channel", "src/core/data_loader/dedupe.rs")],
  ["return values of coalesced calls", "number of executions started"],
  [("cache", "per key: nothing, in flight, or stored result", "src/core/data_loader/dedupe.rs")]),
P("P02", "Batching loader: every caller gets exactly its keys, each batch fetched once",
  "Every load request completes with exactly the values the upstream returned for the keys it asked for (absent keys stay absent, nobody else's keys appear), and a failed batch fails exactly the requests it carried. Keys requested within one batching window are fetched together in a single upstream call in which each distinct key appears once; a batch is sent when the window closes, or at once when the pending distinct keys reach the configured maximum, and no request is sent twice, dropped or left pending. This holds whichever requests are abandoned by their callers.",
  "schedules inputs fault_sequences", "every interleaving of load calls with overlapping key sets, window expiries, upstream completions (ok, partial, error) in any order, and abandoned callers",
  "the tests use one all-succeeding echo loader and never observe two outstanding batches, partial results, failures or cancellations",
  "src/core/data_loader/data_loader.rs",
  [("keys/pending taken together under one lock", "src/core/data_loader/data_loader.rs"), ("first key of a window schedules the fetch", "src/core/data_loader/data_loader.rs")],
  ["results of load_one/load_many", "key sets passed to the loader"],
  [("requests", "keys and waiters of the open window", "src/core/data_loader/data_loader.rs")]),
P("P03", "Batching loader cache answers what was last fetched or fed",
  "With caching on, a key that was successfully fetched or explicitly fed, and neither cleared nor evicted since, is answered from the cache with its latest value and is not fetched again, and a request mixing cached and uncached keys fetches only the uncached ones and returns both. Disabling the cache (for one loader or all) makes every key be fetched and nothing be stored, without forgetting what was stored before; clearing empties it; a bounded cache evicts only the least recently used entries beyond its capacity. Failed fetches and keys absent from the upstream answer are never cached.",
  "histories configurations", "every history of load, feed, clear, enable/disable and batch completion, for the unbounded and the bounded cache",
  "the tests check one feed/clear/disable sequence with a loader that returns every key; histories where a switch flips while a batch is in flight, partial answers or evictions are not reached",
  "src/core/data_loader/data_loader.rs src/core/data_loader/cache.rs src/core/data_loader/storage.rs",
  [("cache consulted and filled under the request lock", "src/core/data_loader/data_loader.rs"), ("LRU storage", "src/core/data_loader/cache.rs")],
  ["results and fetched keys", "get_cached_values"],
  [("cache_storage", "key to last value", "src/core/data_loader/data_loader.rs")]),
P("P04", "Expiring cache returns the last live value and truthful hit statistics",
  "A lookup returns the value most recently stored under that key if its time-to-live has not elapsed, and nothing once it has elapsed, independent of other keys; storing again replaces both value and expiry. Capacity bounds the number of live entries and an insertion beyond it evicts the oldest entries only. The reported hit rate is exactly hits divided by lookups, and undefined before the first lookup.",
  "histories", "every history of set (with any ttl), get and time passing over several keys and capacities",
  "one test sets, overwrites and sleeps once on one key",
  "src/core/cache/cache.rs",
  [("ttl map with lazy expiry", "src/core/cache/cache.rs"), ("atomic hit and miss counters", "src/core/cache/cache.rs")],
  ["get/set results", "hit_rate"], [("data", "key to value and deadline", "src/core/cache/cache.rs")]),
P("P05", "Stored HTTP responses: last put wins, deletes delete, LRU bound",
  "The response store answers a lookup with the response and policy most recently put under that key, and with nothing if the key was never put, was deleted, cleared or evicted. It never holds more than its capacity; what goes is always the least recently used entry, where lookups and puts both count as use. Operations on one key never disturb another key.",
  "histories configurations", "every history of put, get, delete and clear over several keys and capacities",
  "the tests check one put, one delete, one eviction with two entries and no refresh by lookup",
  "tailcall-http-cache/src/cache.rs tailcall-http-cache/src/lib.rs",
  [("moka cache with a weigher and LRU policy", "tailcall-http-cache/src/cache.rs")],
  ["CacheManager put/get/delete results"]),
P("P06", "Requests are identified as equal only when interchangeable",
  "Two upstream requests are treated as the same request (for batching) exactly when they agree on the URL, the body and the values of every header designated as significant: differences in other headers never split them, and a difference in URL, body, or in the presence or value of a designated header always does. Equality is an equivalence relation, survives copying, and equal requests always hash alike. Cache identities derived for configured HTTP, GraphQL and gRPC calls differ whenever the rendered URL, method, body, configured headers or forwarded headers differ.",
  "inputs", "all pairs of requests over small sets of URLs, methods, bodies, headers and designated header lists",
  "tests compare a few hand-picked pairs; the guarantee is over all pairs and all designated header sets",
  "src/core/http/data_loader_request.rs src/core/http/request_template.rs src/core/graphql/request_template.rs src/core/grpc/request_template.rs src/core/ir/model.rs",
  [("Hash and Eq over url, body, significant headers", "src/core/http/data_loader_request.rs"), ("cache_key of the request templates", "src/core/http/request_template.rs")],
  ["equality and hash of request keys", "cache keys"]),
P("P07", "Batched HTTP answers are distributed to the requests that asked",
  "When several requests are merged into one batched upstream call, each request receives exactly the records of the answer whose grouping key equals its own id (all of them when a list is expected, one otherwise), null or an empty list when there is none, and never a record belonging to another id. Ids are compared by value, whatever their JSON type or size. A failed batched call fails every request it carried and no other.",
  "inputs schedules", "every set of concurrent ids and every upstream answer (reordered, missing, duplicated, extra records, numeric and string ids, nested path) for GET and POST batching",
  "the existing tests of this module do not run in this build, and fixtures use distinct small ids with complete answers",
  "src/core/http/data_loader.rs src/core/json/graphql.rs src/core/json/serde.rs src/core/json/mod.rs src/core/http/transformations/query_batching.rs src/core/http/transformations/body_batching.rs",
  [("group_by on the answer path", "src/core/json/mod.rs"), ("per-id lookup in the grouped map", "src/core/http/data_loader.rs")],
  ["values returned to each request", "upstream calls made"]),
P("P08", "The merged upstream call asks for exactly the union of its parts",
  "For GET batching the merged URL is that of the first request followed by the grouping parameters of every other request, in request order, with none lost, duplicated, re-encoded to another value or borrowed from other parameters. For body batching the merged body is the JSON list of the requests' bodies in order, each exactly once and unchanged, and requests without a body contribute nothing. A single request passes through with its meaning unchanged.",
  "inputs", "all short sequences of requests over several parameters, special characters, empty and absent values and bodies",
  "tests fix seven examples of two or three requests",
  "src/core/http/transformations/query_batching.rs src/core/http/transformations/body_batching.rs src/core/http/data_loader.rs",
  [("QueryBatching transformer", "src/core/http/transformations/query_batching.rs"), ("BodyBatching transformer", "src/core/http/transformations/body_batching.rs")],
  ["URL and body of the upstream call"]),

P("P09", "JSON path, grouping and list operations follow the data",
  "Looking up a path in JSON descends objects by key and lists by index, and yields nothing exactly when a step does not exist. Collecting all matches of a path visits every element of every list on the way, in document order, each exactly once and paired with its containing record, and grouping records by a key path puts every record into the group of its own key and into no other, preserving order. Mapping or iterating over nested lists applies the operation to each leaf exactly once, keeps the nesting, and stops at the first failure with that failure. Setting a key of an object changes that key only, a value is read as text, number, boolean, list or object exactly when it is one, and a copy in another representation is the same value.",
  "inputs", "all JSON documents and paths up to a bounded depth and width, in every JSON representation the gateway uses",
  "tests use three fixed documents",
  "src/core/json/mod.rs src/core/json/json_like_list.rs src/core/json/graphql.rs src/core/json/serde.rs src/core/json/borrow.rs src/core/json/json_like.rs src/core/path.rs",
  [("gather_path_matches and group_by_key", "src/core/json/mod.rs"), ("JsonLikeList map, map_ref, for_each", "src/core/json/json_like_list.rs")],
  ["return values of the JSON operations"]),
P("P10", "Templates render exactly their literals and the referenced values",
  "A template consists of its literal text with each well formed expression replaced by the value it refers to (request arguments, parent value, headers, configuration variables or environment), and by nothing when there is no such value; text without an expression, or containing a malformed one, is kept literally. Whitespace inside an expression and its optional leading dot do not matter, and writing a parsed template back and parsing it again yields the same template. A template is constant exactly when it contains no expression.",
  "inputs", "all templates up to a bounded number of literal, well formed and malformed pieces, over all environments of present, absent, nested and non-string values",
  "tests fix some twenty strings",
  "src/core/mustache/parse.rs src/core/mustache/model.rs src/core/mustache/eval.rs src/core/path.rs src/core/ir/eval_context.rs",
  [("nom parser with literal fallback", "src/core/mustache/parse.rs"), ("PathEval over the path accessors", "src/core/mustache/eval.rs")],
  ["rendered strings", "parsed segments"]),
P("P11", "Merging values is right-biased, keyed and associative",
  "Merging two values keeps everything either side has and lets the right side win where both define the same scalar: an absent right side changes nothing, lists concatenate left before right, sets unite, maps and objects merge entry by entry without disturbing entries that only one side has. Something that is not a list is appended when merged onto a list. Merging values of one shape is associative, and merging with an empty value of that shape on either side is the identity.",
  "inputs", "all pairs and triples of small optional, list, set, map and nested JSON/YAML/GraphQL values",
  "tests pick one pair per container",
  "src/core/merge_right.rs tailcall-macros/src/merge_right.rs src/core/primitive.rs src/core/config/key_values.rs",
  [("MergeRight instances", "src/core/merge_right.rs"), ("derive macro", "tailcall-macros/src/merge_right.rs")],
  ["result of merge_right"]),
P("P12", "Merging configurations keeps both and lets the later override",
  "When several configuration sources are combined, each server, upstream, telemetry and type setting has the value of the last source that sets it, settings set nowhere keep their defaults, variables merge by key, and lists of headers, origins and links accumulate (a default within a group of settings, such as the routes, counts as set by the source that gives the group). Types, fields, enum values and union members of all sources are present in the result, and a field defined by several sources is the last one's. Combining in groups gives the same result as combining one by one.",
  "configurations", "all sequences of up to three small configurations over every mergeable setting, including unset and empty ones",
  "tests merge a few hand-written server and upstream blocks",
  "src/core/config/directives/server.rs src/core/config/directives/upstream.rs src/core/config/directives/telemetry.rs src/core/config/config.rs src/core/config/headers.rs src/core/config/cors.rs src/core/config/key_values.rs src/core/merge_right.rs tailcall-macros/src/merge_right.rs",
  [("derived MergeRight on configuration structures", "tailcall-macros/src/merge_right.rs")],
  ["merged configuration"]),
P("P13", "Validation reports every failure and composes in order",
  "Composed configuration steps run in order, each on the result of what it is composed after; a failing part leaves the state as it was given and does not stop the later ones from being run and reporting. The composition succeeds exactly when every step does, with a result that does not depend on how the steps are grouped, and otherwise reports all failures, each once, in order, with the location trail under which each occurred. Composing with the empty step changes nothing.",
  "programs", "all compositions, of up to four steps, of succeeding, failing, transforming, updating and traced steps in every grouping",
  "tests evaluate single fixed chains",
  "src/core/try_fold.rs",
  [("TryFold::and, transform, update, trace, from_iter", "src/core/try_fold.rs")],
  ["result and accumulated errors of a composed step"]),
P("P14", "Abstract results resolve to exactly one declared type or an error",
  "A value of an interface or union type resolves to the concrete declared member its data names: by its type field, or by the single key that is a member's name. Null stays null; values that name no declared member, more than one, or a non-string are answered with an error and never with an arbitrary member, and a value already resolved keeps its resolution. The response's type name and the chosen fragments agree with that resolution, for every element of nested lists.",
  "inputs", "all small values (scalars, objects with member-like, foreign, several or no keys, nulls, nested lists) for both resolution modes",
  "tests cover about ten values, not nested lists nor ambiguous ones",
  "src/core/ir/discriminator.rs src/core/ir/discriminator/keyed_discriminator.rs src/core/ir/discriminator/type_field_discriminator.rs src/core/jit/exec.rs",
  [("KeyedDiscriminator", "src/core/ir/discriminator/keyed_discriminator.rs"), ("TypeFieldDiscriminator", "src/core/ir/discriminator/type_field_discriminator.rs")],
  ["__typename and selected fields in responses", "errors"]),
P("P15", "Custom scalars accept exactly the values of their domain",
  "Each built-in scalar accepts a value exactly when it lies in that scalar's documented domain: sized integers only whole numbers within their range, wide integers only their decimal string form within range, and e-mail, phone, date, URL and byte scalars only well formed strings; everything else, including boundary plus one, fractions, numeric strings for small integers and numbers for wide ones, null and structures, is rejected.",
  "inputs", "every scalar against every boundary, off-by-one and wrong-kind value",
  "tests check one or two values per scalar and no boundary",
  "src/core/scalar.rs",
  [("Scalar::validate", "src/core/scalar.rs")], ["accept or reject"]),
P("P16", "Combining subgraph schemas yields a contract both sides can honour",
  "When two subgraphs define the same type, an output position becomes nullable if either allows null and keeps the fields of both, an input position becomes required if either requires it and keeps only common fields, enumerations and arguments follow the position they are used in, and list nesting must agree. Incompatible definitions, or a required input that the other side does not know, are reported as errors rather than silently resolved.",
  "configurations", "all pairs of small schemas over nullability, nesting, argument and field presence and usage position",
  "tests of this module do not run in this build; fixtures check a few pairs",
  "src/core/config/transformer/subgraph.rs src/core/variance.rs src/core/wrapping_type.rs src/core/config/config_module/merge.rs",
  [("Contravariant shrink and Covariant expand", "src/core/config/config_module/merge.rs")],
  ["merged schema or error"]),
P("P17", "Configuration written out and read back means the same",
  "Printing any configuration as SDL and reading it back yields the same configuration: every type, field, argument, default, directive, description (up to white space) and nullability survives and none is added; types are written as the kind (type, interface, input, scalar) their use asks for. A directive is readable exactly when its required arguments are given, each argument has a value it takes and, for directives that do not allow others, no other is given; values equal to a default mean the same as none. The settings of the gateway survive in SDL, JSON and YAML alike.",
  "configurations", "all small configurations built from every directive, type kind, wrapping and default value",
  "snapshot tests fix a number of documents; the guarantee is over all combinations",
  "src/core/config/from_document.rs src/core/config/into_document.rs src/core/config/directive.rs src/core/directive.rs src/core/config/source.rs src/core/wrapping_type.rs src/core/document.rs",
  [("DirectiveCodec", "src/core/directive.rs"), ("from_document / into_document", "src/core/config/into_document.rs")],
  ["Config::to_sdl / from source"]),
P("P18", "REST endpoints match exactly the requests they describe",
  "A REST request is served by an endpoint exactly when method and path agree segment by segment, with the same number of segments, and every path and query parameter present converts to the declared type of the variable it is bound to; its variables are then exactly the converted values, plus the body where one is declared. Any other request matches no endpoint, and of several matching endpoints the first declared answers. The response is the queried data in its field shape.",
  "inputs configurations", "all requests (methods, short, long and doubled paths, parameter values of every type, missing and extra parameters) against all small endpoint sets",
  "tests match a handful of paths, none with a different number of segments; the endpoint tests do not run in this build",
  "src/core/rest/path.rs src/core/rest/query_params.rs src/core/rest/typed_variables.rs src/core/rest/type_map.rs src/core/rest/endpoint.rs src/core/rest/endpoint_set.rs src/core/rest/directive.rs src/core/http/request_handler.rs",
  [("Path::matches", "src/core/rest/path.rs"), ("QueryParams::matches", "src/core/rest/query_params.rs"), ("EndpointSet::matches", "src/core/rest/endpoint_set.rs")],
  ["matched endpoint and variables", "HTTP response"]),
P("P19", "Cross-origin headers grant exactly what is configured",
  "A cross-origin response names an allowed origin only if the request's origin is listed or the wildcard is configured, and never another origin; credentials, methods, headers, exposed headers, max-age and private-network permission appear exactly when configured (and, for private network, requested), and vary is always carried. Preflights are answered without executing the query, every other request is answered with the cross-origin headers added. Configurations that combine credentials with a wildcard are refused.",
  "configurations inputs", "all cross-origin configurations crossed with all relevant requests",
  "no test of this behaviour runs in this build",
  "src/core/blueprint/cors.rs src/core/config/cors.rs src/core/http/request_handler.rs",
  [("Cors to-header functions", "src/core/blueprint/cors.rs"), ("handle_request_with_cors", "src/core/http/request_handler.rs")],
  ["response headers", "configuration errors"]),
P("P20", "Authentication decisions follow the combination of providers",
  "A request passes protection exactly when the boolean combination of its configured providers accepts its credentials: with alternatives one acceptance suffices, with several required all must accept. A refusal reports the most specific reason among alternatives and the first failure among required ones, and what one provider decides never depends on earlier requests.",
  "inputs configurations", "all and/or combinations up to three providers of both kinds with valid, invalid, missing and malformed credentials",
  "the existing tests of combinations do not run in this build",
  "src/core/auth/verification.rs src/core/auth/error.rs src/core/auth/verify.rs src/core/auth/basic.rs src/core/auth/jwt/jwt_verify.rs",
  [("Verification or/and", "src/core/auth/verification.rs"), ("AuthVerifier", "src/core/auth/verify.rs")],
  ["errors in the response"]),
P("P21", "Protected data is never fetched or returned without valid credentials",
  "If a query selects any protected field, directly, nested, through a fragment or on a protected type, then without valid credentials the answer is an authorization error, no data is returned and no upstream call is made for it; with valid credentials it is answered as if unprotected. A field asks for the providers it, its type and the type of its value name, and for all of them where none is named. This holds regardless of earlier requests with other credentials, of response caching, request deduplication, variables and batching.",
  "histories inputs", "all histories of authorised and unauthorised requests over plans mixing protected and unprotected, constant and fetched fields",
  "fixtures run single requests; the leak needs an earlier authorised request or a particular mixture of fields",
  "src/core/jit/transform/check_protected.rs src/core/jit/transform/auth_planner.rs src/core/jit/graphql_executor.rs src/core/blueprint/operators/protected.rs src/core/ir/eval.rs src/core/async_graphql_hyper.rs",
  [("AuthPlanner", "src/core/jit/transform/auth_planner.rs"), ("CheckProtected guarding the response cache", "src/core/jit/transform/check_protected.rs")],
  ["responses", "upstream calls"]),
P("P22", "Answers do not depend on earlier requests",
  "Within one running gateway, the answer to a request is the same as a freshly started gateway would give for it with the same upstream data, whatever queries, variables, operation names or headers were sent before. Only data that the configuration declares cacheable may be reused, and only for requests for which it is the same data.",
  "histories", "all histories of up to three requests over queries with several operations, variables in skip/include and arguments, constants and cached fields",
  "fixtures start a fresh gateway per document and rarely repeat a query text with other variables or operation names",
  "src/core/jit/graphql_executor.rs src/core/app_context.rs src/core/async_graphql_hyper.rs src/core/jit/exec_const.rs src/core/ir/eval_io.rs",
  [("operation plan cache", "src/core/jit/graphql_executor.rs"), ("constant answer cache", "src/core/jit/graphql_executor.rs")],
  ["HTTP responses across a session"]),
P("P23", "Responses have exactly the requested shape",
  "The data of a response contains exactly the fields the operation selects, under their aliases and in selection order, recursively through fragments and lists of the same length and order as the data, and each with the value resolved for it; fields excluded by skip or include conditions, on the field or the fragment carrying it, are absent and not fetched. Variables and defaults are substituted by their coerced values, missing required ones are errors.",
  "inputs programs", "all operations up to a bounded size over a schema of scalars, objects, lists, arguments and abstract types, with every combination of aliases, fragments, skip/include and variables",
  "fixtures contain some hundred fixed operations; combinations (alias over nested resolvers, conditions on fragments) are sampled thinly",
  "src/core/jit/builder.rs src/core/jit/exec.rs src/core/jit/synth/synth.rs src/core/jit/transform/skip.rs src/core/jit/transform/input_resolver.rs src/core/jit/model.rs src/core/jit/context.rs",
  [("plan builder", "src/core/jit/builder.rs"), ("synthesis of the response from the store", "src/core/jit/synth/synth.rs")],
  ["response data"]),
P("P24", "A response never contains null at a non-null position",
  "A null at a nullable position stays null there, as does a value of another kind than the declared one (a list where none is declared or the reverse, no object where one is declared); its siblings, and all other positions, are answered as usual. The same at a non-null position, a value that the declared enumeration or custom scalar does not have, and a failing upstream fail the whole request: its data is null and its error's path leads to one of the places where that happened (a failing upstream is reported without one). Values in order for their types are never errors; values of the built-in scalars are passed on as the upstream sent them.",
  "inputs", "all small upstream values (null, wrong kind, foreign enum value, failure) at every position of nested list and object types of every nullability",
  "fixtures cover a few nullability combinations",
  "src/core/jit/synth/synth.rs src/core/jit/exec.rs src/core/jit/error.rs src/core/scalar.rs",
  [("null handling in synthesis", "src/core/jit/synth/synth.rs")], ["response data and errors"]),
P("P25", "Upstream calls: as many as needed, none twice, mutations in order",
  "Executing an operation performs for each selected field with a resolver exactly the upstream calls its configuration implies: one per parent value when unbatched, one per group when grouped, none when every needed value is constant, skipped or cached, and identical calls at the same time only once when deduplication or batching is on. Identical queries at the same time are executed once when all their root fields are deduplicated or cached. Root mutations take effect one after another in document order and are never deduplicated, cached or repeated, and a cached field calls upstream again only after its lifetime or for different arguments.",
  "inputs histories schedules", "all small operations over batched, unbatched, cached and deduplicated resolvers, alone, concurrently and repeated",
  "fixtures count calls in a few documents, one at a time",
  "src/core/jit/exec.rs src/core/ir/eval.rs src/core/ir/eval_io.rs src/core/http/data_loader.rs src/core/graphql/data_loader.rs src/core/jit/transform/check_dedupe.rs src/core/jit/transform/check_cache.rs",
  [("eval_io dedupe and data loaders", "src/core/ir/eval_io.rs"), ("sequential mutation execution", "src/core/jit/exec.rs")],
  ["log of upstream calls", "responses"]),
P("P26", "Only allow-listed client headers reach upstreams",
  "An upstream request carries the configured headers and those client headers, with their values, whose names are on the allow list, compared case-insensitively, and no other client header; responses carry the configured static headers, the forwarded cookies of all upstream answers when enabled, and a cache-control that is the most restrictive of the upstream answers. None of it leaks between concurrent or successive requests.",
  "inputs histories", "all small sets of client headers, allow lists and upstream response headers, over one or several upstream calls and requests",
  "fixtures check single requests with one or two headers",
  "src/core/app_context.rs src/core/http/request_handler.rs src/core/http/request_context.rs src/core/http/request_template.rs src/core/http/response.rs src/core/ir/eval_io.rs src/core/async_graphql_hyper.rs",
  [("create_allowed_headers", "src/core/http/request_handler.rs"), ("set_headers", "src/core/ir/eval_io.rs")],
  ["upstream request headers", "response headers"]),
P("P27", "Requests are routed and batches answered position by position",
  "Every HTTP request is answered: queries on the configured path by their result, the status path by its message, metrics and REST paths by theirs, anything else by not-found, and malformed bodies by an error response rather than a crash. A batch of operations gets an array of equal length whose i-th element is the answer the i-th operation would get alone.",
  "inputs configurations", "all methods, paths, content types and bodies (well formed, malformed, batched) over all route configurations",
  "no test of the handler runs in this build",
  "src/core/http/request_handler.rs src/core/async_graphql_hyper.rs src/core/blueprint/server.rs",
  [("handle_request_inner", "src/core/http/request_handler.rs"), ("BatchWrapper", "src/core/async_graphql_hyper.rs")],
  ["HTTP status and body"]),
P("P28", "Upstream calls are rendered faithfully from templates",
  "A configured HTTP call is sent with the configured method, the URL whose path templates and query parameters are rendered from arguments, parent value, headers and variables, the rendered body and headers, and with nothing added, lost or decoded differently. Parameters with empty values are sent or left out as configured, list values are repeated or joined as configured, and values are always percent-encoded so that no value changes the structure of the URL.",
  "inputs configurations", "all small templates and values, including empty, missing, list and reserved-character values",
  "the existing tests of this module do not run in this build",
  "src/core/http/request_template.rs src/core/http/query_encoder.rs src/core/mustache/eval.rs src/core/endpoint.rs src/core/config/url_query.rs",
  [("RequestTemplate::to_request", "src/core/http/request_template.rs")], ["upstream request"]),
P("P29", "Composition directives combine sources as declared",
  "A field with several resolvers yields their merge in declaration order; constant expressions yield their value with templates replaced; renamed, omitted and added fields appear, disappear and read exactly from the path declared, and nested resolvers see the parent value and arguments declared for them. Declaring them never changes the values of other fields.",
  "configurations inputs", "all small combinations of resolvers and field directives on object, list and nullable positions",
  "fixtures cover single directives with one value each",
  "src/core/blueprint/operators/expr.rs src/core/blueprint/definitions.rs src/core/blueprint/dynamic_value.rs src/core/ir/eval.rs src/core/ir/model.rs src/core/ir/resolver_context_like.rs",
  [("IR evaluation", "src/core/ir/eval.rs"), ("DynamicValue rendering", "src/core/blueprint/dynamic_value.rs")],
  ["response data"]),
P("P30", "Federated entity lookups answer in representation order",
  "For a federated schema, a lookup of entity representations yields one element per representation in the same order, each of the requested type with the values resolved from that representation's own keys, null where the upstream has none; a representation that is not an object or names no type that can be looked up fails the whole lookup. The service description is the schema as a subgraph publishes it: every type that can be looked up is marked with the keys its resolvers need. Batching representations never mixes their results.",
  "inputs configurations", "all small lists of representations over several entity types, duplicates and unknown types, batched and unbatched",
  "fixtures hold two documents with fixed representations",
  "src/core/ir/eval.rs src/core/blueprint/operators/apollo_federation.rs src/core/jit/synth/synth.rs",
  [("IR::Entity evaluation", "src/core/ir/eval.rs")], ["_entities and _service responses"]),
P("P31", "Linked configurations are resolved completely and once",
  "A configuration with links yields its own schema together with the schema of every configuration it links and everything else its links name (protobuf files with their imports, operations, scripts, keys, certificates, credentials), in order, relative paths being taken from the file that contains the link; settings, links among them, come from the root configuration alone. Each file is read once, however often it is linked. Loading always terminates, also when links lead back to the file or imports are circular, and a missing or malformed link is an error that names it. Invalid link lists (empty source, duplicate ids, several scripts or keys) are refused.",
  "configurations", "all lists of up to three links over every link kind (except gRPC reflection), with missing, malformed, repeated, self-referring and circular ones, for one root and pairs of roots",
  "tests load two fixed link trees and no cycle",
  "src/core/config/reader.rs src/core/config/config_module.rs src/core/blueprint/links.rs src/core/proto_reader/reader.rs",
  [("ConfigReader::ext_links", "src/core/config/reader.rs"), ("Links validation", "src/core/blueprint/links.rs")],
  ["loaded configuration", "files read"]),
P("P32", "N+1 detection reports exactly the unbatched paths under lists",
  "The analysis reports a query path exactly when following it from a root passes through a list and reaches a field whose resolver is called per element without batching, entity lookups included. It terminates on recursive types, where every hazard is reported at least once, and reports each such path exactly once elsewhere.",
  "configurations", "all small schemas over list/non-list fields, batched and unbatched resolvers, recursive and shared types",
  "tests hold some fifteen fixed schemas and do not run in this build",
  "src/core/config/npo/tracker.rs",
  [("PathTracker", "src/core/config/npo/tracker.rs")], ["reported paths"]),
P("P33", "Scripts see requests as they are and their changes take effect exactly",
  "A script that observes outgoing requests receives each request's URL parts, method, headers and body unchanged; whatever request or response it returns is what is sent or used, a redirect makes the request start over with the new path, and a script that throws or returns nothing never makes anything but the unchanged request go out. The response hook sees the final body once and what it returns is used. Script resolvers receive their parent's value and their result is the field's, exactly. Conversions lose, add and alter nothing in either direction, and unsupported values are errors, not crashes.",
  "inputs", "all small requests over methods, schemes, ports, paths, queries, headers and bodies, all kinds of hook behaviour (edits of every part, answers, redirects, nothing, exceptions, wrong values), batched or not, in the real script engine",
  "tests convert two fixed values",
  "src/cli/javascript/codec.rs src/core/worker/worker.rs src/cli/javascript/runtime.rs src/core/worker_hooks.rs",
  [("FromJs / IntoJs codecs", "src/cli/javascript/codec.rs"), ("WorkerHooks / HttpHook", "src/core/worker_hooks.rs")],
  ["objects seen by the script", "requests sent upstream"]),
P("P34", "Configurations generated from samples serve the samples",
  "A configuration generated from recorded requests and responses can always be read back and served, and offers one field for each sample. Asked for everything it offers, with the arguments the sample was made with, it makes exactly the sampled request (method, path, query, body) and answers with the sampled response - whatever names the members, query keys and fields have, and whichever of the name and type improvements are applied.",
  "inputs", "all small JSON samples of nested objects and lists, members and fields named like types, scalars and keywords, all small paths and query strings, gateways of two samples with bodies; five presets of transformers",
  "tests compare the generated text of a few samples and serve none of it",
  "src/core/generator src/core/config/transformer",
  [("JSON generators", "src/core/generator/json"), ("ImproveTypeNames / MergeTypes / FlattenSingleField", "src/core/config/transformer")],
  ["the generated configuration, served", "requests sent upstream"]),
 P("P35", "Improving a configuration does not change what it serves",
  "Merging types of the same shape, renaming types, removing unused types, taking nested unions apart, telling input types from output types, taking types of a single field out, setting required roots and inferring names give a configuration that can be read back and served, and that answers every query over every upstream data as the one it was made from did - up to the new type names in `__typename`, and to a type of a single field being answered as that field's value. Exactly the types that are reachable from the roots, over fields, arguments, members of unions and implementors of interfaces, are in use. Unions that contain themselves and new names that are already in use are refused.",
  "inputs", "all small type graphs (pairs of types with nested types, lists, constants, arguments; inputs used as outputs; interfaces; unions of unions; chains of single fields) and each transformation, each of the configurations asked for everything down to depth 3",
  "tests compare the printed result of single configurations and serve none",
  "src/core/config/transformer src/core/config/config.rs",
  [("transformers", "src/core/config/transformer"), ("get_all_used_type_names", "src/core/config/config.rs")],
  ["the transformed configuration", "answers to queries for everything it offers"]),
 P("P36", "Fields backed by gRPC methods speak protobuf faithfully",
  "The JSON a body template renders is sent as the message it describes - every scalar kind, lists, maps, enums by name or number, optional and oneof fields, nested and recursive messages, values of arguments inside of strings and bare - as one frame to the URL of the service's method with the headers configured; a body that does not fit the message is an error and nothing is sent. Every well formed answer message, whatever the order of its fields, packed or not, with unknown and repeated fields, becomes the JSON it describes, with fields that are absent given their defaults. An answer with a non-zero grpc-status becomes an error that carries code, description and the decoded message and details. Fields with a batch key are asked for in one call for all parents, every distinct key once, and each parent gets the first item of the answer with its key or null.",
  "inputs", "all small messages over every kind and label, written and read; answers by status, header and payload; batches of up to four parents with missing, double, foreign and null keys",
  "tests send single messages of one service",
  "src/core/grpc src/core/json/json_schema.rs src/core/blueprint/operators/grpc.rs src/core/http/response.rs",
  [("ProtobufOperation", "src/core/grpc/protobuf.rs"), ("RequestTemplate", "src/core/grpc/request_template.rs"), ("GrpcDataLoader", "src/core/grpc/data_loader.rs")],
  ["bytes, URL and headers of the calls", "the answers and errors of the gateway"]),
 P("P37", "Introspection describes the contract that is served",
  "Introspection describes exactly the types, fields, arguments, input fields, enum values, members, implementors, default values and descriptions that the configuration serves and that can be reached from its roots: every reference with its lists and non-null marks as served, under the names it is served with, without what is left out and with what is added. A default value is described as a literal that, written in a query, means the same as leaving the argument out. Introspection fields are answered wherever a query asks for them - next to data, aliased, inside of fragments, under directives - and not at all, with data unaffected, when introspection is switched off.",
  "inputs", "every reference type up to lists of lists at every place, default values over scalars, enums, lists and input objects, descriptions and modified fields, one or two fields held by fragments, directives and aliases with introspection on and off",
  "tests introspect single configurations and compare snapshots",
  "src/core/blueprint src/core/jit",
  [("into_schema", "src/core/blueprint/into_schema.rs"), ("only_introspection", "src/core/jit/exec_const.rs"), ("merge_with", "src/core/jit/response.rs")],
  ["answers to introspection queries", "answers to the same field with and without its described default"]),
]
