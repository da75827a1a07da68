------------------------------- MODULE Loader -------------------------------
(* The batching loader (core/data_loader/data_loader.rs) with its cache: requests
   join the open window; a window is sent when its timer fires or its distinct keys
   reach MaxBatch; completed batches answer the requests they carried and fill the
   cache. Values are <<batch or feed number>> so that a stale answer is visible.   *)
EXTENDS Naturals, FiniteSets, Sequences, SequencesExt, TLC, Json

CONSTANTS Keys, MaxLoads, MaxBatch, CacheKind, Cap, MaxFeeds, MaxSwitch, MaxClear, MaxGone,
          Outcomes, LoadSets
VARIABLES req,      \* sequence of [ks, cached, st, out]; st: "pend" | "done" | "gone"
          win,      \* the open window: [keys, who]
          timers,   \* requests that started a timer, oldest first
          batches,  \* sequence of [keys, who, nostore, st]; st: "fly" | "over"
          cache,    \* sequence of <<key, value>>, least recently used first
          offAll, offOne, feeds, switches, clears, act
vars == <<req, win, timers, batches, cache, offAll, offOne, feeds, switches, clears, act>>
view == <<req, win, timers, batches, cache, offAll, offOne, feeds, switches, clears>>

NoWin == [keys |-> {}, who |-> <<>>]
Init == /\ req = <<>> /\ win = NoWin /\ timers = <<>> /\ batches = <<>> /\ cache = <<>>
        /\ offAll = FALSE /\ offOne = FALSE /\ feeds = 0 /\ switches = 0 /\ clears = 0
        /\ act = [a |-> "Init"]

-----------------------------------------------------------------------------
(* cache storage *)
Drop(c, k) == SelectSeq(c, LAMBDA e : e[1] # k)
Has(c, k) == \E i \in 1..Len(c) : c[i][1] = k
Val(c, k) == c[CHOOSE i \in 1..Len(c) : c[i][1] = k][2]
RECURSIVE InsSorted(_, _)
InsSorted(c, e) == IF c = <<>> THEN <<e>>
                   ELSE IF e[1] < c[1][1] THEN <<e>> \o c
                   ELSE <<c[1]>> \o InsSorted(Tail(c), e)
Put(c, k, v) == CASE CacheKind = "none" -> c
                  [] CacheKind = "map" -> InsSorted(Drop(c, k), <<k, v>>)
                  [] CacheKind = "lru" -> LET d == Append(Drop(c, k), <<k, v>>)
                                          IN IF Len(d) > Cap THEN Tail(d) ELSE d
Touch(c, k) == IF CacheKind = "lru" /\ Has(c, k) THEN Append(Drop(c, k), <<k, Val(c, k)>>) ELSE c
RECURSIVE PutAll(_, _, _), TouchAll(_, _)
PutAll(c, ks, v) == IF ks = <<>> THEN c ELSE PutAll(Put(c, ks[1], v), Tail(ks), v)
TouchAll(c, ks) == IF ks = <<>> THEN c ELSE TouchAll(Touch(c, ks[1]), Tail(ks))

Sorted(S) == SetToSortSeq(S, <)
AsSeq(f) == [i \in 1..Cardinality(DOMAIN f) |-> <<Sorted(DOMAIN f)[i], f[Sorted(DOMAIN f)[i]]>>]
EmptyMap == [k \in {} |-> ""]
ByKey(c) == AsSeq([k \in {c[i][1] : i \in 1..Len(c)} |-> Val(c, k)])

-----------------------------------------------------------------------------
Pending == [p |-> "pend"]
Ok(f) == [ok |-> AsSeq(f)]
Err == [err |-> TRUE]

\* what an observer sees after a step: loader calls started by it, requests answered by it, cache contents
Obs(loads, done, c) == [loads |-> loads, done |-> done, cache |-> ByKey(c)]

Load(ks, one) ==
  LET r == Len(req) + 1
      off == offAll \/ offOne
      hit == IF off THEN {} ELSE {k \in ks : Has(cache, k)}
      miss == ks \ hit
      cached == [k \in hit |-> Val(cache, k)]
      c2 == IF off THEN cache ELSE TouchAll(cache, Sorted(ks))
      keys2 == win.keys \cup miss
      who2 == Append(win.who, r)
      now == Cardinality(keys2) >= MaxBatch
      b == [keys |-> keys2, who |-> who2, nostore |-> offAll, st |-> "fly"]
      base == [a |-> "Load", ks |-> Sorted(ks), one |-> one]
  IN /\ Len(req) < MaxLoads
     \* the fill order of a batch is not specified, so bounded caches are filled one key at a time
     /\ CacheKind = "lru" => Cardinality(miss) <= 1
     /\ cache' = c2
     /\ UNCHANGED <<offAll, offOne, feeds, switches, clears>>
     /\ IF miss = {}
        THEN /\ req' = Append(req, [ks |-> miss, cached |-> cached, st |-> "done", out |-> Ok(cached)])
             /\ act' = base @@ [obs |-> Obs(<<>>, <<<<r, Ok(cached)>>>>, c2)]
             /\ UNCHANGED <<win, timers, batches>>
        ELSE /\ req' = Append(req, [ks |-> miss, cached |-> cached, st |-> "pend", out |-> Pending])
             /\ IF now
                THEN /\ win' = NoWin
                     /\ batches' = Append(batches, b)
                     /\ timers' = timers
                     /\ act' = base @@ [obs |-> Obs(<<Sorted(keys2)>>, <<>>, c2)]
                ELSE /\ win' = [keys |-> keys2, who |-> who2]
                     /\ batches' = batches
                     /\ timers' = IF win.keys = {} THEN Append(timers, <<r, offAll>>) ELSE timers
                     /\ act' = base @@ [obs |-> Obs(<<>>, <<>>, c2)]

Fire ==
  /\ timers # <<>>
  /\ timers' = Tail(timers)
  /\ LET t == Head(timers) IN
     IF win.keys = {}
     THEN /\ UNCHANGED <<win, batches>>
          /\ act' = [a |-> "Fire", r |-> t[1], obs |-> Obs(<<>>, <<>>, cache)]
     ELSE /\ win' = NoWin
          /\ batches' = Append(batches, [keys |-> win.keys, who |-> win.who, nostore |-> t[2], st |-> "fly"])
          /\ act' = [a |-> "Fire", r |-> t[1], obs |-> Obs(<<Sorted(win.keys)>>, <<>>, cache)]
  /\ UNCHANGED <<req, cache, offAll, offOne, feeds, switches, clears>>

\* the upstream answers batch b with a value for every key, all but the smallest, none, or fails
Complete(b, o) ==
  LET bt == batches[b]
      got == CASE o = "all" -> bt.keys
               [] o = "part" -> bt.keys \ {CHOOSE k \in bt.keys : \A j \in bt.keys : k <= j}
               [] OTHER -> {}
      v == <<"b", b>>
      store == ~(bt.nostore \/ offOne)
      c2 == IF store /\ o # "err" THEN PutAll(cache, Sorted(got), v) ELSE cache
      outOf(r) == IF o = "err" THEN Err
                  ELSE Ok([k \in DOMAIN req[r].cached \cup (req[r].ks \cap got) |->
                             IF k \in req[r].ks \cap got THEN v ELSE req[r].cached[k]])
      live == {r \in 1..Len(req) : r \in {bt.who[i] : i \in 1..Len(bt.who)} /\ req[r].st = "pend"}
  IN /\ bt.st = "fly"
     /\ batches' = [batches EXCEPT ![b].st = "over"]
     /\ cache' = c2
     /\ req' = [r \in 1..Len(req) |-> IF r \in live THEN [req[r] EXCEPT !.st = "done", !.out = outOf(r)] ELSE req[r]]
     /\ act' = [a |-> "Complete", b |-> b, o |-> o,
                obs |-> Obs(<<>>, [i \in 1..Cardinality(live) |-> <<Sorted(live)[i], outOf(Sorted(live)[i])>>], c2)]
     /\ UNCHANGED <<win, timers, offAll, offOne, feeds, switches, clears>>

Abandon(r) ==
  /\ req[r].st = "pend"
  /\ req' = [req EXCEPT ![r].st = "gone"]
  /\ act' = [a |-> "Abandon", r |-> r, obs |-> Obs(<<>>, <<>>, cache)]
  /\ UNCHANGED <<win, timers, batches, cache, offAll, offOne, feeds, switches, clears>>

Feed(k) ==
  /\ feeds < MaxFeeds
  /\ feeds' = feeds + 1
  /\ cache' = Put(cache, k, <<"f", feeds + 1>>)
  /\ act' = [a |-> "Feed", k |-> k, v |-> <<"f", feeds + 1>>, obs |-> Obs(<<>>, <<>>, cache')]
  /\ UNCHANGED <<req, win, timers, batches, offAll, offOne, switches, clears>>

Clear ==
  /\ clears < MaxClear
  /\ clears' = clears + 1
  /\ cache' = <<>>
  /\ act' = [a |-> "Clear", obs |-> Obs(<<>>, <<>>, <<>>)]
  /\ UNCHANGED <<req, win, timers, batches, offAll, offOne, feeds, switches>>

Switch(which, on) ==
  /\ switches < MaxSwitch
  /\ IF which = "all" THEN offAll = on ELSE offOne = on
  \* which moment decides for a batch under way is not specified
  /\ win = NoWin /\ timers = <<>> /\ \A b \in 1..Len(batches) : batches[b].st = "over"
  /\ switches' = switches + 1
  /\ IF which = "all" THEN offAll' = ~on /\ UNCHANGED offOne ELSE offOne' = ~on /\ UNCHANGED offAll
  /\ act' = [a |-> "Switch", which |-> which, on |-> on, obs |-> Obs(<<>>, <<>>, cache)]
  /\ UNCHANGED <<req, win, timers, batches, cache, feeds, clears>>

Next == \/ \E ks \in LoadSets : \/ Load(ks, FALSE)
                                \/ Cardinality(ks) = 1 /\ Load(ks, TRUE)
        \/ Fire
        \/ \E b \in 1..Len(batches), o \in Outcomes : Complete(b, o)
        \/ \E r \in 1..Len(req) : MaxGone > Cardinality({q \in 1..Len(req) : req[q].st = "gone"}) /\ Abandon(r)
        \/ \E k \in Keys : Feed(k)
        \/ Clear
        \/ \E w \in {"all", "one"}, on \in BOOLEAN : Switch(w, on)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* properties *)
Carried(r) == {b \in 1..Len(batches) : \E i \in 1..Len(batches[b].who) : batches[b].who[i] = r}
InWin(r) == \E i \in 1..Len(win.who) : win.who[i] = r
\* a waiting request is in exactly one place: the open window or one batch in flight
ExactlyOnce == \A r \in 1..Len(req) :
   /\ Cardinality(Carried(r)) + (IF InWin(r) THEN 1 ELSE 0) <= 1
   /\ req[r].st = "pend" => \/ InWin(r) /\ timers # <<>>
                            \/ \E b \in Carried(r) : batches[b].st = "fly"
\* what was fetched is what was asked for
BatchIsUnion == \A b \in 1..Len(batches) :
   batches[b].keys = UNION {req[batches[b].who[i]].ks : i \in 1..Len(batches[b].who)}
OnlyOwnKeys == \A r \in 1..Len(req) : req[r].st = "done" /\ "ok" \in DOMAIN req[r].out =>
   \A i \in 1..Len(req[r].out.ok) : req[r].out.ok[i][1] \in req[r].ks \cup DOMAIN req[r].cached
WindowBelowMax == Cardinality(win.keys) < MaxBatch
Bounded == CacheKind = "lru" => Len(cache) <= Cap
Emit == PrintT("@" \o ToJson([s |-> view, a |-> act', t |-> view']))
Singles == {{k} : k \in Keys}
AllSets == SUBSET Keys
Mixed == {{}, {1}, {2}, {1, 2}, {2, 3}}
\* one request may exceed a batch on its own
Wide == {{1}, {2, 3}, {1, 2, 3}, {1, 2, 3, 4}}
UpTo2 == {s \in SUBSET Keys : Cardinality(s) \in {1, 2}}
=============================================================================
