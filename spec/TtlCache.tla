------------------------------- MODULE TtlCache -------------------------------
(* The expiring entity cache (core/cache): entries live for their own time-to-live
   after the store that made them, capacity evicts the oldest stores, every lookup is
   a hit or a miss. Time advances in ticks of 100 ms; lifetimes lie strictly between
   ticks, so no lookup happens exactly at an expiry.                               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Keys, Cap, Ttls, Vals, MaxSets, MaxGets, MaxTicks
VARIABLES m,      \* sequence of [k, v, rem], oldest store first; rem: ms of life left, 0 = expired
          hits, lookups, sets, ticks, act
view == <<m, hits, lookups, sets, ticks>>
Init == m = <<>> /\ hits = 0 /\ lookups = 0 /\ sets = 0 /\ ticks = 0 /\ act = [a |-> "Init"]
Rate == [hits |-> hits', lookups |-> lookups']
Without(k) == SelectSeq(m, LAMBDA e : e.k # k)
Set(k, v, t) ==
  /\ sets < MaxSets /\ sets' = sets + 1
  /\ LET n == Append(Without(k), [k |-> k, v |-> v, rem |-> t])
     IN m' = IF Len(n) > Cap THEN Tail(n) ELSE n
  /\ UNCHANGED <<hits, lookups, ticks>>
  /\ act' = [a |-> "Set", k |-> k, v |-> v, ttl |-> t, obs |-> [v |-> "-", rate |-> Rate]]
Live(k) == \E i \in 1..Len(m) : m[i].k = k /\ m[i].rem > 0
ValOf(k) == m[CHOOSE i \in 1..Len(m) : m[i].k = k].v
Get(k) ==
  /\ lookups < MaxGets /\ lookups' = lookups + 1
  /\ hits' = IF Live(k) THEN hits + 1 ELSE hits
  /\ UNCHANGED <<m, sets, ticks>>
  /\ act' = [a |-> "Get", k |-> k, obs |-> [v |-> IF Live(k) THEN ValOf(k) ELSE "none", rate |-> Rate]]
Tick ==
  /\ ticks < MaxTicks /\ ticks' = ticks + 1
  /\ m' = [i \in 1..Len(m) |-> [m[i] EXCEPT !.rem = IF @ > 100 THEN @ - 100 ELSE 0]]
  /\ UNCHANGED <<hits, lookups, sets>>
  /\ act' = [a |-> "Tick", obs |-> [v |-> "-", rate |-> Rate]]
Next == \/ \E k \in Keys, v \in Vals, t \in Ttls : Set(k, v, t)
        \/ \E k \in Keys : Get(k)
        \/ Tick
Spec == Init /\ [][Next]_<<view, act>>
Bounded == Len(m) <= Cap
OnePerKey == \A i, j \in 1..Len(m) : m[i].k = m[j].k => i = j
HitsAreLookups == hits <= lookups
Emit == PrintT("@" \o ToJson([s |-> view, a |-> act', t |-> view']))
=============================================================================
