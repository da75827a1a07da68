------------------------------- MODULE HttpStore ------------------------------
(* The store of HTTP responses (tailcall-http-cache): an LRU map in which lookups and
   puts both count as use. A value stands for a response and its caching policy.  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Keys, Vals, Cap
VARIABLES m, act        \* m: sequence of <<key, value>>, least recently used first
view == m
Init == m = <<>> /\ act = [a |-> "Init"]
Without(k) == SelectSeq(m, LAMBDA e : e[1] # k)
Has(k) == \E i \in 1..Len(m) : m[i][1] = k
Val(k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
Put(k, v) == /\ m' = LET d == Append(Without(k), <<k, v>>) IN IF Len(d) > Cap THEN Tail(d) ELSE d
             /\ act' = [a |-> "Put", k |-> k, v |-> v, obs |-> v]
Get(k) == /\ m' = IF Has(k) THEN Append(Without(k), <<k, Val(k)>>) ELSE m
          /\ act' = [a |-> "Get", k |-> k, obs |-> IF Has(k) THEN Val(k) ELSE "none"]
Delete(k) == m' = Without(k) /\ act' = [a |-> "Delete", k |-> k, obs |-> "-"]
Clear == m' = <<>> /\ act' = [a |-> "Clear", obs |-> "-"]
Next == \/ \E k \in Keys, v \in Vals : Put(k, v)
        \/ \E k \in Keys : Get(k) \/ Delete(k)
        \/ Clear
Spec == Init /\ [][Next]_<<view, act>>
Bounded == Len(m) <= Cap
OnePerKey == \A i, j \in 1..Len(m) : m[i][1] = m[j][1] => i = j
Emit == PrintT("@" \o ToJson([s |-> m, a |-> act', t |-> m']))
=============================================================================
