------------------------------- MODULE Dedupe -------------------------------
(* Single-flight coalescing (core/data_loader/dedupe.rs), at the grain of one
   poll of one request: a poll runs from one suspension point to the next, so it
   is one critical section of the table.

   Requests carry a key. A request that finds no live execution for its key
   becomes the executor; one that finds a live execution waits for it; one that
   finds a remembered result returns it. An executor may finish (ok or err),
   panic, or be abandoned. When an execution dies unfinished its waiters go
   around again at their next poll, and the first of them takes over.           *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Req, Key, KeyOf(_), Outcomes, Persist
VARIABLES pc,      \* per request: "new" | "run" | "wait" | "done" | "gone"
          table,   \* per key: [s |-> "free" | "run" | "ready", by |-> executor, v |-> outcome]
          gate,    \* per request: outcome its execution will have, or "none"
          owner,   \* per request: the request whose execution it waits for
          inbox,   \* per request: result delivered by the execution it waits for, or NoRes
          res,     \* per request: what it returned
          nexec,   \* per key: executions started
          act
vars == <<pc, table, gate, owner, inbox, res, nexec, act>>
view == <<pc, table, gate, owner, inbox, res, nexec>>

NoRes == [by |-> "-", v |-> "-"]
Result(r, v) == [by |-> r, v |-> v]
Free == [s |-> "free", by |-> "-", v |-> "-"]
AsRes(e) == Result(e.by, e.v)

Init == /\ pc = [r \in Req |-> "new"]
        /\ table = [k \in Key |-> Free]
        /\ gate = [r \in Req |-> "none"]
        /\ owner = [r \in Req |-> "-"]
        /\ inbox = [r \in Req |-> NoRes]
        /\ res = [r \in Req |-> NoRes]
        /\ nexec = [k \in Key |-> 0]
        /\ act = [a |-> "Init"]

Alive(k) == table[k].s = "run" /\ pc[table[k].by] = "run"

\* what the poll reports: which execution it started, and whether it returned
Obs(started, r) == [started |-> started, res |-> r]
Pending == [p |-> "pending"]

(* one trip around the loop: look the key up under the lock *)
Step(r) ==
  LET k == KeyOf(r) IN
  \/ /\ table[k].s = "ready"
     /\ res' = [res EXCEPT ![r] = AsRes(table[k])]
     /\ pc' = [pc EXCEPT ![r] = "done"]
     /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, AsRes(table[k]))]
     /\ UNCHANGED <<table, gate, owner, inbox, nexec>>
  \/ /\ Alive(k)
     /\ owner' = [owner EXCEPT ![r] = table[k].by]
     /\ inbox' = [inbox EXCEPT ![r] = NoRes]
     /\ pc' = [pc EXCEPT ![r] = "wait"]
     /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, Pending)]
     /\ UNCHANGED <<table, gate, res, nexec>>
  \/ /\ table[k].s = "free" \/ (table[k].s = "run" /\ ~Alive(k))
     /\ table' = [table EXCEPT ![k] = [s |-> "run", by |-> r, v |-> "-"]]
     /\ nexec' = [nexec EXCEPT ![k] = @ + 1]
     /\ pc' = [pc EXCEPT ![r] = "run"]
     /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<r>>, Pending)]
     /\ UNCHANGED <<gate, owner, inbox, res>>

PollNew(r) == pc[r] = "new" /\ Step(r)

PollWait(r) ==
  /\ pc[r] = "wait"
  /\ \/ /\ inbox[r] # NoRes
        /\ res' = [res EXCEPT ![r] = inbox[r]]
        /\ pc' = [pc EXCEPT ![r] = "done"]
        /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, inbox[r])]
        /\ UNCHANGED <<table, gate, owner, inbox, nexec>>
     \/ /\ inbox[r] = NoRes /\ pc[owner[r]] = "run"
        /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, Pending)]
        /\ UNCHANGED <<pc, table, gate, owner, inbox, res, nexec>>
     \/ /\ inbox[r] = NoRes /\ pc[owner[r]] # "run"
        /\ Step(r)

PollRun(r) ==
  LET k == KeyOf(r) IN
  /\ pc[r] = "run"
  /\ \/ /\ gate[r] = "none"
        /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, Pending)]
        /\ UNCHANGED <<pc, table, gate, owner, inbox, res, nexec>>
     \/ /\ gate[r] \in {"ok", "err"}
        /\ LET v == Result(r, gate[r]) IN
           /\ table' = [table EXCEPT ![k] = IF Persist THEN [s |-> "ready", by |-> r, v |-> gate[r]] ELSE Free]
           /\ inbox' = [q \in Req |-> IF pc[q] = "wait" /\ owner[q] = r THEN v ELSE inbox[q]]
           /\ res' = [res EXCEPT ![r] = v]
           /\ pc' = [pc EXCEPT ![r] = "done"]
           /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, v)]
           /\ UNCHANGED <<gate, owner, nexec>>
     \/ /\ gate[r] = "panic"
        /\ pc' = [pc EXCEPT ![r] = "gone"]
        /\ act' = [a |-> "Poll", r |-> r, obs |-> Obs(<<>>, [p |-> "panic"])]
        /\ UNCHANGED <<table, gate, owner, inbox, res, nexec>>

Poll(r) == PollNew(r) \/ PollWait(r) \/ PollRun(r)

Finish(r) == \E v \in Outcomes :
  /\ pc[r] = "run" /\ gate[r] = "none"
  /\ gate' = [gate EXCEPT ![r] = v]
  /\ act' = [a |-> "Finish", r |-> r, v |-> v, obs |-> Obs(<<>>, [p |-> "-"])]
  /\ UNCHANGED <<pc, table, owner, inbox, res, nexec>>

Drop(r) ==
  /\ pc[r] \in {"run", "wait"}
  /\ pc' = [pc EXCEPT ![r] = "gone"]
  /\ act' = [a |-> "Drop", r |-> r, obs |-> Obs(<<>>, [p |-> "-"])]
  /\ UNCHANGED <<table, gate, owner, inbox, res, nexec>>

Next == \E r \in Req : Poll(r) \/ Finish(r) \/ Drop(r)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A r \in Req : WF_vars(PollNew(r)) /\ WF_vars(PollWait(r) /\ inbox[r] # NoRes)
                 /\ WF_vars(PollWait(r) /\ pc[owner[r]] # "run")
                 /\ WF_vars(Finish(r)) /\ WF_vars(PollRun(r) /\ gate[r] # "none")

-----------------------------------------------------------------------------
(* properties *)
SingleFlight == \A k \in Key : Cardinality({r \in Req : pc[r] = "run" /\ KeyOf(r) = k}) <= 1
OwnKey == \A r \in Req : res[r] # NoRes => KeyOf(res[r].by) = KeyOf(r)
RealResult == \A r \in Req : res[r] # NoRes =>
                 /\ gate[res[r].by] = res[r].v
                 /\ pc[res[r].by] = "done"
\* a waiter always waits for somebody, or has a result, or may go around again
NoLostWaiter == \A r \in Req : pc[r] = "wait" => ENABLED Poll(r)
Remembered == Persist => \A k \in Key :
   \A r1, r2 \in {r \in Req : KeyOf(r) = k /\ res[r] # NoRes} : res[r1] = res[r2]
\* every request that is not abandoned and does not panic is eventually answered
AllAnswered == \A r \in Req : <>(pc[r] \in {"done", "gone"})

-----------------------------------------------------------------------------
Emit == PrintT("@" \o ToJson([s |-> view, a |-> act', t |-> view']))
MCKeyOf(r) == IF r \in {"a", "b", "c", "d"} THEN "k" ELSE "j"
=============================================================================
