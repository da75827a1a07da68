----------------------------- MODULE DedupeTrace -----------------------------
(* Validates event traces recorded from multi-threaded runs of the real coalescer
   against Dedupe. Logged: call, start (execution begins), finish (execution is about
   to return its outcome), gone (request abandoned), ret (request answered).
   The polls in between are silent and inferred.                                  *)
EXTENDS Dedupe
VARIABLES tid, l, called
tvars == <<vars, tid, l, called>>
tview == <<view, tid, l, called>>

Traces == JsonDeserialize("traces.json")
T == Traces[tid]
E == T[l]
Ev(n) == l <= Len(T) /\ E.e = n /\ l' = l + 1 /\ UNCHANGED tid

TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ called = {}

TCall == Ev("call") /\ called' = called \cup {E.r} /\ UNCHANGED vars
TStart == Ev("start") /\ (PollNew(E.r) \/ PollWait(E.r)) /\ pc'[E.r] = "run" /\ pc[E.r] # "run" /\ E.r \in called /\ UNCHANGED called
TFinish == Ev("finish") /\ Finish(E.r) /\ gate'[E.r] = E.v /\ UNCHANGED called
TGone == Ev("gone") /\ UNCHANGED called
         /\ IF pc[E.r] = "new" THEN /\ pc' = [pc EXCEPT ![E.r] = "gone"]
                                    /\ UNCHANGED <<table, gate, owner, inbox, res, nexec, act>>
                               ELSE Drop(E.r)
TRet == Ev("ret") /\ pc[E.r] = "done" /\ res[E.r] = [by |-> E.by, v |-> E.v] /\ UNCHANGED <<vars, called>>
Silent == /\ l <= Len(T)
          /\ \E r \in called : Poll(r) /\ pc'[r] # pc[r] /\ pc'[r] # "run"
          /\ UNCHANGED <<tid, l, called>>
TNext == TCall \/ TStart \/ TFinish \/ TGone \/ TRet \/ Silent
TSpec == TInit /\ [][TNext]_tvars

\* the furthest position reached in each trace
Track == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Accepted == PrintT("@" \o ToJson([stuck |-> {<<i, TLCGet(i)>> : i \in {j \in 1..Len(Traces) : TLCGet(j) <= Len(Traces[j])}}]))
TKeyOf(r) == SubSeq(r, 1, 1)
=============================================================================
