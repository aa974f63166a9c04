------------------------------- MODULE DispTrace -------------------------------
(* Validates recorded traces of real dispatchers against DispAbs: every event has to be a step of it.  The verdict of every trace is emitted.            *)
EXTENDS DispAbs, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES k, l, ok
T == Traces[k].events
TraceInit == /\ k \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ W = Traces[k].w /\ N = Traces[k].n /\ AbsInit
Is(e) == T[l].e = e
Step == \/ Is("begin") /\ Begin
        \/ Is("start") /\ T[l].w \in Workers /\ T[l].j \in Jobs /\ T[l].r = round /\ Start(T[l].w, T[l].j)
        \/ Is("finish") /\ T[l].w \in Workers /\ running[T[l].w] = T[l].j /\ T[l].r = round /\ Finish(T[l].w)
        \/ Is("break") /\ T[l].w \in Workers /\ running[T[l].w] = T[l].j /\ T[l].r = round /\ Break(T[l].w)
        \/ Is("crash") /\ T[l].w \in Workers /\ running[T[l].w] = T[l].j /\ T[l].r = round /\ Crash(T[l].w)
        \/ Is("interrupt") /\ Hurt
        \/ Is("return") /\ Return /\ T[l].order = TRUE
        \/ Is("fail") /\ Fail
        \/ Is("close") /\ Close
Follow == ok /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED <<k, ok, W, N>>
Reject == ok /\ l <= Len(T) /\ ~ENABLED Step /\ ok' = FALSE /\ UNCHANGED <<k, l, W, N, avars>>
TraceNext == Follow \/ Reject
Verdict == (~ok \/ l > Len(T)) => PrintT(ToJson([k |-> k, ok |-> ok, at |-> l]))
=================================================================================
