------------------------------- MODULE DispSched -------------------------------
(* All orders in which running jobs may complete: at every step a non-empty set of the running jobs completes together; free workers get the next      *)
(* jobs.  A step with a failing job ends the round (the jobs still running then are abandoned); so do the death of a worker and an interruption by the client. *)
(* Emits one row per complete schedule.                                                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS WS, NS, MaxTogether, MaxFail, Ends      \* Ends: {}, {"crash"}, {"interrupt"} - additional ways to end a round
VARIABLES w, n, fails, running, nxt, sched, over, how
vars == <<w, n, fails, running, nxt, sched, over, how>>
Init == /\ w \in WS /\ n \in NS /\ n >= w /\ fails \in {s \in SUBSET (1..n) : Cardinality(s) <= MaxFail}
        /\ running = 1..w /\ nxt = w + 1 /\ sched = <<>> /\ over = FALSE /\ how = <<"completion">>
Complete == /\ ~over
            /\ \E s \in (SUBSET running) \ {{}} :
                 /\ Cardinality(s) <= MaxTogether
                 /\ sched' = Append(sched, s)
                 /\ LET k == IF n - nxt + 1 < Cardinality(s) THEN n - nxt + 1 ELSE Cardinality(s) IN
                    /\ running' = (running \ s) \cup (nxt..(nxt + k - 1))
                    /\ nxt' = nxt + k
                    /\ over' = (s \cap fails # {} \/ running' = {})
            /\ UNCHANGED <<w, n, fails, how>>
Crash == /\ "crash" \in Ends /\ ~over /\ over' = TRUE /\ \E j \in running : how' = <<"crash", j>>
         /\ UNCHANGED <<w, n, fails, running, nxt, sched>>
Interrupt == "interrupt" \in Ends /\ ~over /\ over' = TRUE /\ how' = <<"interrupt">> /\ UNCHANGED <<w, n, fails, running, nxt, sched>>
Next == Complete \/ Crash \/ Interrupt
Completed == UNION {sched[i] : i \in 1..Len(sched)}
Sound == /\ Cardinality(running) <= w
         /\ (over /\ how = <<"completion">> /\ fails \cap Completed = {}) => Completed = 1..n
         /\ \A i, k \in 1..Len(sched) : i # k => sched[i] \cap sched[k] = {}
Emit == over => PrintT(ToJson([w |-> w, n |-> n, fails |-> fails, sched |-> sched, left |-> running, how |-> how, ok |-> (how = <<"completion">> /\ fails \cap Completed = {})]))
=================================================================================
