-------------------------------- MODULE DispAbs --------------------------------
(* What a client may observe of one dispatcher: rounds of a computation over N jobs on W workers.  Every job is started and finished once in its      *)
(* round, a worker runs one job at a time, a round returns after all its jobs are finished and gives the results in the order of the parameters;      *)
(* a failed job, a died worker or an interruption make the round fail and close the dispatcher.  Jobs already handed over may still run while it is being closed.                       *)
EXTENDS Integers, FiniteSets
VARIABLES W, N,         \* numbers of workers and jobs of this dispatcher (they never change)
          phase,        \* "idle", "running", "closed", "failed"
          round, started, done, bad, running, out,
          hurt          \* a worker died or the computation has been interrupted by the client
avars == <<phase, round, started, done, bad, running, out, hurt>>
Jobs == 1..N
Workers == 1..W
AbsInit == phase = "idle" /\ round = 0 /\ started = {} /\ done = {} /\ bad = {} /\ running = [w \in Workers |-> 0] /\ out = <<>> /\ hurt = FALSE
Begin == /\ phase = "idle" /\ phase' = "running" /\ round' = round + 1 /\ started' = {} /\ done' = {} /\ bad' = {} /\ out' = <<>>
         /\ UNCHANGED <<running, hurt>>
Start(w, j) == /\ phase # "idle" /\ round > 0 /\ running[w] = 0 /\ j \notin started
               /\ started' = started \cup {j} /\ running' = [running EXCEPT ![w] = j] /\ UNCHANGED <<phase, round, done, bad, out, hurt>>
Finish(w) == /\ running[w] # 0 /\ done' = done \cup {running[w]} /\ running' = [running EXCEPT ![w] = 0]
             /\ UNCHANGED <<phase, round, started, bad, out, hurt>>
Break(w) == /\ running[w] # 0 /\ bad' = bad \cup {running[w]} /\ running' = [running EXCEPT ![w] = 0]
            /\ UNCHANGED <<phase, round, started, done, out, hurt>>
Crash(w) == /\ running[w] # 0 /\ bad' = bad \cup {running[w]} /\ running' = [running EXCEPT ![w] = 0] /\ hurt' = TRUE
            /\ UNCHANGED <<phase, round, started, done, out>>
Hurt == phase # "idle" /\ hurt' = TRUE /\ UNCHANGED <<phase, round, started, done, bad, running, out>>
Return == /\ phase = "running" /\ done = Jobs /\ bad = {} /\ ~hurt /\ phase' = "idle" /\ out' = [j \in Jobs |-> <<round, j>>]
          /\ UNCHANGED <<round, started, done, bad, running, hurt>>
Fail == phase = "running" /\ (bad # {} \/ hurt) /\ phase' = "failed" /\ UNCHANGED <<round, started, done, bad, running, out, hurt>>
Close == phase = "idle" /\ phase' = "closed" /\ UNCHANGED <<round, started, done, bad, running, out, hurt>>
AbsNext == \/ Begin \/ Return \/ Fail \/ Close \/ Hurt
           \/ \E w \in Workers : Finish(w) \/ Break(w) \/ Crash(w) \/ \E j \in Jobs : Start(w, j)
AbsSpec == AbsInit /\ [][AbsNext /\ UNCHANGED <<W, N>>]_<<avars, W, N>>
OncePerRound == \A v, w \in Workers : (v # w /\ running[v] # 0) => running[v] # running[w]
Accounted == done \cup bad \cup {running[w] : w \in {x \in Workers : running[x] # 0}} = started /\ done \cap bad = {}
ReturnedAll == (phase = "idle" /\ round > 0) => (done = Jobs /\ out = [j \in Jobs |-> <<round, j>>])
NothingLeft == (phase = "idle") => \A w \in Workers : running[w] = 0
=================================================================================
