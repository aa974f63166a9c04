------------------------------- MODULE Dispenser -------------------------------
(* The protocol of the dispatcher, one action per step that other processes may observe.  Every worker owns a queue used in both directions: a put     *)
(* goes to the local buffer of the sender and a feeder thread moves it to the pipe later.  A trigger event tells the worker that a parameter is on the  *)
(* way and, when it is cleared, the manager that the result is.  keep is the event that lets the workers live.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, N, Rounds, MaxFail,
          MaxCrash,           \* workers that may die while they work on a parameter
          Intr,               \* "none"; "close": an interrupted computation closes the dispatcher; "keep": it is left as it is (a broken design)
          WaitsTrigger        \* TRUE: the protocol.  FALSE: a worker takes from its queue without waiting for the trigger (a broken design)
Jobs == 1..N
Workers == 1..W
VARIABLES keep, trig, bufM, pipe, bufW, wpc, wjob, mpc, mi, nxt, cnt, assigned, res, round, fails, runs, done, bad, out
vars == <<keep, trig, bufM, pipe, bufW, wpc, wjob, mpc, mi, nxt, cnt, assigned, res, round, fails, runs, done, bad, out>>
mgr == <<mpc, mi, nxt, cnt, assigned, res, round, fails, out>>
wrk == <<wpc, wjob, runs, done, bad>>
chan == <<bufM, pipe, bufW>>
Init == /\ keep = TRUE /\ trig = [w \in Workers |-> FALSE]
        /\ bufM = [w \in Workers |-> <<>>] /\ pipe = [w \in Workers |-> <<>>] /\ bufW = [w \in Workers |-> <<>>]
        /\ wpc = [w \in Workers |-> "top"] /\ wjob = [w \in Workers |-> 0]
        /\ mpc = "idle" /\ mi = 1 /\ nxt = 1 /\ cnt = 0 /\ assigned = [w \in Workers |-> 0] /\ res = [j \in Jobs |-> <<>>]
        /\ round = 0 /\ fails \in {s \in SUBSET Jobs : Cardinality(s) <= MaxFail} /\ runs = [j \in Jobs |-> 0] /\ done = {} /\ bad = {} /\ out = <<>>
(* ---- manager ---- *)
Begin == /\ mpc = "idle" /\ round < Rounds /\ keep
         /\ mpc' = "assign" /\ mi' = 1 /\ nxt' = 1 /\ cnt' = 0 /\ round' = round + 1 /\ assigned' = [w \in Workers |-> 0]
         /\ res' = [j \in Jobs |-> <<>>] /\ out' = <<>> /\ runs' = [j \in Jobs |-> 0] /\ done' = {} /\ bad' = {}
         /\ UNCHANGED <<keep, trig, bufM, pipe, bufW, wpc, wjob, fails>>
PutParam == bufM' = [bufM EXCEPT ![mi] = Append(@, <<"P", round, nxt>>)] /\ assigned' = [assigned EXCEPT ![mi] = nxt] /\ nxt' = nxt + 1
Assign == mpc = "assign" /\ PutParam /\ mpc' = "assigned" /\ UNCHANGED <<keep, trig, pipe, bufW, mi, cnt, res, round, fails, out, wrk>>
Trigger == /\ mpc = "assigned" /\ trig' = [trig EXCEPT ![mi] = TRUE]
           /\ IF mi < W THEN mi' = mi + 1 /\ mpc' = "assign" ELSE mi' = 1 /\ mpc' = "poll"
           /\ UNCHANGED <<keep, chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
Advance == IF mi < W THEN mi' = mi + 1 /\ mpc' = "poll" ELSE mi' = 1 /\ mpc' = "loop"
Poll == /\ mpc = "poll"
        /\ IF assigned[mi] # 0 /\ ~trig[mi] THEN mpc' = "fetch" /\ mi' = mi
           ELSE IF assigned[mi] # 0 /\ wpc[mi] = "dead" THEN mpc' = "closing" /\ mi' = 0 ELSE Advance
        /\ UNCHANGED <<keep, trig, chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
Loop == /\ mpc = "loop"
        /\ IF cnt = N THEN mpc' = "idle" /\ out' = res ELSE mpc' = "poll" /\ out' = out
        /\ UNCHANGED <<keep, trig, chan, wrk, mi, nxt, cnt, assigned, res, round, fails>>
Fetch == /\ mpc = "fetch" /\ pipe[mi] # <<>>
         /\ pipe' = [pipe EXCEPT ![mi] = Tail(@)]
         /\ LET item == Head(pipe[mi]) IN
            IF item[1] = "F" THEN mpc' = "closing" /\ mi' = 0 /\ UNCHANGED <<cnt, assigned, res>>
            ELSE /\ res' = [res EXCEPT ![assigned[mi]] = <<item[2], item[3]>>] /\ cnt' = cnt + 1
                 /\ IF nxt <= N THEN mpc' = "next" /\ UNCHANGED <<mi, assigned>> ELSE assigned' = [assigned EXCEPT ![mi] = 0] /\ Advance
         /\ UNCHANGED <<keep, trig, bufM, bufW, wrk, nxt, round, fails, out>>
NextParam == mpc = "next" /\ PutParam /\ mpc' = "nexttrig" /\ UNCHANGED <<keep, trig, pipe, bufW, wrk, mi, cnt, res, round, fails, out>>
NextTrigger == mpc = "nexttrig" /\ trig' = [trig EXCEPT ![mi] = TRUE] /\ Advance /\ UNCHANGED <<keep, chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
UserClose == mpc = "idle" /\ keep /\ mpc' = "userclosing" /\ mi' = 0 /\ UNCHANGED <<keep, trig, chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
Active == {"assign", "assigned", "poll", "loop", "fetch", "next", "nexttrig"}
Interrupt == /\ Intr # "none" /\ mpc \in Active /\ mpc' = (IF Intr = "close" THEN "iclosing" ELSE "idle") /\ mi' = 0
             /\ UNCHANGED <<keep, trig, chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
Closing == /\ mpc \in {"closing", "iclosing", "userclosing"} /\ (IF mi = 0 THEN keep' = FALSE /\ trig' = trig ELSE keep' = keep /\ trig' = [trig EXCEPT ![mi] = TRUE])
           /\ IF mi < W THEN mi' = mi + 1 /\ mpc' = mpc ELSE mi' = mi /\ mpc' = (CASE mpc = "closing" -> "failed" [] mpc = "iclosing" -> "ifailed" [] OTHER -> "closed")
           /\ UNCHANGED <<chan, wrk, nxt, cnt, assigned, res, round, fails, out>>
Manager == Begin \/ Assign \/ Trigger \/ Poll \/ Loop \/ Fetch \/ NextParam \/ NextTrigger \/ Closing
(* ---- feeder threads ---- *)
FlushM(w) == bufM[w] # <<>> /\ pipe' = [pipe EXCEPT ![w] = Append(@, Head(bufM[w]))] /\ bufM' = [bufM EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<keep, trig, bufW, mgr, wrk>>
FlushW(w) == bufW[w] # <<>> /\ pipe' = [pipe EXCEPT ![w] = Append(@, Head(bufW[w]))] /\ bufW' = [bufW EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<keep, trig, bufM, mgr, wrk>>
(* ---- workers ---- *)
Pc(w, a, b) == wpc[w] = a /\ wpc' = [wpc EXCEPT ![w] = b]
Top(w) == /\ Pc(w, "top", IF ~keep THEN "exit" ELSE IF WaitsTrigger THEN "wait" ELSE "get") /\ UNCHANGED <<keep, trig, chan, mgr, wjob, runs, done, bad>>
Wait(w) == trig[w] /\ Pc(w, "wait", "check") /\ UNCHANGED <<keep, trig, chan, mgr, wjob, runs, done, bad>>
Check(w) == Pc(w, "check", IF keep THEN "get" ELSE "leave") /\ UNCHANGED <<keep, trig, chan, mgr, wjob, runs, done, bad>>
Get(w) == /\ pipe[w] # <<>> /\ Pc(w, "get", "run") /\ pipe' = [pipe EXCEPT ![w] = Tail(@)] /\ wjob' = [wjob EXCEPT ![w] = Head(pipe[w])[3]]
          /\ runs' = [runs EXCEPT ![Head(pipe[w])[3]] = @ + 1]
          /\ Assert(WaitsTrigger => Head(pipe[w])[1] = "P", "a worker took its own result") /\ UNCHANGED <<keep, trig, bufM, bufW, mgr, done, bad>>
Run(w) == /\ Pc(w, "run", "put")
          /\ IF wjob[w] \in fails THEN bad' = bad \cup {wjob[w]} /\ done' = done ELSE done' = done \cup {wjob[w]} /\ bad' = bad
          /\ UNCHANGED <<keep, trig, chan, mgr, wjob, runs>>
Put(w) == /\ Pc(w, "put", "clear") /\ bufW' = [bufW EXCEPT ![w] = Append(@, <<IF wjob[w] \in fails THEN "F" ELSE "R", round, wjob[w]>>)]
          /\ wjob' = [wjob EXCEPT ![w] = 0] /\ UNCHANGED <<keep, trig, bufM, pipe, mgr, runs, done, bad>>
Clear(w) == Pc(w, "clear", "top") /\ trig' = [trig EXCEPT ![w] = FALSE] /\ UNCHANGED <<keep, chan, mgr, wjob, runs, done, bad>>
Leave(w) == Pc(w, "leave", "exit") /\ trig' = [trig EXCEPT ![w] = FALSE] /\ UNCHANGED <<keep, chan, mgr, wjob, runs, done, bad>>
Dead == {w \in Workers : wpc[w] = "dead"}
Crash(w) == /\ Cardinality(Dead) < MaxCrash /\ wpc[w] \in {"get", "run", "put", "clear"}
            /\ wpc' = [wpc EXCEPT ![w] = "dead"] /\ wjob' = [wjob EXCEPT ![w] = 0] /\ bufW' = [bufW EXCEPT ![w] = <<>>]
            /\ bad' = (IF wpc[w] = "run" THEN bad \cup {wjob[w]} ELSE bad) /\ UNCHANGED <<keep, trig, bufM, pipe, mgr, runs, done>>
Worker(w) == Top(w) \/ Wait(w) \/ Check(w) \/ Get(w) \/ Run(w) \/ Put(w) \/ Clear(w) \/ Leave(w)
Next == Manager \/ UserClose \/ Interrupt \/ \E w \in Workers : Worker(w) \/ Crash(w) \/ FlushM(w) \/ FlushW(w)
Fair == WF_vars(Manager) /\ \A w \in Workers : WF_vars(Worker(w)) /\ WF_vars(FlushM(w)) /\ WF_vars(FlushW(w))
Spec == Init /\ [][Next]_vars /\ Fair
(* ---- properties ---- *)
RightDirection == /\ (mpc = "fetch" /\ pipe[mi] # <<>>) => Head(pipe[mi])[1] \in {"R", "F"}
                  /\ \A w \in Workers : (wpc[w] = "get" /\ pipe[w] # <<>> /\ keep) => Head(pipe[w])[1] = "P"
OneItem == \A w \in Workers : Len(bufM[w]) + Len(pipe[w]) + Len(bufW[w]) <= 1
OnceEach == \A j \in Jobs : runs[j] <= 1
InOrder == (mpc = "idle" /\ round > 0) => (out = [j \in Jobs |-> <<round, j>>] /\ done = Jobs /\ bad = {})
CleanIdle == mpc = "idle" => \A w \in Workers : bufM[w] = <<>> /\ pipe[w] = <<>> /\ bufW[w] = <<>> /\ ~trig[w] /\ wpc[w] \in {"top", "wait"}
Hurt == Dead # {} \/ mpc \in {"iclosing", "ifailed"}
FailReported == mpc = "failed" => (bad # {} \/ Hurt)
Terminates == (mpc = "assign") ~> (mpc \in {"idle", "failed", "ifailed"})
AllLeave == (~keep) ~> (\A w \in Workers : wpc[w] \in {"exit", "dead"})
Busy == mpc \in Active \cup {"closing", "iclosing"}
Abs == INSTANCE DispAbs WITH hurt <- Hurt, phase <- (IF Busy THEN "running" ELSE IF mpc \in {"failed", "ifailed"} THEN "failed" ELSE IF mpc = "closed" THEN "closed" ELSE "idle"),
                             started <- {j \in Jobs : runs[j] > 0},
                             running <- [w \in Workers |-> IF wpc[w] = "run" THEN wjob[w] ELSE 0]
Refines == Abs!AbsSpec
=================================================================================
